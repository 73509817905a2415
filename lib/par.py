"""Puts scenarios side by side: on threads of their own, or with their calls
interleaved on one thread."""

# positions of handles and file names in the lines of a scenario
ARGS = {'file': (1,), 'ropen': (1, 2), 'sopen': (1, 2), 'rbin': (1,),
        'wopen': (1, 2)}
ON_HANDLE = {'has', 'rhdr', 'rtrc', 'rclose', 'keys', 'geth', 'gett', 'wtrc',
             'wclose', 'st', 'drain'}


def rename(line, k, shared=()):
    t = line.split(' ')
    for i in ARGS.get(t[0], (1,) if t[0] in ON_HANDLE else ()):
        if not (t[i] in shared and i == (2 if len(t) > 2 else 1)):
            t[i] = '%s%s' % (t[i], k)
    return ' '.join(t)


def threads(r, scenarios, n, k=4):
    """n scenarios of k threads each"""
    res = []
    for i in range(n):
        sc = []
        for j in range(k):
            src = scenarios[r.randrange(len(scenarios))]
            sc += ['@%d %s' % (j, rename(x, j)) for x in src]
        res.append(sc)
    return res


def shared(r, scenarios, n, k=4):
    """k threads that read one and the same file"""
    res = []
    ok = [s for s in scenarios if s[0].startswith('file ') and
          not any(x.startswith('file ') for x in s[1:])]
    for i in range(n):
        src = ok[r.randrange(len(ok))]
        f = src[0].split(' ')[1]
        sc = [src[0]]
        for j in range(k):
            sc += ['@%d %s' % (j, rename(x, j, shared=(f,)))
                   for x in src[1:]]
        res.append(sc)
    return res


SETUP = {'map', 'bh', 'wnew', 'wgh', 'wgh2', 'wghn', 'wblk3', 'wscan', 'wch',
         'wext', 'wextl'}


def interleaved(r, scenarios, n, k=3):
    """calls of k scenarios in any order, on one thread; what describes the
    arguments of one call stays together with it"""
    res = []
    for i in range(n):
        qs = []
        for j in range(k):
            src = scenarios[r.randrange(len(scenarios))]
            groups, cur = [], []
            names = {x.split(' ')[1] for x in src
                     if x.split(' ')[0] in ('map', 'bh')}
            for x in src:
                cur.append(named(rename(x, j), j, names))
                if x.split(' ')[0] not in SETUP:
                    groups.append(cur)
                    cur = []
            qs.append(groups)
        sc = []
        while any(qs):
            sc += r.choice([q for q in qs if q]).pop(0)
        res.append(sc)
    return res


def named(line, j, names):
    """names of maps and binary headers, where defined and where used"""
    t = line.split(' ')
    if t[0] in ('map', 'bh'):
        t[1] += str(j)
    elif t[0] in ('ropen', 'sopen', 'wopen'):
        t[3:] = [x + str(j) if x in names else x for x in t[3:]]
    return ' '.join(t)
