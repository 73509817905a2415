"""Programs on devices that fail after a number of bytes."""
NAMES = {'n0': 3600, 'n1': 3600, 'n2': 3600, 'y0': 3600, 'y1': 3600, 'y2': 3600, 'd': 128}


def total(kind, ns, nt, rest):
    per = 240 + 4 * ns if kind != 'd' else 20 + 32 + 4 * ns
    return NAMES[kind] + per * nt + 3200 * rest


def config(r):
    kind = r.choice(['y0', 'y1', 'y2', 'y2', 'd', 'd', 'n0', 'n1', 'n2'])
    ns = r.choice([1, 10, 500, 3000, 20000, 30000])
    nt = r.choice([1, 2, 3, 5])
    rest = r.choice([0, 0, 1, 2]) if kind in ('y1', 'y2') else 0
    return kind, ns, nt, rest


def budget(r, n):
    """bytes until the failure: anywhere, or near a buffer or header edge"""
    k = r.random()
    if k < .5:
        return r.randrange(n + 1)
    b = r.choice([0, 1, 3199, 3200, 3600, 8191, 8192, 4096, 65536, n, n - 1,
                  n - 3200])
    return max(0, b + r.choice([-1, 0, 1]))


def writes(r, n):
    res = []
    for _ in range(n):
        kind, ns, nt, rest = c = config(r)
        sc = ['ref %s %d %d %d' % c]
        sc.append('arm w %d %d %s %d' % (
            budget(r, total(*c)), r.random() < .3,
            r.choice(['nospc', 'io', 'fbig']), r.choice([0, 0, 0, 1000])))
        sc.append('wopen')
        res.append((sc, nt))
    return [sc + ['wtrc %d' % k for k in range(nt)] + ['wclose']
            for sc, nt in res]


def reads(r, n):
    res = []
    for _ in range(n):
        kind, ns, nt, rest = c = config(r)
        sc = ['ref %s %d %d %d' % c]
        k = r.random()
        if k < .75:
            sc.append('arm r %d %d io %d' % (
                budget(r, total(*c)), r.random() < .3,
                r.choice([0, 0, 0, 100])))
        else:                         # no failure, but short transfers
            sc.append('arm none -1 0 io %d' % r.choice([1, 7, 100, 4095]))
        sc.append('ropen ' + r.choice('rs'))
        sc += ['rtrc'] * (nt + r.randrange(2))
        sc.append('rclose')
        res.append(sc)
    return res


def healthy(r, n):
    """the same programs without a failure, but with short transfers"""
    res = []
    for _ in range(n):
        kind, ns, nt, rest = c = config(r)
        res.append(['ref %s %d %d %d' % c, 'arm none -1 0 io %d' % r.choice(
            [0, 100, 4095]), 'wopen'] +
            ['wtrc %d' % k for k in range(nt)] + ['wclose'])
    return res
