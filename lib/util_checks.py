"""Programs over traces, headers, exceptions, packed decimals, code pages."""
import json
import os
import re
import struct

from segy_gen import default_fields

KEYS = ['A', 'B', 'FFID', 'TRC_SEQ_LINE', 'samp_num', 'X1', '-']


def parse_programs(out):
    res = []
    for line in out.splitlines():
        if line.startswith('"PROGRAM '):
            res.append(json.loads(json.loads(line)[8:])['calls'])
    return res


def cfg(th, hh, eh, keys, mo, record):
    q = lambda xs: '{%s}' % ', '.join('"%s"' % x for x in xs)
    return ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
            'CONSTANTS TH = %s HH = %s EH = %s Keys = %s Vals = {1, 2} '
            'MaxOps = %d Record = %s\nINVARIANTS Independent TypeOK %s\n' % (
                q(th), q(hh), q(eh), q(keys), mo, 'TRUE' if record else
                'FALSE', 'Emit' if record else ''))


def exhaustive(s, thorough):
    s.model('ValuesModel', cfg(('t', 'u'), ('h',), (), ('A',),
                               7 if thorough else 5, False),
            label='ValuesModel traces exhaustive')
    s.model('ValuesModel', cfg((), (), ('e', 'f', 'g'), (),
                               9 if thorough else 7, False),
            label='ValuesModel exceptions exhaustive')


def programs(s, n, th, hh, eh, ops):
    out = s.model('ValuesModel', cfg(th, hh, eh, ('A', 'B'), ops, True),
                  label='ValuesModel simulate', workers=1,
                  extra=['-simulate', 'num=%d' % n, '-depth', str(ops + 2),
                         '-seed', str(s.seed)])
    return parse_programs(out)


def all_short(s, th, hh, eh, keys, ops):
    """every program of this length"""
    out = s.model('ValuesModel', cfg(th, hh, eh, keys, ops, True),
                  label='ValuesModel all programs of length %d' % ops)
    return parse_programs(out)


def val(r):
    if r.random() < .5:
        return 'i:%x' % (r.choice([0, 1, 2**63, 2**64 - 1, r.getrandbits(64),
                                   r.getrandbits(8)]))
    return 'd:%016x' % struct.unpack('>Q', struct.pack('>d', r.choice(
        [0.0, -0.0, 1.5, 1e300, -2.0, r.random()])))[0]


def smp(r, n=None):
    n = r.choice([0, 1, 2, 5] * 30 + [255, 257, 1000]) if n is None else n
    return '%d %s' % (n, ' '.join(
        '%016x' % struct.unpack('>Q', struct.pack('>d', r.uniform(-9, 9)))[0]
        for _ in range(n)))


def hdr(r, keys=KEYS):
    ks = r.sample(keys, r.randrange(min(4, len(keys)) + 1))
    return '%d %s' % (len(ks), ' '.join('%s %s' % (k, val(r)) for k in ks))


def text(r):
    k = r.random()
    n = 0 if k < .1 else r.randrange(1, 30) if k < .8 else \
        400 if k < .97 else r.choice([255, 256, 1024, 4097, 5000])
    return bytes(r.randrange(1, 256) for _ in range(n)).hex() or '-'


def enew(r, h):
    return 'enew %s %s %d %s %s' % (h, text(r), r.choice(
        [0, 1, 7, 1000, 1234567, 2**32, 2**64 - 1]), text(r), r.choice('lr'))


def kind(h):
    return {'t': 'T', 'u': 'T', 'v': 'T', 'h': 'H', 'i': 'H'}.get(h[0], 'E')


def instantiate(r, prog):
    """a program of the model, with values; everything alive is looked at
    after every step"""
    keys = dict(zip('AB', r.sample(KEYS, 2)))
    sc, live = [], {}
    for c in prog:
        op, h, g = c['op'], c['h'], c.get('g')
        if op == 'new':
            sc.append({'T': 'tnew %s %s %s' % (h, hdr(r), smp(r)),
                       'H': 'hnew %s %s' % (h, hdr(r)),
                       'E': enew(r, h)}[kind(h)])
            live[h] = True
            if kind(h) == 'E':
                sc.append('hold ' + h)
        elif op == 'del':
            sc.append('del ' + h)
            live.pop(h)
        elif op == 'set':
            sc.append('set %s %s %s' % (h, keys[c['k']], val(r)))
        elif op == 'hset':
            sc.append('hset %s %s %d' % (h, g, c['move']))
            if c['move']:
                live[g] = False
        elif op == 'throw':
            sc.append('throw %s %s %s' % (h, g, r.choice(['ptr', 'std',
                                                           'val'])))
            live[h] = True
        else:
            sc.append('%s %s %s' % (op, h, g))
            if op in ('mov', 'mas') and h != g:
                live[g] = False
            live[h] = True
        for x in sorted(live):
            if live[x]:
                if kind(x) == 'E':
                    if x == h and op != 'new':
                        sc.append('hold ' + x)
                    sc += ['held ' + x, 'what ' + x, 'held ' + x][
                        r.randrange(2):]
                else:
                    k = r.random()
                    sc.append('look %s%s' % (x, ' m' if k < .3 else ''))
                    if k > .7:
                        sc.append('keys ' + x)
                    elif k > .5:
                        sc.append('get %s %s' % (x, r.choice(KEYS)))
    return sc


def containers(r, n):
    """traces in vectors: growth, rotation, insertion, swaps"""
    res = []
    for _ in range(n):
        hs = ['t%d' % i for i in range(r.randrange(1, 7))]
        sc = ['tnew %s %s %s' % (h, hdr(r), smp(r)) for h in hs]
        for _ in range(r.randrange(1, 6)):
            k = r.random()
            if k < .5:
                q = r.sample(hs, r.randrange(1, len(hs) + 1))
                sc.append('rot %d %d %s' % (r.randrange(len(q)), len(q),
                                            ' '.join(q)))
            elif k < .7:
                sc.append('set %s %s %s' % (r.choice(hs), r.choice(KEYS),
                                            val(r)))
            elif len(hs) > 1:
                sc.append('swp %s %s' % tuple(r.sample(hs, 2)))
        sc += ['look ' + h for h in hs] + ['keys ' + h for h in hs]
        res.append(sc)
    return res


def maps(r, n):
    """many keys, set and overwritten, and read one by one"""
    res = []
    for _ in range(n):
        ks = ['K%d' % r.randrange(10**r.randrange(1, 6)) for _ in range(
            r.choice([1, 5, 40]))] + KEYS
        sc = ['tnew t 0 0', 'hnew h 0']
        for _ in range(r.choice([3, 10, 60])):
            k, o = r.choice(ks), r.choice('th')
            q = r.random()
            if q < .5:
                sc.append('set %s %s %s' % (o, k, val(r)))
            elif q < .8:
                sc.append('get %s %s' % (o, k))
            elif q < .9:
                sc.append('keys ' + o)
            else:
                sc.append('look ' + o)
        res.append(sc + ['look t', 'look h', 'keys t', 'keys h'])
    return res


# ----------------------------------------------------------------- code page
def codepage(r, n):
    allb = bytes(range(256)).hex()
    res = [['a2e ' + allb, 'e2a ' + allb, 'a2e -', 'e2a -']]
    for i in range(256):
        if i % 16 == 0:
            res.append([])
        for op in ('a2e', 'e2a'):
            res[-1].append('%s %02x' % (op, i))
    for _ in range(n):
        k = r.choice([1, 2, 80, 3200, r.randrange(1, 300)])
        b = bytes(r.randrange(256) for _ in range(k)).hex()
        res.append(['a2e ' + b, 'e2a ' + b])
    for k in (255, 256, 1024, 3201, 4096, 4097, 6400, 32768, 65535, 65536,
              65600):
        b = bytes(r.randrange(256) for _ in range(k)).hex()
        res.append(['%s %s' % (r.choice(['a2e', 'e2a']), b)])
    return res


# -------------------------------------------------------------------- BCD
MAXV = {'u8': 2**8 - 1, 'u16': 2**16 - 1, 'i32': 2**31 - 1, 'u32': 2**32 - 1,
        'i64': 2**63 - 1, 'u64': 2**64 - 1}


def bval(r, ty, n):
    top = min(10**n - 1, MAXV[ty])
    k = r.random()
    if k < .3:
        return r.choice([0, 1, 9, 10, top, top - top % 10, top // 10,
                         min(top, 10**r.randrange(n))])
    return r.randrange(top + 1) if k < .8 else r.randrange(
        min(top, 10**r.randrange(1, n + 1)) + 1)


def bcd_streams(r, n):
    """fields put one after another, then read back, at any half byte"""
    res = []
    for _ in range(n):
        fields, p = [], 0
        if r.random() < .4:
            p = 1                               # begin in mid-byte
        q = p
        while q < 40 and (len(fields) < 1 or r.random() < .85):
            ty = r.choice(list(MAXV))
            k = r.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 11, 12])
            fields.append((ty, k, bval(r, ty, k)))
            q += k
        b = bytearray(r.randrange(256) for _ in range(q // 2 + 3))
        if p:
            b[0] &= 0xf0                        # the half byte to fill
        sc = ['buf ' + b.hex()]
        if p:
            sc.append('seek 1')
        sc += ['put %s %x %d' % (ty, v, k) for ty, k, v in fields]
        sc.append('seek %d' % p)
        for ty, k, v in fields:
            wide = [t for t in MAXV if MAXV[t] >= 16 * 10**(k - 1) - 1 and
                    MAXV[t] >= v]
            sc.append('bget %s %d' % (r.choice(wide or ['u64']), k))
        res.append(sc)
    return res


def bcd_reads(r, n):
    """digits above nine included"""
    res = []
    for _ in range(n):
        b = bytes(r.randrange(256) for _ in range(10))
        sc = ['buf ' + b.hex()]
        for _ in range(12):
            k = r.choice([r.randrange(1, 13), r.randrange(13, 19)])
            p = r.randrange(0, 20 - k)
            ty = r.choice(['u64', 'i64'] + (['i32', 'u32'] if k < 9 else []) +
                          (['u16'] if k < 4 else []) +
                          (['u8'] if k < 3 else []))
            sc += ['seek %d' % p, 'bget %s %d' % (ty, k)]
        res.append(sc)
    return res


def bcd_exhaustive(ty, n, lo, hi):
    """every value of one field width, at both half bytes"""
    sc = []
    for v in range(lo, hi):
        for p in (0, 1):
            sc += ['buf ' + '00' * (n // 2 + 2), 'seek %d' % p,
                   'put %s %x %d' % (ty, v, n), 'seek %d' % p,
                   'bget i32 %d' % n]
    return sc


def byte_ops(r, n):
    res = []
    for _ in range(n):
        sc = []
        for _ in range(8):
            w = r.choice([1, 2, 4, 8])
            b = bytes(r.randrange(256) for _ in range(w))
            f = ''
            if w >= 4 and r.random() < .3:
                # a floating point type holding an ordinary number: a
                # signalling NaN may change when it is passed by value
                b = struct.pack('<f' if w == 4 else '<d', r.choice(
                    [0.0, 1.0, -2.5, 1e20]))
                f = ' f'
            if not (f and r.random() < .5):
                sc.append('rev ' + b.hex())
            sc.append('rw %s%s' % (b.hex(), f))
        for _ in range(8):
            d = r.choice([1, 2, 3, 4, 8, 3])
            sc.append('ceil %d %d' % (r.randrange(-400, 401), d))
        res.append(sc)
    return res


# --------------------------------------------------------------------- names
def fields():
    """every structure and the names of its fields, as the driver has them"""
    res = {}
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                           'harness', 'names.hpp')) as f:
        for line in f:
            m = re.match(r'\s*\{"(\w+)"', line)
            if m:
                cur = res[m.group(1)] = []
            m = re.match(r'\s*F\(\w+::\w+, (\w+)\)', line)
            if m:
                cur.append(m.group(1))
    return res


def names(r, n):
    """all names in order, then in any order, again and again"""
    fs = fields()
    every = ['name %s %s' % (s, e) for s in fs for e in fs[s]]
    tr = ['desc ' + x for x in sorted({e[1] for b in default_fields()
                                       for e in b})]
    res = [['name %s %s' % (s, e) for e in fs[s]] for s in fs] + [tr]
    for _ in range(n):
        res.append([r.choice(every + tr) for _ in range(60)])
    return res
