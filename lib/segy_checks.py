"""Scenario families for the SEG-Y properties."""
import json
import random
import re
import struct

import segy_gen as g
from segy_gen import (BE0, BE1, BIN, BPS, FORMATS, LE, TEXT, TRH, TYPES,
                      Crafted, Script, map_line, read_all)

ENDIANS = [LE, BE0, BE1]


# ------------------------------------------------- programs from SegyModel
MODEL_CFG = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Keys={%s} Lens={%s} MaxTraces=%d MaxCalls=%d Seqs={%s} Srts={%s} Record=%s
INVARIANTS SeqExact SrtExact OnceEach Complete %s
'''


def cfg(keys, lens, mt, mc, seqs, srts, record):
    q = lambda xs: ', '.join('"%s"' % x for x in xs)
    return MODEL_CFG % (', '.join(map(str, keys)), ', '.join(map(str, lens)),
                        mt, mc, q(seqs), q(srts),
                        'TRUE' if record else 'FALSE',
                        'Emit' if record else '')


def parse_programs(out):
    res = []
    for line in out.splitlines():
        m = re.match(r'^"PROGRAM (.*)"$', line)
        if m:
            res.append(json.loads(m.group(1).replace('\\"', '"')))
    return res


def model_programs(s, n, keys=(1, 2, 3), lens=(0, 2), mt=4, mc=9,
                   seqs=('r', 'q'), srts=('s',), depth=None):
    out = s.model('SegyModel', cfg(keys, lens, mt, mc, seqs, srts, True),
                  label='SegyModel simulate', workers=1,
                  extra=['-simulate', 'num=%d' % n, '-depth',
                         str(depth or mt + mc + 3), '-seed', str(s.seed)])
    return parse_programs(out)


def model_exhaustive(s, thorough):
    s.model('SegyModel', cfg((1, 2), (0, 2), 3, 8 if thorough else 6,
                             ('r', 'q') if thorough else ('r',), ('s',),
                             False), label='SegyModel exhaustive')


KEYSETS = {
    'int8': [-128, -5, 3, 127], 'uint8': [0, 5, 127, 200],
    'int16': [-32768, -2, 7, 300], 'uint16': [0, 256, 32767, 65535],
    'int24': [-8388608, -1, 1, 65536], 'uint24': [0, 255, 65536, 16777215],
    'int32': [-2147483648, -257, 256, 2147483647],
    'uint32': [0, 65535, 2147483647, 4294967295],
    'int64': [-2**63, -2**32, 2**32, 2**63 - 1],
    'uint64': [0, 1, 2**32, 2**62],
    'ibm': [-1024.0, -0.0625, 0.5, 16.0],
    'ieee_single': [-3.0, -0.5, 0.25, 1e10],
    'ieee_double': [-1e300, -1.5, 1e-300, 2.25]}


RANGES = {'int8': (-2**7, 2**7), 'uint8': (0, 2**8), 'int16': (-2**15, 2**15),
          'uint16': (0, 2**16), 'int24': (-2**23, 2**23), 'uint24': (0, 2**24),
          'int32': (-2**31, 2**31), 'uint32': (0, 2**32),
          'int64': (-2**63, 2**63), 'uint64': (0, 2**63)}


def keyset(r, kt):
    """four different keys: far apart, or neighbours at some magnitude"""
    if r.random() < .4:
        return KEYSETS[kt]
    if kt in RANGES:
        lo, hi = RANGES[kt]
        k = r.randrange((hi - 1).bit_length())
        b = (1 << k) * r.choice([1, 1, -1]) + r.choice([0, 0, -1, 1])
        b = max(lo, min(hi - 4, b - 1))
        return list(range(b, b + 4))
    sgn = r.choice([1.0, -1.0])
    if kt == 'ieee_double':
        b = g.dbits(r.choice([1.0, 2.0**52, 1e-3, 16777216.0, 0.0]))
        return [sgn * g.bitsd(b + i) for i in range(1, 5)]
    if kt == 'ieee_single':
        b = r.choice([0x3f800000, 0x4b7fffff, 0x4e000000, 0x00000001])
        return [sgn * struct.unpack('>f', struct.pack('>I', b + i))[0]
                for i in range(4)]
    b = r.choice([0x100000, 0xfffff0, 0x800000, 0x123456])
    return [sgn * (b + i) * 2.0 ** (e - 24)
            for e in [4 * r.randrange(-8, 9)] for i in range(4)]


def instantiate(r, prog):
    """A program of the model, with concrete formats, maps and values."""
    rev = r.choice([0, 1, 2]) if prog['fixed'] >= 0 else r.choice([1, 2])
    fmt = r.choice(FORMATS)
    endian = r.choice(ENDIANS)
    nadd = r.choice([0, 0, 1, 2]) if rev == 2 else 0
    dflt = r.random() < .3 and nadd in (0, 1)
    if dflt:
        maps, mid, key, kt = None, '-', r.choice(
            ['FFID', 'CHAN', 'INLINE', 'R_STAT', 'SP_NUM', 'ESP']), None
        blocks = g.default_fields()
        kt = [t for b in blocks[:1 + nadd] for o, n, t in b if n == key][-1]
    else:
        kt = r.choice(list(TYPES))
        key = 'KEY'
        kb = r.randrange(0, nadd + 1)
        maps = []
        for i in range(nadd + 1):
            m = g.rand_map(r, samp_num=i == 0)
            if i == kb:
                for o in r.sample(range(0, 241 - TYPES[kt]), 60):
                    if all(o + TYPES[kt] <= a or o >= a + TYPES[t]
                           for a, _, t in m):
                        m = sorted(m + [(o, 'KEY', kt)])
                        break
                else:
                    m = [(0, 'KEY', kt)] + ([(60, 'SAMP_NUM', 'int16')]
                                            if i == 0 else [])
            maps.append(m)
        mid = 'm'
        blocks = maps
    vals = sorted(keyset(r, kt))
    if dflt and nadd and kt == 'uint64':
        # the same name is also a 32-bit field of the first block
        vals = [0, 7, 300, 2**31 - 1]
    tok = (g.tok_dbl if kt in ('ibm', 'ieee_single', 'ieee_double')
           else g.tok_int)
    L = []
    if maps:
        L.append(map_line('m', maps))
    bh = g.rand_bh_free(r, .1)
    bh['format_code'] = fmt
    bh['fixed_tr_length'] = 1 if prog['fixed'] >= 0 and rev else 0
    if prog['fixed'] >= 0:
        if prog['fixed'] and r.random() < .3:
            bh['ext_samp_per_tr'] = prog['fixed']
            bh['samp_per_tr'] = r.choice([0, 1, 5])
        else:
            bh['samp_per_tr'] = prog['fixed']
    bh['job_id'] = 11
    bh['SEGY_rev_minor_ver'] = 0
    if rev == 0:
        bh.pop('SEGY_rev_major_ver', None)
    if nadd:
        bh['max_num_add_tr_headers'] = nadd
        bh['SEGY_rev_major_ver'] = 2
    L.append(g.bh_line('b', bh, endian))
    nt = r.choice([0, 1, 2, 3]) if rev else r.choice([0, 1])
    texts = [g.rand_text(r) for _ in range(nt)]
    nl = r.choice([0, 0, 1, 2]) if rev == 2 else 0
    trls = [g.rand_text(r, end=r.random() < .3) for _ in range(nl)]
    L.append(' '.join(['wopen', 'w', 'a', str(rev), str(nt)] +
                      [t.hex() for t in texts] + ['b', str(nl)] +
                      [t.hex() for t in trls] + [mid]))
    fields = g.eff_fields(blocks[:1 + nadd])
    for c in prog['calls']:
        op = c['op']
        if op == 'write':
            toks = ['SAMP_NUM', g.tok_int(c['n']), key, tok(vals[c['k'] - 1])]
            for n, t in fields.items():
                if n in ('SAMP_NUM', key) or r.random() < .7:
                    continue
                if dflt and nadd:
                    v = r.randrange(0, 100)
                    toks += [n, g.tok_dbl(float(v)) if t == 'ieee_double'
                             else g.tok_int(v)]
                else:
                    toks += [n, g.field_value(t, r)]
            L.append(' '.join(['wtrc', 'w', str(len(toks) // 2)] + toks +
                              [str(c['n'])] +
                              [g.smp(g.value_for(fmt, r))
                               for _ in range(c['n'])]))
        elif op == 'close':
            L.append('wclose w')
        elif op == 'ropen':
            L.append('ropen %s a %s -' % (c['h'], mid))
        elif op == 'sopen':
            L.append('sopen %s a %s %s -' % (c['h'], key, mid))
        elif op in ('geth', 'gett'):
            L.append('%s %s %s %s' % (op, c['h'], tok(vals[c['k'] - 1]),
                                      '-' if c['max'] == 9 else c['max']))
        else:
            L.append('%s %s' % (op, c['h']))
    return L


# ----------------------------------------------------------- single families
def roundtrips(r, n, **kw):
    """write -> read back, cycling through formats, orders and revisions"""
    out = []
    for i in range(n):
        rev = i % 3
        s = Script(r, rev=rev, fmt=FORMATS[(i // 3) % 13],
                   endian=ENDIANS[(i // 39) % 3], **kw)
        out.append(s.lines + s.reread(r))
    return out


def fewer_headers(r, n):
    """traces with fewer additional headers than others of their file"""
    out = []
    for i in range(n):
        nadd = r.choice([2, 3, 4])
        if i % 2:
            s = Script(r, rev=2, nadd=nadd, fixed=i % 8 == 1,
                       ntr=r.choice([2, 3, 4]), max_smp=3)
            out.append(s.lines + s.reread(r))
        else:
            c = Crafted(r, rev=2, nadd=nadd, fixed=i % 8 == 0,
                        ntr=r.choice([2, 3, 4]), max_smp=3,
                        trl_mode=r.choice([0, 1, -1]))
            out.append(c.prelude() + ['ropen r a %s -' % c.map_id()] +
                       read_all('r', len(c.lens), r))
    return out


def default_scripts(r, n, mixed=.2):
    out = []
    for i in range(n):
        s = Script(r, rev=i % 3, default=True, ntr=r.choice([1, 2, 3]),
                   mixed=mixed)
        out.append(s.lines + s.reread(r))
    return out


def crafted_reads(r, n, **kw):
    out = []
    for i in range(n):
        c = Crafted(r, **kw)
        out.append(c.prelude() + ['ropen r a %s -' % c.map_id()] +
                   read_all('r', len(c.lens), r))
    return out


def int_words(r, n, bps):
    """byte patterns that exercise every byte position and the carries"""
    k = r.randrange(5)
    out = b''
    for i in range(n):
        if k == 0:
            w = bytearray(bps)
            w[i % bps] = r.choice([1, 0x7f, 0x80, 0xff, r.randrange(256)])
        elif k == 1:
            w = bytearray(b'\xff' * bps)
            w[i % bps] = r.choice([0, 0x7f, 0x80, 0xfe, r.randrange(256)])
        elif k == 2:
            v = (1 << r.randrange(8 * bps)) + r.choice([-1, 0, 1])
            w = (v % (1 << 8 * bps)).to_bytes(bps, 'big')
        else:
            w = bytes(r.randrange(256) for _ in range(bps))
        out += bytes(w)
    return out


def ibm_words(r, n):
    out = b''
    for _ in range(n):
        k = r.randrange(6)
        s = r.choice([0, 0x80])
        e = r.choice([0, 1, 63, 64, 65, 66, 127, r.randrange(128)])
        f = r.choice([0, 1, 0x100000, 0x0fffff, 0xffffff, 0x800000,
                      r.randrange(1 << 24), r.randrange(1 << 24)])
        out += bytes([s | e]) + f.to_bytes(3, 'big')
    return out


def ieee_words(r, n, single):
    out = b''
    for _ in range(n):
        if single:
            e = r.choice([0, 1, 126, 127, 128, 254, 255, r.randrange(256)])
            f = r.choice([0, 1, 0x7fffff, 0x400000, r.randrange(1 << 23)])
            if e == 255:
                f = 0
            out += ((r.randrange(2) << 31) | (e << 23) | f).to_bytes(4, 'big')
        else:
            e = r.choice([0, 1, 1022, 1023, 2046, 2047, r.randrange(2048)])
            f = r.choice([0, 1, (1 << 52) - 1, r.randrange(1 << 52)])
            if e == 2047:
                f = 0
            out += ((r.randrange(2) << 63) | (e << 52) | f).to_bytes(8, 'big')
    return out


def sample_words(r, c, n):
    k = r.randrange(3)
    if c.fmt == 1:
        b = ibm_words(r, n)
    elif c.fmt in (5, 6) and k:
        b = ieee_words(r, n, c.fmt == 5)
    else:
        b = int_words(r, n, c.bps)
    if c.little:
        b = b''.join(b[i:i + c.bps][::-1] for i in range(0, len(b), c.bps))
    return b


def sample_reads(r, per, nsmp=24, exhaustive=False):
    """every format and byte order, each with `per` files of samples"""
    out = []
    for fmt in FORMATS:
        for e in ENDIANS:
            for k in range(per):
                c = Crafted(r, fmt=fmt, endian=e, ntr=2, nsmp=nsmp, nadd=0,
                            text_mode=0, trl_mode=0, maps='-' if k % 2 else
                            [[(114, 'SAMP_NUM', 'uint16')]], free=0,
                            offset=False, samp_bytes=sample_words)
                out.append(c.prelude() +
                           ['ropen r a %s -' % c.map_id(), 'rtrc r', 'rtrc r'])
    for fmt in (8, 16):
        def every(r_, c, n):
            return bytes(range(256))
        c = Crafted(r, fmt=fmt, ntr=1, nsmp=256, nadd=0, text_mode=0,
                    trl_mode=0, maps='-', free=0, offset=False,
                    samp_bytes=every)
        out.append(c.prelude() + ['ropen r a - -', 'rtrc r'])
    if exhaustive:
        for fmt in (3, 11):
            for e in (LE, BE0):
                for part in range(16):
                    def every(r_, c, n, part=part):
                        return b''.join(i.to_bytes(2, 'big') for i in
                                        range(part * 4096, part * 4096 + 4096))
                    c = Crafted(r, fmt=fmt, endian=e, ntr=1, nsmp=4096, nadd=0,
                                text_mode=0, trl_mode=0, maps='-', free=0,
                                offset=False, samp_bytes=every)
                    out.append(c.prelude() + ['ropen r a - -', 'rtrc r'])
    return out


def inexact(r, s, n):
    """sample values the format can only hold after rounding"""
    out = []
    for _ in range(n):
        k = r.randrange(4)
        if s.fmt in (1, 5):
            if k == 0:
                v = g.value_for(s.fmt, r)
            elif k == 1:
                v = r.choice([1, -1]) * (1 + r.randrange(1, 1 << 20) *
                                         2.0**-44) * 2.0**r.randrange(-60, 60)
            elif k == 2:
                v = r.choice([1, -1]) * (2 - 2.0**-r.randrange(20, 52)) * \
                    2.0**r.randrange(-30, 30)
            else:
                v = r.uniform(-1e6, 1e6)
            out.append(v)
        elif s.fmt == 6:
            out.append(g.double_value(r))
        else:
            bits = (g.SIGNED.get(s.fmt) or g.UNSIGNED[s.fmt])
            lo = -(2**(bits - 1)) if s.fmt in g.SIGNED else 0
            hi = 2**(bits - 1) - 1 if s.fmt in g.SIGNED else 2**bits - 1
            m = min(hi, 2**40)
            v = r.randrange(max(lo, -2**40), m) + \
                (r.choice([0, .5, .25, .75]) if k else 0)
            if v < 0 and s.fmt not in g.SIGNED:
                v = 0.0
            out.append(float(v))
    return out


def sample_writes(r, per, nsmp=16):
    out = []
    for fmt in FORMATS:
        for e in ENDIANS:
            for k in range(per):
                s = Script(r, rev=r.randrange(3), fmt=fmt, endian=e, ntr=2,
                           nsmp=nsmp, nadd=0, ntext=1, ntrl=0, free=0,
                           maps='-' if k % 2 else
                           [[(114, 'SAMP_NUM', 'uint16')]],
                           values=inexact if k % 3 else None)
                out.append(s.lines)
    return out


# every type at awkward offsets, packed edge to edge
def packed_map(r, samp=True):
    ents, o = [], r.choice([0, 0, 1, 3])
    i = 0
    if samp:
        ents.append((o, 'SAMP_NUM', r.choice(['int16', 'uint16', 'int32'])))
        o += TYPES[ents[-1][2]]
    ts = list(TYPES)
    r.shuffle(ts)
    while True:
        t = ts[i % len(ts)]
        if o + TYPES[t] > 240:
            break
        ents.append((o, 'P%d' % i, t))
        o += TYPES[t] + (r.choice([0, 0, 0, 1, 5]))
        i += 1
    return ents


def header_bytes(r, c, i, b):
    k = r.randrange(4)
    if k == 0:
        for j in range(240):
            b[j] = r.choice([0, 0xff, 0x80, 0x7f, 1])
    elif k == 1:
        for j in range(240):
            b[j] = (j * 7 + i * 31 + 129) & 0xff
    # quiet the NaNs: a float field never has all exponent bits set
    for o, nm, t in (c.blocks()[i] if c.maps != '-' and i < len(c.blocks())
                     else g.default_fields()[i] if c.maps == '-' and i < 2
                     else []):
        if t in ('ieee_single', 'ieee_double'):
            p = o + TYPES[t] - 1 if c.little else o
            b[p] &= 0xbf


def header_reads(r, n):
    out = []
    for i in range(n):
        nadd = r.choice([0, 0, 1, 2, 3])
        maps = '-' if i % 4 == 0 else [packed_map(r, True)] + \
            [packed_map(r, False) for _ in range(r.choice(
                [nadd, nadd, max(nadd - 1, 0), nadd + 1]))]
        if maps != '-' and nadd and r.random() < .4:
            # one name in several blocks: the last block wins
            for b in maps[1:]:
                if b:
                    o, _, t = b[0]
                    b[0] = (o, maps[0][-1][1], t)
        c = Crafted(r, rev=2 if nadd else r.randrange(3), nadd=nadd,
                    endian=ENDIANS[i % 3], ntr=2, nsmp=1, maps=maps,
                    text_mode=0, trl_mode=0, free=0, offset=False,
                    fixed=r.random() < .7, hdr_bytes=header_bytes, fmt=8)
        out.append(c.prelude() + ['ropen r a %s -' % c.map_id(), 'rtrc r',
                                  'rhdr r'])
    return out


def header_writes(r, n, mixed=(0, .4)):
    out = []
    for i in range(n):
        nadd = r.choice([0, 0, 1, 2, 3])
        rev = 2 if nadd else r.randrange(3)
        maps = '-' if i % 4 == 0 and nadd < 2 else [packed_map(r, True)] + \
            [packed_map(r, False) for _ in range(nadd)]
        s = Script(r, rev=rev, nadd=nadd, endian=ENDIANS[i % 3], ntr=2,
                   nsmp=1, maps=maps, ntext=1, ntrl=0, free=0, fmt=8,
                   fixed=r.random() < .7, partial=r.choice([0, .3, .9]),
                   mixed=r.choice(mixed))
        out.append(s.lines + (s.reread(r) if rev != 0 else []))
    return out


def bin_reads(r, n):
    out = []
    for i in range(n):
        c = Crafted(r, rev=i % 4, endian=ENDIANS[i % 3], ntr=r.choice([0, 1]),
                    nsmp=1, maps='-', free=r.choice([.2, .8, 1]), nadd=None
                    if i % 4 == 2 else 0)
        out.append(c.prelude() + ['ropen r a - -', 'rbin a'] +
                   read_all('r', len(c.lens)))
    # one field at a time, each with a value that shows its bytes apart
    for i, f in enumerate(g.FREE):
        c = Crafted(r, rev=2, endian=ENDIANS[i % 3], ntr=0, maps='-', free=0,
                    nadd=0, text_mode=0, trl_mode=0, offset=False)
        c.bh[f] = int.from_bytes(bytes([0x81 + i, 0x72, 0x63, 0x54]
                                       [:g.BIN_FIELDS[f][1]]), 'big')
        out.append(c.prelude() + ['ropen r a - -'])
    return out


def bin_override(r, n):
    """a reader given a binary header uses it instead of the file's"""
    out = []
    for i in range(n):
        rev = r.choice([0, 1, 2])
        c = Crafted(r, rev=rev, endian=ENDIANS[i % 3], ntr=r.choice([1, 2, 3]),
                    maps='-', nadd=r.choice([0, 1]) if rev == 2 else 0,
                    free=.4)
        good = dict(c.bh)
        # the file's own header is wrong; the layout is told by the caller
        bad = dict(good)
        for k in ('format_code', 'samp_per_tr', 'ext_samp_per_tr',
                  'fixed_tr_length', 'ext_text_headers_num'):
            if r.random() < .5:
                bad[k] = r.choice([0, 1, 3, 6])
        if r.random() < .4:
            bad['SEGY_rev_major_ver'] = r.randrange(4)
        c.bh = bad
        data = c.bytes()
        good.update(g.rand_bh_free(r, .3))
        e = r.choice([0, LE, 77])     # ignored: the file's order counts
        if i % 8 == 7:                # not to be replaced by the file's own
            c.bh = dict(good)
            none = dict(format_code=r.choice([0, 0, 4, 17]))
            if r.random() < .5:
                none = dict(good, **none)
            out.append(c.prelude() + [g.bh_line('b', none, e),
                                      'ropen r a - b'])
            continue
        out.append(c.prelude(data=data) +
                   [g.bh_line('b', good, e), 'ropen r a - b'] +
                   read_all('r', len(c.lens), r))
    return out


def bin_writes(r, n):
    out = []
    for i in range(n):
        s = Script(r, rev=i % 3, endian=ENDIANS[(i // 3) % 3],
                   ntr=r.choice([0, 1]), nsmp=2, maps='-', free=r.choice(
                       [.3, .9]), nadd=r.choice([0, 1]), fmt=r.choice(FORMATS))
        out.append(s.lines + ['ropen r a - -', 'rbin a'])
    return out


def text_scripts(r, n):
    out = []
    for i in range(n):
        if i % 2:
            c = Crafted(r, rev=r.choice([1, 2, 2, 3]), ntr=r.choice([0, 1, 2]),
                        nsmp=r.choice([0, 1, 2]), maps='-', free=0,
                        text_mode=r.choice([0, 1, 2, 3, -1, -1]),
                        trl_mode=None)
            out.append(c.prelude() + ['ropen r a - -'] +
                       read_all('r', len(c.lens), r))
        else:
            rev = r.choice([0, 1, 2, 2])
            s = Script(r, rev=rev, default=r.random() < .2, maps='-', free=0,
                       ntr=r.choice([0, 1, 2]), nsmp=1,
                       ntext=r.choice([0, 1]) if rev == 0 else
                       r.choice([0, 1, 2, 3, 5]),
                       ntrl=r.choice([0, 1, 2, 3]))
            out.append(s.lines + s.reread(r))
    return out


def layout_reads(r, n):
    """fixed and variable lengths, extended counts, first-trace offsets,
    additional headers, trailers of unknown number"""
    out = []
    for i in range(n):
        rev = r.choice([0, 1, 2, 2, 2, 3])
        c = Crafted(r, rev=rev, ntr=r.choice([1, 2, 3, 4]), fixed=i % 2 == 0,
                    free=0, trl_mode=None if rev < 2 else
                    r.choice([0, 1, -1, -1]), max_smp=9)
        out.append(c.prelude() + ['ropen r a %s -' % c.map_id()] +
                   read_all('r', len(c.lens), r))
    return out


def long_traces(r, lens=(32767, 32768, 40000, 65535)):
    """sample counts that do not fit a signed 16-bit field"""
    out = []
    for n in lens:
        for rev, fixed in ((0, True), (1, True), (1, False), (2, False)):
            c = Crafted(r, rev=rev, fixed=fixed, fmt=r.choice([8, 16]), ntr=2,
                        nsmp=n, maps='-', nadd=0, text_mode=0,
                        trl_mode=-1 if rev == 2 else 0, free=0, offset=False,
                        use_ext_spt=False,
                        samp_bytes=lambda r_, c_, k: bytes([r_.randrange(256)])
                        * k)
            out.append(c.prelude() + ['ropen r a - -', 'has r', 'rhdr r',
                                      'has r', 'rhdr r', 'has r'])
    return out


def sorted_reads(r, n):
    out = []
    for i in range(n):
        kt = list(TYPES)[i % 13]
        nadd = r.choice([0, 0, 1, 2])
        kb = r.randrange(nadd + 1)
        maps = []
        for j in range(nadd + 1):
            m = g.rand_map(r, samp_num=j == 0)
            if j == kb:
                free = [o for o in range(0, 241 - TYPES[kt])
                        if all(o + TYPES[kt] <= a or o >= a + TYPES[t]
                               for a, _, t in m)]
                m = sorted(m + [(r.choice(free), 'KEY', kt)])
            maps.append(m)
        vals = keyset(r, kt)
        seq = [r.choice(vals[:r.choice([2, 4])]) for _ in
               range(r.choice([0, 1, 2, 3, 5, 7]))]
        it = iter(seq)

        def hb(r_, c, blk, b, it=it, kb=kb, kt=kt):
            if blk == kb:
                v = next(it)
                o = [e[0] for e in c.blocks()[blk] if e[1] == 'KEY'][0]
                g.put(b, o, TYPES[kt], raw(kt, v), c.little)
        c = Crafted(r, rev=2 if nadd else r.randrange(3), nadd=nadd,
                    ntr=len(seq), maps=maps, free=0, hdr_bytes=hb,
                    trl_mode=0 if not nadd else r.choice([0, 1]), max_smp=3)
        tok = (g.tok_dbl if kt in ('ibm', 'ieee_single', 'ieee_double')
               else g.tok_int)
        L = c.prelude() + ['sopen s a KEY m -', 'keys s']
        if i % 4 == 3:        # the layout is told by the caller
            good = dict(c.bh)
            for k in ('format_code', 'samp_per_tr', 'fixed_tr_length'):
                if r.random() < .5:
                    c.bh[k] = r.choice([0, 1, 3, 6])
            L = c.prelude() + [g.bh_line('b', good, r.choice([0, LE, 77])),
                               'sopen s a KEY m b', 'keys s']
        ops = ['has s', 'rtrc s', 'rhdr s', 'keys s']
        for v in vals:
            ops.append('geth s %s %s' % (tok(v), r.choice(['-', '0', '1',
                                                           '2'])))
            ops.append('gett s %s %s' % (tok(v), r.choice(['-', '0', '1',
                                                           '3'])))
        if r.random() < .5:
            L += read_all('s', len(seq), r)
            L += r.sample(ops[4:], 3)
        else:
            for _ in range(12):
                L.append(r.choice(ops))
        out.append(L)
    return out


def raw(t, v):
    """the stored word of a header value"""
    import struct
    if t == 'ieee_single':
        return struct.unpack('>I', struct.pack('>f', v))[0]
    if t == 'ieee_double':
        return g.dbits(v)
    if t == 'ibm':
        s = 1 if v < 0 else 0
        v = abs(v)
        e = 64
        while v >= 1:
            v /= 16
            e += 1
        while v and v < 1 / 16:
            v *= 16
            e -= 1
        return s << 31 | e << 24 | int(v * (1 << 24))
    return v


def cursor_reads(r, n):
    """arbitrary sequences of has/read/header on up to two readers of one
    file, reading past the end included"""
    out = []
    for i in range(n):
        c = Crafted(r, ntr=r.choice([0, 1, 2, 3, 5]), free=0, max_smp=4)
        L = c.prelude() + ['ropen r a %s -' % c.map_id()]
        hs = ['r']
        if r.random() < .5:
            L.append('ropen q a %s -' % c.map_id())
            hs.append('q')
        for _ in range(r.randrange(4, 16)):
            L.append('%s %s' % (r.choice(['has', 'rhdr', 'rtrc', 'has']),
                                r.choice(hs)))
        out.append(L)
    return out


def truncated(r, n):
    """files cut at any byte"""
    out = []
    for i in range(n):
        c = Crafted(r, rev=r.choice([0, 1, 2]), ntr=r.choice([0, 1, 2, 3]),
                    free=0, trl_mode=None)
        b = c.bytes()
        base = TEXT + BIN
        cut = r.choice([0, 1, TEXT - 1, TEXT, TEXT + 99, base - 1, base,
                        r.randrange(len(b)), len(b) - 1,
                        r.randrange(base, len(b)) if len(b) > base else base,
                        max(0, len(b) - r.randrange(1, 300))])
        if c.bh.get('num_of_trailer_stanza') == -1 and cut < len(b):
            # scanning for the trailer in a cut file: any exception will do,
            # and whether the scan succeeds is not specified
            c = Crafted(r, rev=2, ntr=2, free=0, trl_mode=r.choice([0, 1]))
            b = c.bytes()
            cut = r.randrange(len(b))
        L = c.prelude(data=b[:cut]) + ['ropen r a %s -' % c.map_id()]
        L += read_all('r', len(c.lens) + 1, r)
        # whatever happened, the reader can still be asked
        L += r.sample(['rtrc r', 'has r', 'rhdr r', 'rtrc r', 'has r',
                       'rhdr r'], r.randrange(1, 6))
        out.append(L)
    return out


def malformed(r, n):
    out = []
    for i in range(n):
        k = i % 13
        rev = r.choice([0, 1, 2])
        if k == 0:        # unsupported sample format
            c = Crafted(r, rev=rev, maps='-')
            c.bh['format_code'] = r.choice([0, 4, 13, 14, 17, -1, 256, 100])
            out.append(c.prelude() + ['ropen r a - -', 'has r'])
        elif k == 1:      # unsupported byte order constant
            c = Crafted(r, rev=rev, maps='-')
            b = bytearray(c.bytes())
            b[TEXT + 96:TEXT + 100] = r.choice(
                [b'\1\0\0\0', b'\2\1\4\3', b'\3\4\1\2', b'\xff' * 4,
                 b'\0\0\0\1', b'\1\2\3\5', b'\4\3\2\2'])
            out.append(c.prelude(data=bytes(b)) + ['ropen r a - -'])
        elif k == 2:      # no such file
            out.append(['ropen r nofile - -', 'sopen s nofile FFID - -'])
        elif k in (3, 4):      # bad header maps, reader and writer
            m = g.rand_map(r)
            bad = r.choice(['over', 'past', 'name', 'pastfirst', 'edge',
                            'touch'])
            nm = 'SEG00000'
            if bad == 'over':
                m = [(10, 'A', 'int32'), (10 + r.randrange(1, 4), 'B',
                                          'int16')]
            elif bad == 'past':
                t = r.choice([x for x in TYPES if TYPES[x] > 1])
                m = [(0, 'A', 'int16'), (241 - TYPES[t], 'B', t)]
            elif bad == 'pastfirst':
                t = r.choice(list(TYPES))
                m = [(r.choice([241 - TYPES[t], 240, 1000]), 'B', t)]
            elif bad == 'edge':
                t = r.choice(list(TYPES))
                m = [(240 - TYPES[t], 'B', t)]
            elif bad == 'touch':
                m = [(0, 'A', 'int24'), (3, 'B', 'ieee_double'),
                     (11, 'C', 'int8')]
            else:
                nm = r.choice(['SEG0000', 'SEG000000', 'x'])
            c = Crafted(r, rev=0, maps=[m], ntr=1)
            blocks = r.choice([[m], [[(0, 'Z', 'int8')], m]])
            names = [nm] * len(blocks)
            L = ['file a %s' % c.bytes().hex(), map_line('m', blocks, names)]
            if k == 3:
                L += ['ropen r a m -', 'has r', 'rhdr r']
            else:
                L += ['bh b endianness=0 samp_per_tr=1 format_code=8 job_id=1',
                      'wopen w o %d 0 b 0 m' % rev]
            out.append(L)
        elif k == 5:      # text headers and trailers of wrong size
            rev = r.choice([0, 1, 2])
            sizes = [r.choice([1, 3199, 3201, 0 if rev else 80, 6400])]
            txt = ['41' * s or '-' for s in sizes]
            good = '42' * 3200
            if rev == 2 and r.random() < .5:
                L = ['wopen w a 2 1 %s - 1 %s -' % (good, txt[0])]
            elif rev and r.random() < .5:
                L = ['wopen w a %d 2 %s %s - 0 -' % (rev, good, txt[0])]
            else:
                L = ['wopen w a %d 1 %s - 0 -' % (rev, txt[0])]
            out.append(L)
        elif k == 6:      # writer: unsupported format or byte order
            b = r.choice(['bh b endianness=0 samp_per_tr=1 format_code=%d' %
                          r.choice([4, 13, 14, 17, -1, 99]),
                          'bh b endianness=%d samp_per_tr=1 format_code=8' %
                          r.choice([1, 0x02010403, -1, 0x01020305])])
            out.append([b, 'wopen w a %d 0 b 0 -' % rev])
        elif k in (7, 8):      # traces that do not fit the headers written
            fixed = rev == 0 or r.random() < .5
            n0 = r.randrange(0, 5)
            bad = r.choice(['more', 'less', 'nosn', 'ok'])
            ln = {'more': n0 + r.choice([1, 2, 100]), 'less': max(0, n0 - 1),
                  'nosn': n0, 'ok': n0}[bad]
            f = r.choice(FORMATS)
            L = ['bh b endianness=%d samp_per_tr=%d format_code=%d job_id=1 '
                 'fixed_tr_length=%d' % (r.choice(ENDIANS), n0, f,
                                         1 if fixed and rev else 0),
                 'wopen w a %d 0 b 0 -' % rev]
            for j in range(r.choice([0, 1])):
                L.append('wtrc w 1 SAMP_NUM %s %d %s' % (
                    g.tok_int(n0), n0, ' '.join(g.smp(1.0)
                                                for _ in range(n0))))
            sn = '' if bad == 'nosn' else ' SAMP_NUM ' + g.tok_int(n0)
            L.append('wtrc w %d%s %d %s' % (1 if sn else 0, sn, ln, ' '.join(
                g.smp(2.0) for _ in range(ln))))
            out.append(L + ['wclose w'])
        elif k == 9:      # number of maps and of additional headers differ
            nadd = r.choice([1, 2, 3])
            blocks = [g.rand_map(r) for _ in range(r.choice([1, nadd,
                                                             nadd + 1,
                                                             nadd + 2]))]
            L = [map_line('m', blocks),
                 'bh b endianness=0 samp_per_tr=0 format_code=8 job_id=1 '
                 'SEGY_rev_major_ver=2 max_num_add_tr_headers=%d' % nadd,
                 'wopen w a 2 0 b 0 m']
            out.append(L)
        elif k == 10:     # sorting by a header the traces do not have
            c = Crafted(r, maps='-' if r.random() < .5 else [g.rand_map(r)],
                        nadd=0, ntr=r.choice([0, 1, 2]))
            out.append(c.prelude() + ['sopen s a NOSUCH %s -' % c.map_id(),
                                      'has s', 'keys s'])
        elif k == 11:     # unknown end of trace data
            c = Crafted(r, rev=2, ntr=0, trl_mode=0, maps='-')
            c.bh['num_of_trailer_stanza'] = -1
            c.bh['num_of_tr_in_file'] = 0
            c.bh['fixed_tr_length'] = r.choice([0, 1])
            # what follows would do as a trailer
            b = c.bytes() + bytes(r.randrange(256) for _ in range(TEXT)) * \
                r.choice([0, 1, 2]) + b'((SEG: EndText))'.ljust(TEXT)
            out.append(c.prelude(data=b) + ['ropen r a - -', 'has r'])
        else:             # more text headers or trailers than the file has
            c = Crafted(r, rev=2, ntr=1, trl_mode=0, text_mode=0, maps='-')
            c.bh[r.choice(['ext_text_headers_num', 'num_of_trailer_stanza'])] \
                = r.choice([2, 5, 30000])
            out.append(c.prelude() + ['ropen r a - -'])
    return out


def default_rejects(r, n):
    """first traces a writer without binary header can and cannot take; a
    rejected one leaves the writer as it was"""
    out = []
    for i in range(n):
        rev = i % 3
        L = ['wopen w a %d 0 - 0 -' % rev]
        for _ in range(r.choice([1, 2, 3])):
            k = r.randrange(8)
            ns = r.choice([0, 1, 2, 4])
            toks = []
            sn = ns
            if k == 0:
                sn = r.choice([32768, 40000, 65536, 2**40])
            if k == 6:
                sn = r.choice([ns + 1, ns - 1, -ns, 2 * ns + 3])
            if k != 1:
                toks += ['SAMP_NUM', g.tok_int(sn)]
            if k == 2:
                si = g.tok_int(r.choice([0, 32768, 65536, 2**31]))
            elif k == 3:
                si = g.tok_dbl(r.choice([0.0, 0.5, 0.99, 32767.5, 1e9]))
            elif k == 4:
                si = g.tok_dbl(r.choice([1.0, 1.5, 2000.25, 32767.0]))
            else:
                si = g.tok_int(r.choice([1, 250, 4000, 32767, 256]))
            if k != 5:
                toks += ['SAMP_INT', si]
            toks += ['FFID', g.tok_int(r.randrange(1000))]
            L.append('wtrc w %d %s %d %s' % (len(toks) // 2, ' '.join(toks),
                                             ns, ' '.join(g.smp(float(j))
                                                          for j in range(ns))))
        L += ['wclose w', 'ropen r a - -', 'has r', 'rtrc r', 'has r']
        out.append(L)
    return out


def refused(r, scripts):
    """between the traces of a script, traces whose number of samples differs
    from what the headers say; a refused trace leaves no mark in the file"""
    out = []
    for s in scripts:
        L = []
        for line in s:
            if line.startswith('wtrc '):
                t = line.split()
                k = 3 + 2 * int(t[2])
                n = int(t[k])
                smp = t[k + 1:]
                bad = [t[:k] + [str(n + 1)] + smp + [g.smp(1.0)]]
                if n:
                    bad.append(t[:k] + [str(n - 1)] + smp[:-1])
                for b in bad:
                    if r.random() < .5:
                        L.append(' '.join(b))
            L.append(line)
        out.append(L)
    return out


# numbers of samples around the sizes buffers are likely to have
SIZES = [127, 128, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047,
         2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000]


def sizes(r, n, offset=0, lens=SIZES):
    """long traces, read from crafted files and from written ones"""
    out = []
    for i in range(n):
        k = i + offset
        nsmp = lens[(k * 5 + r.randrange(3)) % len(lens)]
        fmt = FORMATS[k % 13]
        e = ENDIANS[k % 3]
        if k % 2:
            s = Script(r, rev=r.choice([0, 1, 2]), fmt=fmt, endian=e,
                       ntr=2, nsmp=nsmp, nadd=0, free=0, ntext=0, ntrl=0)
            out.append(s.lines + s.reread())
        else:
            c = Crafted(r, fmt=fmt, endian=e, ntr=2, nsmp=nsmp, nadd=0,
                        text_mode=0, trl_mode=0, free=0, offset=False)
            out.append(c.prelude() + ['ropen r a %s -' % c.map_id()] +
                       read_all('r', 2))
    return out


def many(r, n, ntr=(120, 257, 300), key=False):
    """files of many short traces, read in file order or sorted"""
    out = []
    for i in range(n):
        kt = r.choice(['int8', 'uint8', 'int16', 'int32', 'ieee_single'])
        maps = [[(0, 'KEY', kt), (10, 'NO', 'int32'),
                 (114, 'SAMP_NUM', 'int16')]]
        num = r.choice(ntr)
        nk = r.choice([3, 12, 60, 10**6])
        pool = [r.randrange(0, 128) for _ in range(min(nk, num))]
        rev = r.choice([0, 1, 2])
        fixed = rev == 0 or r.random() < .5
        base = r.choice([0, 1, 2, 3])
        L = [map_line('m', maps),
             'bh b endianness=%d samp_per_tr=%d format_code=%d job_id=1 '
             'fixed_tr_length=%d' % (r.choice(ENDIANS), base,
                                     r.choice(FORMATS), 1 if fixed and rev
                                     else 0),
             'wopen w a %d 0 b 0 m' % rev]
        keys = []
        tok = g.tok_dbl if kt == 'ieee_single' else g.tok_int
        for k in range(num):
            ns = base if fixed else r.randrange(0, 4)
            v = r.choice(pool)
            v = float(v) if kt == 'ieee_single' else v
            keys.append(v)
            L.append('wtrc w 3 KEY %s NO %s SAMP_NUM %s %d %s' % (
                tok(v), g.tok_int(k), g.tok_int(ns), ns,
                ' '.join(g.smp(float(r.randrange(100))) for _ in range(ns))))
        L.append('wclose w')
        if key:
            L += ['sopen s a KEY m -', 'keys s']
            ks = sorted(set(keys))
            for v in [ks[0], ks[-1]] + r.sample(ks, min(3, len(ks))):
                L.append('%s s %s %s' % (r.choice(['geth', 'gett']), tok(v),
                                         r.choice(['-', '-', 1, 5, 200])))
            for _ in range(num):
                L.append('%s s' % r.choice(['rhdr', 'rtrc']))
            L.append('has s')
        else:
            L += ['ropen r a m -'] + read_all('r', num, r)
        out.append(L)
    return out


def dense_map(r):
    """a block with as many fields as it can hold"""
    k = r.randrange(3)
    if k == 0:
        m = [(o, 'N%d' % o, r.choice(['int8', 'uint8'])) for o in range(240)
             if not 114 <= o < 116]
        return sorted(m + [(114, 'SAMP_NUM', 'int16')])
    m, o = [], 0
    ts = list(TYPES) if k == 1 else ['int16', 'uint16', 'int24', 'int32']
    while o < 232:
        if o >= 108 and not any(e[1] == 'SAMP_NUM' for e in m):
            m.append((o, 'SAMP_NUM', 'int32'))
            o += 4
            continue
        t = r.choice(ts)
        m.append((o, 'N%d' % o, t))
        o += TYPES[t]
    return m


def extremes(r, n, what=('text', 'trl', 'nadd', 'map', 'w')):
    """many text headers, trailers, additional headers or mapped fields"""
    out = []
    for i in range(n):
        k = what[i % len(what)]
        big = r.choice([5, 9, 10, 11, 16, 17, 20, 33, 40])
        kw = dict(ntr=r.choice([1, 2, 3]), free=0, max_smp=3, nadd=0,
                  text_mode=0, trl_mode=0)
        if k == 'w':
            rev = r.choice([1, 2, 2])
            s = Script(r, rev=rev, ntr=2, max_smp=3, free=0,
                       nadd=r.choice([0, 4, 6, big]), ntrl=r.choice([0, big]),
                       ntext=r.choice([1, big]))
            out.append(s.lines + s.reread(r))
            continue
        if k == 'text':
            kw.update(rev=r.choice([1, 2]), text_mode=r.choice([big, -1]),
                      end_after=big)
        elif k == 'trl':
            kw.update(rev=2, trl_mode=r.choice([big, -1]), end_after=big)
        elif k == 'nadd':
            kw.update(rev=2, nadd=big, maps=[g.rand_map(r)] + [
                g.rand_map(r, samp_num=False) for _ in range(big)])
        else:
            kw.update(maps=[dense_map(r)])
        c = Crafted(r, **kw)
        out.append(c.prelude() + ['ropen r a %s -' % c.map_id()] +
                   read_all('r', len(c.lens), r))
        if k == 'map':
            s = Script(r, maps=[dense_map(r)], ntr=2, max_smp=2, free=0,
                       nadd=0, partial=.05)
            out.append(s.lines + s.reread(r))
    return out


HUGE = (16383, 16384, 16385, 20001, 32767, 32768, 32769, 40000, 65535, 65536,
        65537, 70001)


def huge(r, lens=HUGE, ntr=(1100,)):
    """sample counts past 16 bits, numbers of traces past ten"""
    out = []
    for i, n in enumerate(lens):
        fmt = r.choice([3, 5, 8, 1, 7, 11, 16])
        m = [[(4, 'A', 'int16'), (114, 'SAMP_NUM', 'int32')]]
        if i % 2:
            s = Script(r, rev=2, fmt=fmt, ntr=1, nsmp=n, nadd=0, free=0,
                       ntext=0, ntrl=0, maps=m, fixed=False)
            out.append(s.lines + s.reread())
        else:
            c = Crafted(r, rev=2, fmt=fmt, ntr=1, nsmp=n, nadd=0, free=0,
                        text_mode=0, trl_mode=0, offset=False, maps=m,
                        use_ext_spt=True)
            out.append(c.prelude() + ['ropen r a m -'] + read_all('r', 1))
    for n in ntr:
        out += many(r, 1, (n,))
    return out


# <type of SAMP_NUM in the map, numbers of samples it can and can not hold>
COUNTS = [('int8', (0, 127, 128, 200, 255, 256)),
          ('uint8', (1, 127, 128, 255, 256, 257, 300)),
          ('int16', (1, 300, 32767, 32768, 65535, 65536, 65540)),
          ('uint16', (32768, 65535, 65536, 70000)),
          ('int24', (1, 70000)), ('uint64', (3, 300)), ('int64', (5,)),
          ('ieee_single', (0, 1, 2)), ('ieee_double', (0, 3)),
          ('ibm', (0, 1)), (None, (0, 1, 2)), ('default', (65535, 65536, 2))]


def countable(r, n, exact=False):
    """traces of different lengths whose number of samples has, or has not, a
    place in the trace header; exact: those which wrap in it are left out"""
    out = []
    for i in range(n):
        t, lens = COUNTS[i % len(COUNTS)]
        if exact and t in ('int16', 'default'):
            lens = [x for x in lens if not 32767 < x < 65536]
        rev = r.choice([1, 2])
        nadd = r.choice([0, 0, 1]) if rev == 2 else 0
        one = [(10, 'NO', 'int32')]
        if t == 'default':
            maps = '-'
        else:
            own = one + ([(20, 'SAMP_NUM', t)] if t else [])
            maps = [own, [(0, 'A', 'int16')]][:1 + nadd]
            if nadd and r.random() < .6:  # the last one counts
                maps = [one + [(20, 'SAMP_NUM', r.choice(['int8', 'int32']))],
                        own[1:]]
        L = [] if maps == '-' else [map_line('m', maps)]
        L += ['bh b endianness=%d format_code=%d job_id=1 SEGY_rev_major_ver=%d'
              ' max_num_add_tr_headers=%d' % (
                  r.choice(ENDIANS), r.choice([8, 16]), rev, nadd),
              'wopen w a %d 0 b 0 %s' % (rev, '-' if maps == '-' else 'm')]
        ok = 0
        big = r.choice(lens)
        for k, ns in enumerate([r.choice([0, 1, 2]), big, r.choice([0, 2])]):
            L.append('wtrc w 2 NO %s SAMP_NUM %s %d %s' % (
                g.tok_int(k), g.tok_int(ns), ns,
                ' '.join(g.smp(float(j % 100)) for j in range(ns))))
        L += ['wclose w', 'ropen r a %s -' % ('-' if maps == '-' else 'm')]
        L += ['has r', 'rtrc r'] * 4
        out.append(L)
    return out


def default_lengths(r, lens=(32767, 32768, 65535, 65536)):
    """first and second traces of real length given to writers without
    headers"""
    out = []
    for ns in lens:
        for rev in (0, 1, 2):
            L = ['wopen w a %d 0 - 0 -' % rev]
            for k, m in enumerate([ns, 3, ns]):
                L.append('wtrc w 3 FFID %s SAMP_INT %s SAMP_NUM %s %d %s' % (
                    g.tok_int(k), g.tok_int(1000), g.tok_int(m), m,
                    ' '.join(g.smp(float(j % 50)) for j in range(m))))
            out.append(L + ['wclose w', 'ropen r a - -'] +
                       ['has r', 'rtrc r'] * 3 + ['has r'])
    return out
