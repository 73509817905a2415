"""Scenario generators for the SEG-Y readers and writers.  They choose inputs
only; every expectation is in the TLA+ specification."""
import random
import struct

TEXT, BIN, TRH = 3200, 400, 240
FORMATS = [1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16]
BPS = {1: 4, 2: 4, 3: 2, 5: 4, 6: 8, 7: 3, 8: 1, 9: 8, 10: 4, 11: 2, 12: 8,
       15: 3, 16: 1}
SIGNED = {2: 32, 3: 16, 7: 24, 8: 8, 9: 64}
UNSIGNED = {10: 32, 11: 16, 12: 64, 15: 24, 16: 8}
TYPES = {'int8': 1, 'uint8': 1, 'int16': 2, 'uint16': 2, 'int24': 3,
         'uint24': 3, 'int32': 4, 'uint32': 4, 'int64': 8, 'uint64': 8,
         'ibm': 4, 'ieee_single': 4, 'ieee_double': 8}
LE, BE0, BE1 = 0x01020304, 0, 0x04030201
ENDTEXT = b'((SEG: EndText))'

BIN_FIELDS = dict(
    job_id=(0, 4), line_num=(4, 4), reel_num=(8, 4), tr_per_ens=(12, 2),
    aux_per_ens=(14, 2), samp_int=(16, 2), samp_int_orig=(18, 2),
    samp_per_tr=(20, 2), samp_per_tr_orig=(22, 2), format_code=(24, 2),
    ens_fold=(26, 2), sort_code=(28, 2), vert_sum_code=(30, 2),
    sw_freq_at_start=(32, 2), sw_freq_at_end=(34, 2), sw_length=(36, 2),
    sw_type_code=(38, 2), sw_ch_tr_num=(40, 2), taper_at_start=(42, 2),
    taper_at_end=(44, 2), taper_type=(46, 2), corr_traces=(48, 2),
    bin_gain_recov=(50, 2), amp_recov_meth=(52, 2), measure_system=(54, 2),
    impulse_sig_pol=(56, 2), vib_pol_code=(58, 2), ext_tr_per_ens=(60, 4),
    ext_aux_per_ens=(64, 4), ext_samp_per_tr=(68, 4),
    ext_samp_per_tr_orig=(88, 4), ext_ens_fold=(92, 4),
    SEGY_rev_major_ver=(300, 1), SEGY_rev_minor_ver=(301, 1),
    fixed_tr_length=(302, 2), ext_text_headers_num=(304, 2),
    max_num_add_tr_headers=(306, 4), time_basis_code=(310, 2),
    num_of_tr_in_file=(312, 8), byte_off_of_first_tr=(320, 8),
    num_of_trailer_stanza=(328, 4))
# fields that do not influence how the file is laid out
FREE = [n for n in BIN_FIELDS if n not in (
    'samp_per_tr', 'format_code', 'ext_samp_per_tr', 'SEGY_rev_major_ver',
    'fixed_tr_length', 'ext_text_headers_num', 'max_num_add_tr_headers',
    'num_of_tr_in_file', 'byte_off_of_first_tr', 'num_of_trailer_stanza')]


def dbits(x):
    return struct.unpack('>Q', struct.pack('>d', x))[0]


def bitsd(u):
    return struct.unpack('>d', struct.pack('>Q', u))[0]


def tok_int(v):
    return 'i:%016x' % (v & (2**64 - 1))


def tok_dbl(x):
    return 'd:%016x' % dbits(x)


def tok_bits(u):
    return 'd:%016x' % u


def smp(x):
    return '%016x' % dbits(x)


def edge_int(r, bits, signed=True):
    """integers around the places where widths, signs and carries change"""
    lo, hi = (-(2**(bits - 1)), 2**(bits - 1) - 1) if signed \
        else (0, 2**bits - 1)
    k = r.randrange(8)
    if k == 0:
        v = r.choice([lo, hi, lo + 1, hi - 1, 0, 1])
    elif k <= 2:
        v = 2**r.randrange(bits) + r.choice([-1, 0, 1])
        if signed and r.random() < .5:
            v = -v
    elif k == 3:
        b = r.randrange(256)
        v = b << (8 * r.randrange(bits // 8))
        if signed and v > hi:
            v -= 2**bits
    elif k == 4:
        v = r.randrange(-300, 300)
    else:
        v = r.randrange(lo, hi + 1)
    if not lo <= v <= hi:
        v = r.randrange(lo, hi + 1)
    return v


def ibm_value(r, wide=False):
    """a double an IBM single can hold exactly, its extremes included"""
    k = r.randrange(10)
    if k == 0:
        return 0.0
    if k == 1:
        return r.choice([1, -1]) * 16.0**r.randrange(-60, 60)
    if k == 2:
        return r.choice([1, -1]) * 2.0**r.randrange(-240, 240)
    if k == 3:
        f = r.choice([0xffffff, 0x100000, 0x100001, 0x800000, 0x7fffff,
                      0xfffff0, 0x0fffff0 & 0xffffff])
    elif k == 4:
        return float(r.randrange(-1000, 1000))
    else:
        f = r.randrange(0x100000, 0x1000000)
    e = r.randrange(0, 128) if r.random() < .3 else r.randrange(54, 75)
    return r.choice([1, -1]) * f * 2.0**-24 * 16.0**(e - 64)


def single_value(r):
    k = r.randrange(8)
    if k == 0:
        return r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 3.4028234663852886e38,
                         1.1754943508222875e-38, 1.401298464324817e-45])
    if k == 1:
        return r.choice([1, -1]) * 2.0**r.randrange(-149, 128)
    u = r.randrange(2**32)
    if k < 4:
        u = (u & 0x807fffff) | (r.randrange(110, 145) << 23)
    if (u >> 23) & 0xff == 0xff:
        u &= 0xbfffffff
    return struct.unpack('>f', struct.pack('>I', u))[0]


def double_value(r):
    u = r.randrange(2**64)
    if r.random() < .5:
        u = (u & 0x800fffffffffffff) | (r.randrange(1000, 1050) << 52)
    if (u >> 52) & 0x7ff == 0x7ff:
        u &= 0xbfffffffffffffff
    return bitsd(u)


def value_for(fmt, r):
    """a sample value the format represents exactly"""
    if fmt == 1:
        return ibm_value(r)
    if fmt == 5:
        return single_value(r)
    if fmt == 6:
        return double_value(r)
    if fmt in SIGNED:
        v = edge_int(r, SIGNED[fmt])
    else:
        v = edge_int(r, UNSIGNED[fmt], False)
    if abs(v) > 2**53:
        # keep the 53 most significant bits
        s = v.bit_length() - 53
        v = (abs(v) >> s << s) * (1 if v > 0 else -1)
        if fmt == 12 and v >= 2**64 or fmt == 9 and v > 2**63 - 1:
            v = 2**62
    return float(v)


def field_value(t, r):
    """token of a header value that field type t represents exactly"""
    if t == 'ibm':
        return tok_dbl(ibm_value(r))
    if t == 'ieee_single':
        return tok_dbl(single_value(r))
    if t == 'ieee_double':
        return tok_dbl(double_value(r))
    bits = TYPES[t] * 8
    return tok_int(edge_int(r, bits, not t.startswith('u')))


# ------------------------------------------------------------- header maps
def rand_map(r, samp_num=True, names=None, dense=False):
    """one block: list of (offset, name, type); holds SAMP_NUM if asked"""
    ents = []
    used = []
    if samp_num:
        t = r.choice(['int16', 'int16', 'uint16', 'int32', 'uint32', 'int24',
                      'uint24', 'int64', 'uint64'])
        o = r.choice([114, 114, 0, 240 - TYPES[t], r.randrange(0, 232)])
        ents.append((o, 'SAMP_NUM', t))
        used.append((o, o + TYPES[t]))
    n = r.randrange(0, 30 if dense else 8)
    pool = names or ['F%d' % i for i in range(40)]
    pool = list(pool)
    r.shuffle(pool)
    for _ in range(n):
        t = r.choice(list(TYPES))
        sz = TYPES[t]
        o = r.choice([0, 240 - sz, r.randrange(0, 241 - sz),
                      used[-1][1] if used else 3])
        if o + sz > 240 or any(not (o + sz <= a or o >= b) for a, b in used):
            continue
        ents.append((o, pool.pop(), t))
        used.append((o, o + sz))
    return sorted(ents)


def map_line(mid, blocks, names=None):
    parts = ['map', mid, str(len(blocks))]
    for i, b in enumerate(blocks):
        parts += [names[i] if names else 'SEG%05d' % i, str(len(b))]
        for o, n, t in b:
            parts += [str(o), n, t]
    return ' '.join(parts)


def eff_fields(blocks):
    d = {}
    for b in blocks:
        for o, n, t in sorted(b):
            d[n] = t
    return d


# ------------------------------------------------------------ crafted files
def put(buf, off, size, v, little):
    buf[off:off + size] = (v & (2**(8 * size) - 1)).to_bytes(
        size, 'little' if little else 'big')


def bin_bytes(bh, endian, noise=None):
    """noise: random.Random filling unassigned bytes"""
    b = bytearray(BIN)
    little = endian == LE
    if noise:
        for i in list(range(100, 300)) + list(range(332, 400)):
            b[i] = noise.randrange(256)
    for n, v in bh.items():
        if n in BIN_FIELDS:
            o, s = BIN_FIELDS[n]
            put(b, o, s, v, little)
        elif n == 'ext_samp_int':
            put(b, 72, 8, v, little)
        elif n == 'ext_samp_int_orig':
            put(b, 80, 8, v, little)
    # 0x01020304 seen by the reading (little-endian) machine marks a
    # little-endian file
    b[96:100] = endian.to_bytes(4, 'little')
    return bytes(b)


def rand_text(r, end=False):
    k = r.randrange(3)
    if k == 0:
        s = bytes([r.randrange(256)]) * TEXT
    elif k == 1:
        s = bytes(r.randrange(256) for _ in range(64)) * 50
    else:
        s = (b'C 1 text header %d ' % r.randrange(10**6)).ljust(80) * 40
    if end:
        s = ENDTEXT + s[16:]
    elif r.random() < .3:
        # nearly the end marker
        k = r.randrange(16)
        s = r.choice([
            ENDTEXT[:k] + bytes([ENDTEXT[k] ^ r.choice([1, 32, 128])]) +
            ENDTEXT[k + 1:] + s[16:],
            b' ' + ENDTEXT + s[17:],
            ENDTEXT[:14] + b'ures))' + s[20:],
            s[:80] + ENDTEXT + s[96:]])
    elif s[:16] == ENDTEXT:
        s = b'x' + s[1:]
    return s[:TEXT]


def rand_bh_free(r, prob=.5):
    bh = {}
    for n in FREE:
        if r.random() < prob:
            s = BIN_FIELDS[n][1]
            bh[n] = edge_int(r, 8 * s, n not in ('SEGY_rev_minor_ver',)) \
                if s > 1 else r.randrange(256)
    if r.random() < prob:
        bh['ext_samp_int'] = dbits(double_value(r))
    if r.random() < prob:
        bh['ext_samp_int_orig'] = dbits(double_value(r))
    return bh


def bh_line(bid, bh, endian):
    parts = ['bh', bid, 'endianness=%d' % endian]
    for n, v in bh.items():
        if n in ('ext_samp_int', 'ext_samp_int_orig'):
            parts.append('%s=%016x' % (n, v))
        else:
            parts.append('%s=%d' % (n, v))
    return ' '.join(parts)


FLOATS = ('ibm', 'ieee_single', 'ieee_double')
COUNT = 'ADD_TRC_HDR_NUM'


def pin(m, off, name, t):
    """map m with this field, and without what is in its place"""
    m = [e for e in m if e[1] != name and
         (e[0] + TYPES[e[2]] <= off or e[0] >= off + TYPES[t])]
    return sorted(m + [(off, name, t)])


def pin_count(r, maps, std=False):
    """a field that says how many additional headers a trace has"""
    if std:
        maps[1] = pin(maps[1], 156, COUNT, 'int16')
    elif r.random() < .8:
        t = r.choice(['int16', 'int16', 'int8', 'uint16', 'int32', 'uint64',
                      'ieee_single'])
        b = r.choice([1, 1, 1, 0, 2])
        o = r.choice([156, r.randrange(0, 240 - TYPES[t] + 1)])
        if b < len(maps):
            clash = any(e[1] == 'SAMP_NUM' and o < e[0] + TYPES[e[2]] and
                        e[0] < o + TYPES[t] for e in maps[b])
            if not clash:
                maps[b] = pin(maps[b], o, COUNT, t)


def count_field(maps):
    """(block, offset, type) of the field, None without one"""
    res = None
    for i in (0, 1):
        for o, n, t in sorted(maps[i]) if i < len(maps) else []:
            if n == COUNT:
                res = (i, o, t)
    return res


class Crafted:
    """A SEG-Y file put together byte by byte, without the library."""

    def __init__(self, r, fmt=None, endian=None, rev=None, ntr=None, nsmp=None,
                 fixed=None, nadd=None, text_mode=None, trl_mode=None,
                 maps=None, offset=None, free=.3, hdr_bytes=None,
                 samp_bytes=None, use_ext_spt=None, max_smp=6, end_after=None):
        self.r = r
        self.fmt = fmt if fmt is not None else r.choice(FORMATS)
        self.endian = endian if endian is not None else r.choice(
            [LE, BE0, BE1])
        self.little = self.endian == LE
        self.rev = rev if rev is not None else r.choice([0, 1, 2])
        self.bps = BPS[self.fmt]
        ntr = ntr if ntr is not None else r.choice([0, 1, 1, 2, 3, 4])
        fixed = fixed if fixed is not None else r.random() < .5
        if nadd is None:
            nadd = r.choice([0, 0, 1, 2, 3]) if self.rev >= 2 else 0
        self.nadd = nadd
        if maps is None:
            maps = '-' if r.random() < .4 else [rand_map(r)] + [
                rand_map(r, samp_num=r.random() < .3)
                for _ in range(r.choice([nadd, nadd, max(0, nadd - 1),
                                         nadd + 1]))]
            if maps != '-' and nadd > 1:
                pin_count(r, maps)
        self.maps = maps
        bh = rand_bh_free(r, free)
        bh['format_code'] = self.fmt
        bh['SEGY_rev_major_ver'] = self.rev
        self.fixed = fixed or self.rev == 0
        bh['fixed_tr_length'] = (r.choice([1, 1, -1, 256]) if fixed else 0)
        base = nsmp if nsmp is not None else r.randrange(0, max_smp + 1)
        self.lens = [base if self.fixed else
                     (nsmp if nsmp is not None else r.randrange(0, max_smp + 1))
                     for _ in range(ntr)]
        if use_ext_spt is None:
            use_ext_spt = self.rev >= 2 and r.random() < .4
        if use_ext_spt and base:
            bh['ext_samp_per_tr'] = base
            bh['samp_per_tr'] = r.choice([base, 0, 7, 1])
        else:
            bh['samp_per_tr'] = base if base < 32768 else base - 65536
        if self.rev >= 2:
            bh['max_num_add_tr_headers'] = nadd
        # text headers
        tm = text_mode if text_mode is not None else (
            r.choice([0, 0, 1, 2, 3, -1]) if self.rev >= 1 else 0)
        self.texts = [rand_text(r)]
        if tm == -1:
            k = r.randrange(0, 3) if end_after is None else end_after
            self.texts += [rand_text(r) for _ in range(k)]
            self.texts.append(rand_text(r, end=True))
        else:
            self.texts += [rand_text(r, end=r.random() < .2)
                           for _ in range(tm)]
        bh['ext_text_headers_num'] = tm
        # trailer
        tr = trl_mode if trl_mode is not None else (
            r.choice([0, 0, 1, 2, -1]) if self.rev >= 2 else 0)
        if tr == -1 and ntr == 0:
            tr = 0
        self.trls = []
        if tr == -1:
            self.trls = [rand_text(r) for _ in range(
                r.randrange(0, 3) if end_after is None else end_after)]
            self.trls.append(rand_text(r, end=True))
        else:
            self.trls = [rand_text(r, end=r.random() < .2) for _ in range(tr)]
        if self.rev >= 2:
            bh['num_of_trailer_stanza'] = tr
            bh['num_of_tr_in_file'] = ntr if (tr == -1 or r.random() < .5) \
                else r.choice([0, 2**31, 2**40 + 5])
            if tr == -1:
                self.pin_samp_num()
        self.gap = b''
        if self.rev >= 2 and (offset or (offset is None and r.random() < .3)):
            self.gap = bytes(r.randrange(256)
                             for _ in range(r.choice([0, 1, 17, 240, 3200])))
            bh['byte_off_of_first_tr'] = BIN + TEXT * len(self.texts) + \
                len(self.gap)
        self.bh = bh
        self.traces = []
        for n in self.lens:
            self.traces.append((self.header(n, hdr_bytes),
                                samp_bytes(r, self, n) if samp_bytes else
                                self.rand_samples(n)))

    def pin_samp_num(self):
        """an unknown number of trailer stanzas makes the reader walk the
        traces by the standard fields: keep SAMP_NUM there"""
        if self.maps == '-':
            return
        m = self.maps[0]
        m = [e for e in m if e[1] != 'SAMP_NUM' and
             (e[0] + TYPES[e[2]] <= 114 or e[0] >= 116)]
        m.append((114, 'SAMP_NUM', 'int16'))
        self.maps[0] = sorted(m)
        for i in range(1, len(self.maps)):
            self.maps[i] = [e for e in self.maps[i] if e[1] != 'SAMP_NUM']
        if self.nadd and len(self.maps) == 1:
            self.maps.append([])
        if self.nadd:
            m = [e for e in self.maps[1] if e[1] != 'SAMP_NUM' and
                 (e[0] + TYPES[e[2]] <= 136 or e[0] >= 140)]
            m.append((136, 'SAMP_NUM', 'int32'))
            self.maps[1] = sorted(m)
            for i, m in enumerate(self.maps):
                self.maps[i] = [e for e in m if e[1] != COUNT]
            pin_count(self.r, self.maps, std=True)

    def blocks(self):
        if self.maps == '-':
            return [[(114, 'SAMP_NUM', 'int16')],
                    [(136, 'SAMP_NUM', 'int32'), (156, COUNT, 'int16')]]
        return self.maps

    def rand_samples(self, n):
        r = self.r
        out = b''
        for _ in range(n):
            k = r.randrange(4)
            if k == 0:
                w = bytes([r.choice([0, 0x80, 0xff, 0x7f, 1])] * self.bps)
            elif k == 1:
                w = bytes([r.choice([0, 0x80, 0xff, 0x7f, 1])
                           for _ in range(self.bps)])
            else:
                w = bytes(r.randrange(256) for _ in range(self.bps))
            out += w
        return out

    def header(self, n, hdr_bytes=None):
        r = self.r
        out = b''
        na, num = self.nadd, None
        at = count_field(self.blocks()) if na > 1 else None
        if at and at[2] not in FLOATS:
            num = r.choice([0, 1, 1, 2, na, na - 1, na + 1,
                            r.choice([-1, 100, 128 * 256])])
            if not self.fixed and 0 < num < na:
                na = num
        # of several numbers of samples the last one counts
        last = max([i for i in range(min(1 + na, len(self.blocks())))
                    if any(e[1] == 'SAMP_NUM' for e in self.blocks()[i])],
                   default=0)
        if self.bh_walks() and na:
            last = 1
        for i in range(1 + na):
            m = n if i >= last or r.random() < .6 else r.choice(
                [0, 0, 1, n + 1])
            b = bytearray(r.randrange(256) for _ in range(TRH)) \
                if r.random() < .8 else bytearray(TRH)
            if hdr_bytes:
                hdr_bytes(r, self, i, b)
            for o, nm, t in (self.blocks()[i] if i < len(self.blocks())
                             else []):
                if nm == 'SAMP_NUM':
                    put(b, o, TYPES[t], m, self.little)
            # fixed standard places used when walking to unknown trailers
            if self.bh_walks():
                put(b, 114 if i == 0 else 136, 2 if i == 0 else 4, m,
                    self.little) if i < 2 else None
            for o, nm, t in (self.blocks()[i] if i < min(2, len(
                    self.blocks())) else []):
                if nm == COUNT and num is not None and t not in FLOATS:
                    put(b, o, TYPES[t], num % 256**TYPES[t], self.little)
            out += bytes(b)
        return out

    def bh_walks(self):
        return self.bh.get('num_of_trailer_stanza') == -1

    def bytes(self):
        out = self.texts[0] + bin_bytes(self.bh, self.endian, self.r)
        out += b''.join(self.texts[1:]) + self.gap
        out += b''.join(h + s for h, s in self.traces)
        return out + b''.join(self.trls)

    def map_id(self):
        return '-' if self.maps == '-' else 'm'

    def prelude(self, f='a', cut=None, data=None):
        lines = []
        b = data if data is not None else self.bytes()
        if cut is not None:
            b = b[:cut]
        lines.append('file %s %s' % (f, b.hex() or '-'))
        if self.maps != '-':
            lines.append(map_line('m', self.maps))
        return lines


def read_all(h, n, r=None, extra_has=True):
    """has/read for each of n traces, then has once more"""
    lines = []
    for _ in range(n):
        lines.append('has ' + h)
        lines.append(('rhdr ' if r and r.random() < .3 else 'rtrc ') + h)
    lines.append('has ' + h)
    return lines


# ------------------------------------------------------------ writer script
DEF_FIELDS = None


def default_fields():
    """name -> type of the standard map, from the specification module"""
    global DEF_FIELDS
    if DEF_FIELDS is None:
        import os
        import re
        import vlib
        src = open(os.path.join(vlib.SPEC, 'SegyDefaults.tla')).read()
        a, b = src.split('[nl |->')[1:]
        DEF_FIELDS = [[(int(o), n, t) for o, n, t in
                       re.findall(r'<<(\d+), "(\w+)", "(\w+)">>', x)]
                      for x in (a, b)]
    return DEF_FIELDS


class Script:
    """Random use of a writer, then a reader on the result."""

    def __init__(self, r, rev=None, fmt=None, endian=None, fixed=None,
                 default=False, ntr=None, maps=None, nadd=None, ntext=None,
                 ntrl=None, nsmp=None, free=.3, partial=.1, values=None,
                 mixed=0.0, max_smp=6):
        self.r = r
        rev = rev if rev is not None else r.choice([0, 1, 2])
        self.rev = rev
        self.default = default
        endian = BE0 if default else endian if endian is not None else \
            r.choice([LE, BE0, BE1])
        self.fmt = fmt if fmt is not None else r.choice(FORMATS)
        if default:
            self.fmt = 1 if rev == 0 else 5
        fixed = rev == 0 or (fixed if fixed is not None else r.random() < .5)
        if default and rev:
            fixed = False
        nadd = 0 if rev < 2 or default else \
            nadd if nadd is not None else r.choice([0, 0, 1, 2, 3])
        if maps is None:
            if r.random() < .4 and nadd in (0, 1):
                maps = '-'
            else:
                maps = [rand_map(r)]
                if default and r.random() < .9:
                    used = maps[0]
                    for t in ('int16', 'int32', 'ieee_double'):
                        o = r.randrange(0, 232)
                        if all(o + TYPES[t] <= a or o >= a + TYPES[tt]
                               for a, _, tt in used):
                            used.append((o, 'SAMP_INT', t))
                            break
                    maps[0] = sorted(used)
                while len(maps) < nadd + 1:
                    maps.append(rand_map(r, samp_num=r.random() < .3))
                if nadd > 1:
                    pin_count(r, maps)
        self.maps = maps
        ntr = ntr if ntr is not None else r.choice([0, 1, 2, 3, 4])
        base = nsmp if nsmp is not None else r.randrange(0, max_smp + 1)
        L = []
        if maps != '-':
            L.append(map_line('m', maps))
        bh = {}
        if not default:
            bh = rand_bh_free(r, free)
            if self.fmt == (1 if rev == 0 else 5) and r.random() < .5:
                bh['job_id'] = 7        # leave the format to the writer
            else:
                bh['format_code'] = self.fmt
            bh['samp_per_tr'] = base if base < 32768 else base - 65536
            if rev == 2 and base and r.random() < .4:
                bh['ext_samp_per_tr'] = base
                bh['samp_per_tr'] = r.choice([0, 1, 9])
            if rev == 0:
                bh['SEGY_rev_minor_ver'] = 0
                if r.random() < .3:
                    bh['SEGY_rev_major_ver'] = 1
                    bh['fixed_tr_length'] = 1
            else:
                bh['fixed_tr_length'] = 1 if fixed else 0
                bh['SEGY_rev_major_ver'] = r.choice([rev, rev, 0, 1, 2]) \
                    if rev == 2 and not nadd else r.choice([rev, rev, 0])
            if nadd:
                bh['max_num_add_tr_headers'] = nadd
            if rev == 2:
                if r.random() < .3:
                    bh['num_of_trailer_stanza'] = r.choice([0, 1, 5, -1])
                if r.random() < .3:
                    bh['byte_off_of_first_tr'] = r.choice([3600, 6800, 99])
                bh['num_of_tr_in_file'] = r.choice([0, ntr, 2**33])
            if rev >= 1 and r.random() < .3:
                bh['ext_text_headers_num'] = r.choice([0, 1, 2, -1])
            if not any(v for k, v in bh.items() if k != 'format_code') \
                    and not endian:
                bh['job_id'] = 1
        self.bh = bh
        bid = '-'
        if bh or endian:
            L.append(bh_line('b', bh, endian))
            bid = 'b'
        nt = ntext if ntext is not None else (
            r.choice([0, 1]) if rev == 0 else r.choice([0, 1, 1, 2, 3]))
        texts = [rand_text(r, end=i == nt - 1 and i > 0 and r.random() < .3)
                 for i in range(nt)]
        nl = (ntrl if ntrl is not None else r.choice([0, 0, 1, 2])) \
            if rev == 2 else 0
        trls = [rand_text(r, end=r.random() < .3) for _ in range(nl)]
        L.append(' '.join(['wopen', 'w', 'a', str(rev), str(nt)] +
                          [t.hex() for t in texts] + [bid, str(nl)] +
                          [t.hex() for t in trls] +
                          ['-' if maps == '-' else 'm']))
        self.ntr = ntr
        fields = {}
        for b in (maps if maps != '-' else default_fields())[:1 + nadd]:
            for o, n, t in b:
                fields.setdefault(n, []).append(t)
        for k in range(ntr):
            n = base if fixed else (nsmp if nsmp is not None else
                                    r.randrange(0, max_smp + 1))
            L.append(self.trace(fields, n, partial, values, mixed, default))
        L.append('wclose w')
        self.lines = L

    def trace(self, fields, n, partial, values, mixed, default):
        r = self.r
        toks = []
        for nm, ts in fields.items():
            if nm == 'SAMP_NUM':
                toks += [nm, tok_int(n)]
                continue
            if nm == 'SAMP_INT' and default:
                continue
            if nm == COUNT and r.random() < .8:
                v = r.choice([0, 1, 1, 2, 2, 3])
                toks += [nm, tok_dbl(float(v)) if ts[-1] in FLOATS else
                         tok_int(v)]
                continue
            if r.random() < partial:
                continue
            if len(ts) > 1 and len(set(ts)) > 1:
                # a value every one of the fields can hold, given the way the
                # last of them reports it
                v = r.randrange(0, 100)
                toks += [nm, tok_dbl(float(v)) if ts[-1] in
                         ('ibm', 'ieee_single', 'ieee_double') else tok_int(v)]
                continue
            t = ts[-1]
            if r.random() < mixed:
                # the other alternative of the value type
                if t in ('ibm', 'ieee_single', 'ieee_double'):
                    toks += [nm, tok_int(r.randrange(-5000, 5000))]
                else:
                    lim = 2**(8 * TYPES[t] - 1) - 1
                    v = r.randrange(0, min(lim, 2**31))
                    toks += [nm, tok_dbl(v + r.choice([0, .5, .25]))]
                continue
            toks += [nm, field_value(t, r)]
        if default:
            v = r.choice([1, 2, 500, 1000, 4000, 32767])
            toks += ['SAMP_INT', tok_int(v)]
        if 'SAMP_NUM' not in fields:
            toks += ['SAMP_NUM', tok_int(n)]
        if r.random() < .2:
            toks += ['UNMAPPED', tok_int(5)]
        vs = values(r, self, n) if values else \
            [value_for(self.fmt, r) for _ in range(n)]
        return ' '.join(['wtrc', 'w', str(len(toks) // 2)] + toks +
                        [str(len(vs))] + [v if isinstance(v, str) else smp(v)
                                          for v in vs])

    def reread(self, r=None, h='r'):
        return ['ropen %s a %s -' % (h, '-' if self.maps == '-' else 'm')] + \
            read_all(h, self.ntr, r)
