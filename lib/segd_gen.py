"""Building blocks of SEG-D files and writer calls.  Inputs only; every
expectation is in the TLA+ specification."""
import struct

from segy_gen import (TYPES, dbits, double_value, edge_int, field_value,
                      ibm_value, single_value, tok_dbl, tok_int)

FORMATS = [8015, 8022, 8024, 8036, 8038, 8042, 8044, 8048, 8058, 8080,
           9036, 9038, 9058, 9080]
PACK = {8015: (1, 4, 15), 8022: (2, 3, 4), 8024: (2, 3, 12), 8042: (4, 2, 5),
        8044: (4, 2, 13)}
WIDTH = {8022: 1, 8042: 1, 8024: 2, 8044: 2, 8036: 3, 9036: 3, 8080: 8,
         9080: 8, 8038: 4, 8048: 4, 8058: 4, 9038: 4, 9058: 4}
SERCEL = ['Sercel428xl', 'Sercel428', 'Sercel408']
R3TYPES = [0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1f,
           0x20, 0x21, 0x41, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x55, 0x56,
           0x60, 0x61]


def samp_bytes(fmt, n):
    return (n + 3) // 4 * 10 if fmt == 8015 else WIDTH[fmt] * n


def timed(dt, sub, base16):
    return 16 * dt * sub // base16


class Blk(bytearray):
    def bcd(self, pos, n, v):
        """n digits at half byte pos; None: all bits set"""
        for i in range(n):
            d = 15 if v is None else v // 10**(n - 1 - i) % 10
            j = pos + i
            if j % 2:
                self[j // 2] = (self[j // 2] & 0xf0) | d
            else:
                self[j // 2] = (self[j // 2] & 0x0f) | (d << 4)

    def u(self, off, n, v):
        self[off:off + n] = int(v).to_bytes(n, 'big')


def noise(r, n):
    k = r.randrange(4)
    if k == 0:
        return bytes(n)
    if k == 1:
        return bytes(r.choice([0, 0xff, 0x80, 0x7f, 1]) for _ in range(n))
    return bytes(r.randrange(256) for _ in range(n))


# ------------------------------------------------------------------- maps
def rand_map(r, samp_num=None, names=None):
    """one extension block: list of (offset, name, type)"""
    ents, used = [], []

    def put(o, n, t):
        sz = TYPES[t]
        if o + sz > 32 or any(not (o + sz <= a or o >= b) for a, b in used):
            return False
        ents.append((o, n, t))
        used.append((o, o + sz))
        return True

    if samp_num:
        t = r.choice(['uint16', 'int16', 'uint24', 'int24', 'uint32', 'int32',
                      'int64', 'uint64', 'uint8', 'int8'])
        put(r.choice([0, 7, 32 - TYPES[t], r.randrange(0, 33 - TYPES[t])]),
            'SAMP_NUM', t)
    pool = list(names or ['F%d' % i for i in range(30)])
    r.shuffle(pool)
    for _ in range(r.randrange(0, 9)):
        t = r.choice(list(TYPES))
        sz = TYPES[t]
        if put(r.choice([0, 32 - sz, r.randrange(0, 33 - sz),
                         used[-1][1] if used else 3]), pool[-1], t):
            pool.pop()
    return sorted(ents)


def map_line(mid, blocks):
    p = ['map', mid, str(len(blocks))]
    for b in blocks:
        p.append(str(len(b)))
        for o, n, t in b:
            p += [str(o), n, t]
    return ' '.join(p)


def bad_map(r):
    k = r.randrange(4)
    t = r.choice([x for x in TYPES if TYPES[x] > 1])
    sz = TYPES[t]
    if k == 0:                     # over the end of the block
        m = [(32 - sz + r.randrange(1, sz + 1), 'X', t)]
    elif k == 1:                   # far behind it
        m = [(r.choice([32, 33, 64, 250]), 'X', 'uint8')]
    elif k == 2:                   # second field starts inside the first
        o = r.randrange(0, 33 - sz)
        m = [(o, 'X', t), (o + r.randrange(1, sz), 'Y', 'uint8')]
    else:                          # neighbour reaches one byte too far
        o = r.randrange(0, 32 - sz)
        m = [(o, 'X', t), (o + sz - 1, 'Y', 'uint8')]
    good = [rand_map(r) for _ in range(r.randrange(0, 2))]
    ms = good + [m]
    r.shuffle(ms)
    return ms


# --------------------------------------------------------------- raw records
def descale_raw(r, kind='int'):
    """sign and magnitude in units of 1/1024"""
    if kind == 'none':
        return 0
    if kind == 'int':
        k = r.choice([0, 0, 1, 2, 3, 7, 15, 31]) * 1024
    elif kind == 'eighth':
        k = r.randrange(0, 80) * 128
    else:
        k = r.randrange(0, 0x8000)
    return k | (0x8000 if k and r.random() < .5 else 0)


class Set:
    """a channel set of a crafted record"""
    def __init__(self, r, n, samples=None, dk='int'):
        self.n = n
        self.st = r.choice([0, 0, 0, 2, 4, 100, 65534, 130000])
        self.sub = r.choice([0, 0, 0, 1, 2])
        self.dt = r.choice([0, 2, 4, 6, 8, 12, 20])
        self.st = min(self.st, 131070 - self.dt)
        self.descale = descale_raw(r, dk)
        self.ns = r.randrange(0, 9) if samples is None else samples


def ch_set2(r, s, si, j, free=True):
    b = Blk(noise(r, 32))
    for p, n in ((0, 2), (2, 2), (16, 4), (20, 1), (23, 1), (24, 4), (28, 4),
                 (32, 4), (36, 4), (40, 4), (44, 4), (48, 4), (57, 1),
                 (56, 1)):
        if free and r.random() < .2:
            b.bcd(p, n, None if n > 1 and r.random() < .5 else 0)
        else:
            b.bcd(p, n, r.randrange(10**n))
    b.bcd(0, 2, si)
    b.bcd(2, 2, j if j < 100 else None)
    b.u(2, 2, s.st // 2)
    b.u(4, 2, (s.st + s.dt) // 2)
    b.u(6, 2, s.descale)
    b.bcd(16, 4, s.n)
    b.bcd(22, 1, s.sub)
    return bytes(b)


def ch_set3(r, s, si, j, dk='int'):
    b = Blk(noise(r, 96))
    b.bcd(0, 2, si)
    b.u(1, 2, j)
    b.bcd(56, 1, r.randrange(10))
    b.bcd(57, 1, r.randrange(10))
    b.u(12, 4, s.ns)
    d = {'none': 0.0, 'int': float(r.choice([0, 1, -1, 2, -3, 12, -20])),
         'eighth': r.randrange(-80, 80) / 8.0,
         'any': r.randrange(-4096, 4096) / 1024.0}[dk]
    b[16:20] = struct.pack('>f', d)
    b.u(20, 3, s.n)
    return bytes(b)


class Rec:
    """A crafted record.  tr(i, scan, set) may add a trace of its own."""
    def __init__(self, r, fmt=None, major=None, scans=None, maps=None,
                 dk='int', small=False, nch=None, ext=None, simple=False):
        self.r = r
        self.fmt = fmt or r.choice(FORMATS)
        self.major = r.choice([None, 0, 1, 2, 2, 2, 3, 3]) \
            if major is None else major
        if major == 'none':
            self.major = None
        self.maps = maps or []
        self.dk, self.small, self.ext_force = dk, small, ext
        self.base16 = r.choice([4, 8, 16, 16, 32, 32, 64, 12, 40, 255])
        self.skew = 0 if simple else r.choice([0, 0, 0, 1, 2])
        ns = 1 if simple else r.choice([1, 1, 1, 2, 3])
        nset = 1 if simple else r.choice([1, 1, 2, 3])
        self.scans = scans or [[Set(r, r.choice(
            [1, 1, 2, 3, 0]) if nch is None else nch, dk=dk)
            for _ in range(nset)] for _ in range(ns)]
        self.hext = [] if simple else [noise(r, 32) for _ in range(r.choice(
            [0, 0, 0, 1, 2, 3]))]
        self.hextl = [] if simple else [noise(r, 32) for _ in range(r.choice(
            [0, 0, 0, 1, 2, 3]))]
        self.trailer = 0 if simple or self.major is None else \
            r.choice([0, 0, 0, 1, 2, 5])
        self.trailer_bytes = None
        self.blocks = []
        if self.major is not None and self.major < 3:
            # numbers are unique most of the time
            nums = r.sample(range(256), r.choice([0, 0, 1, 2, 3]))
            if nums and r.random() < .15:
                nums.append(nums[0])
            for n in nums:
                b = Blk(noise(r, 32))
                b[18] = n
                self.blocks.append(bytes(b))
        elif self.major is not None:
            ts = r.sample(R3TYPES, r.choice([0, 1, 2, 4, 8]))
            if ts and r.random() < .15:
                ts.append(ts[0])
            if r.random() < .15:
                ts.append(r.choice([0, 1, 0x22, 0x40, 0x62, 0xff]))
            for t in ts:
                self.blocks.append(self.block3(t))
        # counts moved to general header 2, number of blocks moved too
        self.moved = set() if self.major is None else {
            x for x in ('nset', 'ext', 'extl') if r.random() < .2}
        if self.major == 3 and r.random() < .3:
            self.moved.add('skew')
        if self.major == 3 and r.random() < .3:
            self.moved.add('add')
        if self.major == 3 and len(self.blocks) + 2 > 14:
            self.moved.add('add')
        self.traces = None
        self.nadd = None        # a false number of general header blocks
        self.smp_num = lambda: r.randrange(0, 10)

    def block3(self, t):
        r = self.r
        b = Blk(noise(r, 32))
        if t in (0x15, 0x16, 0x17, 0x18, 0x19, 0x1f):
            b[3] &= 0x7f
            b[8] &= 0x7f
        if t == 0x21:
            for p in (2, 14, 26, 38, 50):
                b.bcd(p, 2, r.randrange(100))
        b[31] = t
        return bytes(b)

    def head(self):
        r = self.r
        b = Blk(noise(r, 32))
        for p, n in ((0, 4), (8, 12), (20, 2), (23, 3), (26, 2), (28, 2),
                     (30, 2), (32, 2), (34, 4), (38, 6), (46, 1), (50, 1),
                     (51, 3)):
            b.bcd(p, n, r.choice([None, 0, 10**n - 1]) if r.random() < .3
                  else r.randrange(10**n))
        b.bcd(4, 4, self.fmt)
        nset = len(self.scans[0]) if self.scans else 0
        nadd = 0 if self.major is None else \
            (1 if self.major < 3 else 2) + len(self.blocks)
        nadd = self.nadd if self.nadd is not None else nadd
        add = 15 if 'add' in self.moved else nadd
        b[11] = (b[11] & 0x0f) | (add << 4)
        b[22] = self.base16
        b.bcd(54, 2, len(self.scans))
        b.bcd(56, 2, None if 'nset' in self.moved else nset)
        b.bcd(58, 2, None if 'skew' in self.moved else self.skew)
        b.bcd(60, 2, None if 'ext' in self.moved else len(self.hext))
        b.bcd(62, 2, None if 'extl' in self.moved else len(self.hextl))
        out = bytes(b)
        if self.major is None:
            return out
        g = Blk(noise(r, 32))
        g[10], g[11] = self.major, r.choice([0, 1])
        if 'nset' in self.moved:
            g.u(3, 2, nset)
        if self.major < 3:
            if 'ext' in self.moved:
                g.u(5, 2, len(self.hext))
            if 'extl' in self.moved:
                g.u(7, 2, len(self.hextl))
            g.u(12, 2, self.trailer)
            out += bytes(g)
        else:
            if 'ext' in self.moved:
                g.u(5, 3, len(self.hext))
            if 'skew' in self.moved:
                g.u(8, 2, self.skew)
            g.u(12, 4, self.trailer)
            if 'add' in self.moved:
                g.u(22, 2, nadd)
            if 'extl' in self.moved:
                g.u(27, 3, len(self.hextl))
            out += bytes(g) + noise(r, 32)
        for x in self.blocks:
            out += x
        return out

    def sets(self):
        out = b''
        for i, sc in enumerate(self.scans):
            for j, s in enumerate(sc):
                out += ch_set3(self.r, s, i + 1, j + 1, self.dk) \
                    if self.major == 3 else ch_set2(self.r, s, i + 1, j + 1)
            out += noise(self.r, 32 * self.skew)
        return out + b''.join(self.hext + self.hextl)

    def trace(self, si, j, s, chan):
        r = self.r
        t = Blk(noise(r, 20))
        t.bcd(0, 4, r.choice([None, r.randrange(10000)]))
        t.bcd(4, 2, si)
        ext = j > 99 or r.random() < .3  # then the short number is void
        t.bcd(6, 2, r.choice([None, None, 0, 1, j % 100, r.randrange(100)])
              if ext else j)
        t.bcd(8, 4, None if r.random() < .1 else chan % 10000)
        t.u(15, 2, j if ext else 0)
        t.u(17, 3, r.choice([0, 0, 1, 9999, 10000, r.randrange(2**24)]))
        ne = r.choice([0, 0, 1, 1, 2, 3]) if self.ext_force is None \
            else self.ext_force
        if self.major == 3 and self.base16 == 0:
            ne = max(ne, 1)
        t[9] = ne
        n = None
        ex = [Blk(noise(r, 32)) for _ in range(ne)]
        if self.maps:
            for i, m in enumerate(self.maps[:ne]):
                for o, name, ty in m:
                    if name == 'SAMP_NUM':
                        n = self.smp_num() if n is None else n
                        ex[i].u(o, TYPES[ty], n)
        elif ne:
            n = self.smp_num()
            if self.major == 3:
                ex[0].u(24, 4, n)
            else:
                ex[0].u(7, 3, n)
            if r.random() < .5:
                ex[0].u(10, 5, r.choice([0, 1, 65536, r.randrange(2**40)]))
                ex[0].u(15, 5, r.choice([0, 1, 65536, r.randrange(2**40)]))
        if n is None:
            n = s.ns if self.major == 3 else timed(s.dt, 1 << s.sub,
                                                   self.base16)
        if self.small:
            body = b''.join(int(r.randrange(-999, 1000)).to_bytes(
                WIDTH[self.fmt], 'big', signed=True) for _ in range(n)) \
                if self.fmt in (8036, 8038) else \
                noise(r, samp_bytes(self.fmt, n))
        else:
            body = noise(r, samp_bytes(self.fmt, n))
        return bytes(t) + b''.join(map(bytes, ex)) + body

    def bytes(self):
        r = self.r
        if self.traces is None:
            todo = [(i + 1, j + 1, s) for i, sc in enumerate(self.scans)
                    for j, s in enumerate(sc) for _ in range(s.n)]
            if r.random() < .3:
                r.shuffle(todo)
            self.traces = [self.trace(i, j, s, c + 1)
                           for c, (i, j, s) in enumerate(todo)]
        tb = noise(r, 32 * self.trailer) if self.trailer_bytes is None \
            else self.trailer_bytes
        return self.head() + self.sets() + b''.join(self.traces) + tb

    def count(self):
        return sum(s.n for sc in self.scans for s in sc)


def file_line(f, data):
    return 'file %s %s' % (f, data.hex() if data else '-')


# ------------------------------------------------------------------- writer
def kv(d):
    return ' '.join('%s=%s' % (k, ('%016x' % dbits(v)) if isinstance(v, float)
                               else v) for k, v in d.items())


def sample_value(r, fmt, exact=True):
    """a value format fmt can hold exactly (before descaling)"""
    if fmt in PACK:
        b, eb, fb = PACK[fmt]
        e = r.randrange(1 << eb)
        f = r.choice([0, 1, (1 << fb) - 1, 1 << (fb - 1),
                      r.randrange(1 << fb)])
        # only values with as many significant bits as possible
        if e and f < (1 << (fb - b)):
            f |= 1 << (fb - r.randrange(1, b + 1))
        return r.choice([1, -1]) * f * 2.0**(e * b - fb)
    if fmt in (8036, 9036):
        return float(edge_int(r, 24))
    if fmt in (8038, 9038):
        return float(edge_int(r, 32))
    if fmt == 8048:
        return ibm_value(r)
    if fmt in (8058, 9058):
        v = single_value(r)
        return v if abs(v) > 1e-30 and abs(v) < 1e30 or v == 0 else 1.5
    v = double_value(r)
    return v if 1e-200 < abs(v) < 1e200 or v == 0 else 2.5


def tok_num(r, v):
    """an integral header value, as an integer or as a double"""
    return tok_dbl(float(v)) if r.random() < .15 else tok_int(v)


class Wr:
    """A writer call sequence"""
    def __init__(self, r, fmt=None, maps=None, builtin=None, rev=None,
                 dk='int', nch=None, base16=None, times=None):
        self.r = r
        self.fmt = fmt or r.choice(FORMATS)
        self.maps, self.builtin = maps or [], builtin
        self.base16 = base16 or r.choice([8, 16, 16, 32, 64, 12, 40, 255])
        self.rev = r.choice([0, 1, 2, 2, 2]) if rev is None else rev
        ns, nset = r.choice([1, 1, 1, 2]), r.choice([1, 1, 2, 3])
        self.sets = []
        for i in range(ns):
            row = []
            for j in range(nset):
                st = r.choice([0, 0, 0, 2, 100, 3, 131000])
                dt = r.choice([0, 2, 4, 6, 8, 12, 20, 5]) \
                    if times is None else times
                sub = r.choice([1, 1, 1, 2, 4])
                raw = descale_raw(r, dk)
                d = (raw & 0x7fff) / 1024.0 * (-1 if raw & 0x8000 else 1)
                row.append(dict(
                    scan_type_number=i + 1, channel_set_number=j + 1,
                    channel_type=r.randrange(10),
                    channel_set_start_time=st, channel_set_end_time=st + dt,
                    descale_multiplier=d,
                    number_of_channels=r.choice([1, 1, 2, 3, 0])
                    if nch is None else nch,
                    subscans_per_ch_set=sub, channel_gain=r.randrange(10),
                    alias_filter_freq=r.randrange(10000),
                    alias_filter_slope=r.randrange(10000),
                    low_cut_filter_freq=r.randrange(10000),
                    low_cut_filter_slope=r.randrange(10000),
                    first_notch_filter=r.randrange(10000),
                    second_notch_filter=r.randrange(10000),
                    third_notch_filter=r.randrange(10000),
                    ext_ch_set_num=r.choice([0, 0, r.randrange(65536)]),
                    ext_hdr_flag=r.randrange(16), trc_hdr_ext=r.randrange(16),
                    vert_stack=r.randrange(256), streamer_no=r.randrange(256),
                    array_forming=r.randrange(256)))
            self.sets.append(row)
        self.ext = [noise(r, 32) for _ in range(r.choice([0, 0, 1, 2]))]
        self.extl = [noise(r, 32) for _ in range(r.choice([0, 0, 1, 2]))]
        nums = r.sample(range(256), r.choice([0, 0, 0, 1, 2, 3, 14]))
        self.ghn = [dict(
            expanded_file_number=r.choice([0, 1, r.randrange(2**24)]),
            sou_line_num=r.randrange(-2**23 * 65536, 2**23 * 65536) / 65536.0
            if r.random() < .7 else float(r.randrange(-100, 100)) / 4,
            sou_point_num=r.randrange(-2**23 * 65536, 2**23 * 65536) / 65536.0,
            sou_point_index=r.randrange(256), phase_control=r.randrange(256),
            type_vibrator=r.randrange(256),
            phase_angle=r.choice([-32768, 32767, r.randrange(-400, 400)]),
            gen_hdr_block_num=n, sou_set_num=r.randrange(256)) for n in nums]
        if self.ghn and r.random() < .15:
            self.ghn.append(dict(self.ghn[0], phase_angle=7))
        extrec = r.choice([0, 0, 1, r.randrange(2**24)])
        mv = lambda n: r.random() < .15 or n > 99
        self.gh = dict(
            file_number=r.choice([0, 1, 9999, 10000, 123456,
                                  r.randrange(10000)]),
            format_code=self.fmt,
            gen_const=r.choice([0, 10**12 - 1, r.randrange(10**12)]),
            year=r.randrange(100),
            add_gen_hdr_blocks=1 + len(set(nums)), day=r.randrange(1000),
            hour=r.randrange(100), minute=r.randrange(100),
            second=r.randrange(100), manufac_code=r.randrange(100),
            manufac_num=r.randrange(10000),
            bytes_per_scan=r.choice([0, 999999, r.randrange(10**6)]),
            base_scan_int=self.base16 / 16.0, polarity=r.randrange(10),
            scans_per_block=r.choice([0, 1, 255, 256, 511, 1000, 65535,
                                      r.randrange(255 << 12)]),
            record_type=r.randrange(10), record_length=r.randrange(1000),
            scan_types_per_record=ns,
            channel_sets_per_scan_type=165 if mv(nset) else nset,
            skew_blocks=r.choice([0, 0, 0, 1, 3]),
            extended_hdr_blocks=165 if mv(0) else len(self.ext),
            external_hdr_blocks=r.choice([100, 165]) if mv(0)
            else len(self.extl))
        self.gh2 = dict(
            expanded_file_num=r.choice([0, 1, r.randrange(2**24)]),
            ext_ch_sets_per_scan_type=nset, extended_hdr_blocks=len(self.ext),
            external_hdr_blocks=len(self.extl), segd_rev_major=self.rev,
            segd_rev_minor=r.choice([0, 1, 7]), gen_trailer_num_of_blocks=0,
            ext_record_len=extrec, gen_hdr_block_num=r.choice([2, 0, 255]),
            sequence_number=r.randrange(65536))
        # what the first block counts itself, the second need not repeat
        for k, k2 in (('channel_sets_per_scan_type',
                       'ext_ch_sets_per_scan_type'),
                      ('extended_hdr_blocks', 'extended_hdr_blocks'),
                      ('external_hdr_blocks', 'external_hdr_blocks')):
            if self.gh[k] <= 99 and r.random() < .4:
                self.gh2[k2] = r.choice([0, 1, self.gh[k] + 1, 65535,
                                         r.randrange(65536)])

    def many(self, what, c):
        """c headers or channel sets"""
        r = self.r
        if what == 'sets':
            k, k2 = 'channel_sets_per_scan_type', 'ext_ch_sets_per_scan_type'
            self.sets = [[dict(row[0], channel_set_number=j + 1,
                               number_of_channels=int(j in (
                                   0, 98, 99, 127, 254, 255, 256, c - 1)),
                               ext_ch_set_num=r.choice([0, j + 1]),
                               channel_set_start_time=0,
                               channel_set_end_time=2 * r.randrange(12),
                               alias_filter_freq=r.randrange(10000))
                          for j in range(c)] for row in self.sets[:1]]
            self.gh['scan_types_per_record'] = 1
        else:
            k = k2 = 'extended_hdr_blocks' if what == 'ext' else \
                'external_hdr_blocks'
            setattr(self, what, [noise(r, 32) for _ in range(c)])
        self.gh[k] = c if c < 100 and r.random() < .7 else \
            r.choice([100, 165, 165, c + 100])
        self.gh2[k2] = c if self.gh[k] > 99 else r.choice([
            0, 1, c, c + 1, r.randrange(65536)])

    def open(self, h='w', f='o'):
        out = ['wnew', 'wgh ' + kv(self.gh), 'wgh2 ' + kv(self.gh2)]
        out += ['wghn ' + kv(g) for g in self.ghn]
        for row in self.sets:
            out.append('wscan')
            out += ['wch ' + kv(c) for c in row]
        out += ['wext ' + (b.hex() or '-') for b in self.ext]
        out += ['wextl ' + (b.hex() or '-') for b in self.extl]
        m = '-'
        if self.builtin:
            m = self.builtin
        elif self.maps:
            out.insert(0, map_line('m', self.maps))
            m = 'm'
        self.m = m
        out.append('wopen %s %s %s' % (h, f, m))
        return out

    def channels(self):
        return [(i + 1, j + 1, c) for i, row in enumerate(self.sets)
                for j, c in enumerate(row)
                for _ in range(c['number_of_channels'])]

    def eff_maps(self):
        return BUILTIN[self.builtin] if self.builtin else self.maps

    def natural(self, c):
        """number of samples the times of channel set c give"""
        return timed(c['channel_set_end_time'] // 2 * 2 -
                     c['channel_set_start_time'] // 2 * 2,
                     c['subscans_per_ch_set'], self.base16)

    def trace(self, si, j, c, chan, h='w', partial=0., ne=None, dn=0,
              values=None, drop=None, over=None, rt=False):
        """one wtrc line.  dn: samples too many; over: header overrides"""
        r = self.r
        maps = self.eff_maps()
        if ne is None:
            ne = r.choice([0, 0, 1, 1, 2, len(maps), 3])
        hd = {}
        hd['FFID'] = tok_num(r, r.choice([0, 1, 9999, 10000,
                                          r.randrange(2**24)]))
        if not (si == 1 and r.random() < .2):
            hd['SCAN_TYPE_NUM'] = tok_num(r, si)
        if not (j == 1 and r.random() < .2):
            hd['CH_SET_NUM'] = tok_num(r, j)
        hd['CHAN'] = tok_num(r, chan if rt or r.random() < .8 else
                             r.choice([0, 9999, 10000, 70000]))
        hd['FIRST_TIMING_WORD'] = tok_dbl(r.randrange(2**24) / 256.0)
        hd['TR_HDR_EXT'] = tok_num(r, ne)
        hd['SAMPLE_SKEW'] = tok_dbl(r.randrange(256) / 256.0)
        hd['TRACE_EDIT'] = tok_num(r, r.randrange(256))
        hd['TIME_BREAK_WIN'] = tok_dbl(r.randrange(2**24) / 256.0)
        if r.random() < .2:
            hd['TIME_BREAK_WIN'] = tok_int(r.randrange(2**16))
        insamp = False
        if maps:
            for m in maps[:ne]:
                for o, n, t in m:
                    if n == 'SAMP_NUM':
                        insamp = True
                    elif n == 'TRACE_NUMBER' and not rt:
                        hd[n] = tok_int(r.randrange(2**20))
                    else:
                        hd[n] = field_value(t, r)
        elif ne:
            insamp = True
            for n, full in (('R_LINE', 2**24), ('R_POINT', 2**24)):
                if self.rev > 1 and r.random() < .5:
                    hd[n] = tok_dbl(r.randrange(full * 65536) / 65536.0)
                else:
                    hd[n] = tok_num(r, r.choice([0, 1, r.randrange(full)]))
            hd['R_POINT_IDX'] = tok_num(r, r.randrange(256))
            if self.rev > 1 or not rt:
                hd['SENSOR_TYPE'] = tok_num(r, r.randrange(256))
        if r.random() < .3:
            hd['UNRELATED'] = tok_int(5)
        if values is not None:
            smp = values
        else:
            n = r.randrange(0, 12) if insamp else self.natural(c)
            d = c['descale_multiplier']
            smp = []
            for _ in range(n):
                v = sample_value(r, self.fmt)
                if d == int(d):
                    v = v * 2.0**int(d)
                smp.append(v)
        if insamp:
            hd['SAMP_NUM'] = tok_num(r, len(smp))
        elif r.random() < .2:
            hd['SAMP_NUM'] = tok_int(r.randrange(9))
        if partial:
            used = {n for m in maps[:ne] for _, n, _ in m}
            for n in list(hd):
                if n not in used and n not in ('SAMP_NUM', 'TR_HDR_EXT',
                                               'SCAN_TYPE_NUM', 'CH_SET_NUM') \
                        and r.random() < partial:
                    del hd[n]
        for n in drop or ():
            hd.pop(n, None)
        hd.update(over or {})
        for _ in range(dn):
            smp.append(0.0)
        if dn < 0:
            smp = smp[:dn]
        items = list(hd.items())
        r.shuffle(items)
        return 'wtrc %s %d %s %d %s' % (
            h, len(items), ' '.join('%s %s' % kv_ for kv_ in items), len(smp),
            ' '.join('%016x' % dbits(x) for x in smp))

    def all(self, h='w', **kw):
        ch = self.channels()
        if self.r.random() < .3:
            self.r.shuffle(ch)
        return [self.trace(i, j, c, k + 1, h, **kw)
                for k, (i, j, c) in enumerate(ch)]


def _builtin():
    """the maps of spec/SegdMaps.tla"""
    import os
    import re
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
        __file__))), 'spec', 'SegdMaps.tla')
    res = {}
    for name, body in re.findall(r'^(\w+) == <<\n(.*?)>>\s*$(?=\n(?:\w|=))',
                                 open(p).read(), re.S | re.M):
        blocks = []
        for line in body.splitlines():
            if line.strip() == '<<':
                blocks.append([])
            m = re.search(r'<<(\d+), "(\w+)", "(\w+)">>', line)
            if m:
                blocks[-1].append((int(m[1]), m[2], m[3]))
        res[name] = blocks
    return res


BUILTIN = _builtin()
