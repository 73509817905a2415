"""Families of SEG-D scenarios."""
import struct

import segd_gen as G
from segd_gen import (Blk, FORMATS, Rec, SERCEL, Set, WIDTH, Wr, file_line,
                      map_line, noise, rand_map, samp_bytes)
from segy_gen import tok_dbl, tok_int


def pick_maps(r, p_none=.5, p_builtin=.2, names=None):
    """-> (maps, name for ropen, lines before)"""
    k = r.random()
    if k < p_none:
        return [], '-', []
    if k < p_none + p_builtin:
        b = r.choice(SERCEL)
        return G.BUILTIN[b], b, []
    m = [rand_map(r, samp_num=r.random() < (.7 if i == 0 else .2),
                  names=names) for i in range(r.randrange(1, 4))]
    return m, 'm', [map_line('m', m)]


def uniq(maps):
    """drops later fields of a name, so that each header has one place"""
    seen, out = set(), []
    for m in maps:
        out.append([e for e in m if not (e[1] in seen or seen.add(e[1]))])
    return out


def look(r, h, n):
    """a history of calls on reader h with n traces"""
    out = []
    while n >= 0:
        k = r.randrange(8)
        if k < 5:
            out.append('rtrc ' + h)
            n -= 1
        elif k < 7:
            out.append('has ' + h)
        else:
            out.append('st ' + h)
    return out


def reads(r, n, majors=None, dk='int', snap=True):
    """files of one to three records, read in different ways"""
    res = []
    for i in range(n):
        maps, mn, pre = pick_maps(r)
        recs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            recs.append(Rec(r, maps=maps, dk=dk, fmt=FORMATS[i % 14]
                            if not recs else None,
                            major=r.choice(majors) if majors else None))
        data = b''.join(x.bytes() for x in recs)
        total = sum(x.count() for x in recs)
        sc = pre + [file_line('a', data)]
        k = r.randrange(4)
        if k == 0:
            sc += ['ropen r a ' + mn, 'st r', 'drain r %d' % (total + 1),
                   'has r']
        elif k == 1:
            sc += ['ropen r a ' + mn, 'st r']
            for _ in range(total):
                sc += ['rtrc r', 'st r', 'has r'] if snap else ['rtrc r']
            sc += ['has r', 'rtrc r']
        elif k == 2:                      # two readers of one file
            sc += ['ropen r a ' + mn, 'ropen q a -']
            a, b = look(r, 'r', total), look(r, 'q', total)
            while a or b:
                s = r.choice([x for x in (a, b) if x])
                sc.append(s.pop(0))
        else:                             # stop early, start again
            sc += ['ropen r a ' + mn] + look(r, 'r', r.randrange(
                0, total + 1)) + ['rclose r', 'ropen r a ' + mn,
                                  'st r', 'drain r %d' % (total + 1)]
        res.append(sc)
    return res


def cursor(r, n):
    """many small records: positions, trailers, records of other shapes"""
    res = []
    for _ in range(n):
        recs = []
        fmt = r.choice([8022, 8036, 8058, 8015])
        for _ in range(r.randrange(2, 6)):
            x = Rec(r, fmt=r.choice([fmt, fmt, r.choice(FORMATS)]),
                    major=r.choice([2, 2, 3, 0, 'none']))
            if r.random() < .25:          # a record without traces
                if r.random() < .3:
                    x.scans = []
                for y in [y for sc in x.scans for y in sc]:
                    y.n = 0
            elif x.count() == 0:
                x.scans[-1][-1].n = r.choice([1, 2])
            recs.append(x)
        data = b''.join(x.bytes() for x in recs)
        if r.random() < .3:               # trailer announced, file ends
            last = recs[-1]
            if last.trailer:
                data = data[:len(data) - r.choice([1, 31, 32,
                                                   32 * last.trailer])]
        total = sum(x.count() for x in recs)
        sc = [file_line('a', data), 'ropen r a -', 'st r', 'has r']
        if r.random() < .5:
            sc += ['drain r %d' % (total + 1), 'rtrc r', 'has r']
        else:
            ask = r.choice([.3, 1])
            for _ in range(total):
                sc += ['rtrc r'] + (['has r'] if r.random() < .7 else [])
                if r.random() < ask:
                    sc.append('st r')
            sc += ['has r', 'rtrc r']
        res.append(sc + ['st r'])
    return res


def big(r, n, majors=(2, 3, 3)):
    """counts that take more than one byte, records of other sizes after"""
    res = []
    for i in range(n):
        m = majors[i % len(majors)]
        x = Rec(r, fmt=8022, simple=True, nch=1, ext=1, major=m)
        what = r.choice(('ext', 'extl', 'nset', 'trl') + (
            ('add', 'skew') if m == 3 else ()))
        if m == 3 and i % 3 == 1:
            what = 'add'
        c = r.choice([100, 127, 128, 254, 255, 256, 257, 258, 300, 513])
        if i % 6 == 3:
            what, c = 'nset', r.choice([257, 258, 300, 513])
        if what == 'add':
            x.blocks = [x.block3(r.choice(G.R3TYPES)) for _ in range(c)]
        elif what == 'ext':
            x.hext = [noise(r, 32) for _ in range(c)]
        elif what == 'extl':
            x.hextl = [noise(r, 32) for _ in range(c)]
        elif what == 'skew':
            x.skew = c
        elif what == 'trl':
            x.trailer = c
        else:
            x.scans = [[Set(r, 1 if k in (0, 99, 255, 256, 257, c - 1) else 0)
                        for k in range(c)]]
            x.ext_force = r.choice([0, 0, None])
            for k in (256, 257, c - 1):
                if k < c:
                    x.scans[0][k].ns = r.randrange(10, 20)
                    x.scans[0][k].dt = r.choice([24, 30, 40])
                    x.scans[0][k].st = 0
        x.moved |= {what} - {'trl'}
        ys = [Rec(r, fmt=8022, simple=r.random() < .5, nch=1,
                  major=r.choice([2, 3, 'none']))
              for _ in range(r.choice([0, 1, 1, 2]))]
        if ys and r.random() < .5:
            ys.insert(0, ys.pop())
            xs = ys[:1] + [x] + ys[1:]
        else:
            xs = [x] + ys
        sc = [file_line('a', b''.join(y.bytes() for y in xs)), 'ropen r a -',
              'st r']
        for y in xs:
            sc += ['rtrc r'] * y.count() + ['has r', 'st r']
        res.append(sc)
    return res


def counts(r, n):
    """where the number of samples comes from"""
    res = []
    for i in range(n):
        x = Rec(r, fmt=r.choice(FORMATS), simple=True, nch=r.choice([1, 2]),
                major=r.choice([0, 1, 2, 2, 3, 'none']),
                ext=r.choice([0, 0, 1, 2]))
        x.base16 = r.choice([1, 2, 3, 5, 7, 8, 15, 16, 17, 24, 32, 48, 100,
                             255])
        for sc in x.scans:
            for s in sc:
                s.dt = 2 * r.randrange(0, 1 + x.base16 * 4)
                s.sub = r.choice([0, 0, 1, 2, 3, 4])
                while G.timed(s.dt, 1 << s.sub, x.base16) > 600:
                    s.dt //= 4
                    s.dt *= 2
                s.st = r.choice([0, 2, 131070 - s.dt])
        res.append([file_line('a', x.bytes()), 'ropen r a -', 'st r',
                    'drain r 9'])
    return res


# ----------------------------------------------------------------- samples
def sample_file(r, fmt, body, n, dk='none', raw=None, major=2):
    x = Rec(r, fmt=fmt, simple=True, major=major, nch=1, ext=1, dk=dk)
    if raw is not None:
        for s in x.scans[0]:
            s.descale = raw
    t = Blk(20)
    t.bcd(0, 4, 1)
    t.bcd(4, 2, 1)
    t.bcd(6, 2, 1)
    t.bcd(8, 4, 1)
    t[9] = 1
    e = Blk(32)
    e.u(24 if major == 3 else 7, 4 if major == 3 else 3, n)
    x.traces = [bytes(t) + bytes(e) + body]
    return [file_line('a', x.bytes()), 'ropen r a -', 'drain r 2']


def codes(r, fmt, n):
    """stored sample words of format fmt, the edges first"""
    w = WIDTH[fmt] * 8
    if w == 8:
        return list(range(256))
    v = [0, 1, 2**(w - 1), 2**(w - 1) - 1, 2**w - 1, 2**(w - 1) + 1]
    v += [1 << i for i in range(w)] + [2**w - 1 - (1 << i) for i in range(w)]
    if fmt in G.PACK:
        b, eb, fb = G.PACK[fmt]
        for s in (0, 1):
            for e in range(1 << eb):
                for f in (0, 1, (1 << fb) - 1, 1 << (fb - 1),
                          r.randrange(1 << fb)):
                    v.append(s << (eb + fb) | e << fb | f)
    elif fmt == 8048:
        for e in range(0, 128, 5):
            v += [e << 24 | f for f in (1, 0x100000, 0xffffff, 0x0fffff)]
            v.append(0x80000000 | e << 24 | r.randrange(2**24))
    elif fmt in (8058, 9058):
        for e in list(range(0, 255, 11)) + [1, 254]:
            v += [e << 23, 0x80000000 | e << 23 | r.randrange(2**23)]
        v += [0x7f800000, 0xff800000, 0x7fc00000]
    elif fmt in (8080, 9080):
        for e in (1, 2, 1000, 1022, 1023, 1024, 1075, 1076, 2046):
            v += [e << 52, 1 << 63 | e << 52 | r.randrange(2**52)]
        v += [0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48]
    v += [r.randrange(2**w) for _ in range(n)]
    return v


def pack_words(fmt, ws):
    return b''.join(x.to_bytes(WIDTH[fmt], 'little' if fmt > 9000 else 'big')
                    for x in ws)


def sample_reads(r, n, exhaustive=False):
    res = []
    for fmt in FORMATS:
        raws = [0, 0] + [r.choice([1, 2, 3, 7, 20]) << 10 for _ in range(2)] \
            + [0x8000 | (r.choice([1, 2, 3, 7, 20]) << 10) for _ in range(2)]
        for raw in raws:
            if fmt == 8015:
                body, cnt = b'', 0
                for e in range(16):
                    for _ in range(max(1, n // 4)):
                        g = Blk(10)
                        ee = [e] + [r.randrange(16) for _ in range(3)]
                        r.shuffle(ee)
                        g[0], g[1] = ee[0] << 4 | ee[1], ee[2] << 4 | ee[3]
                        for i in range(4):
                            g.u(2 + 2 * i, 2, r.choice(
                                [0, 1, 0x7fff, 0x8001, 0xffff, 0x4000, 0xc000,
                                 r.randrange(65536), r.randrange(65536)]))
                            if g[2 + 2 * i] == 0x80 and not g[3 + 2 * i]:
                                g[3 + 2 * i] = 1
                        body += bytes(g)
                        cnt += 4
                cut = r.randrange(4)
                res.append(sample_file(r, fmt, body, cnt - cut, raw=raw))
            else:
                ws = codes(r, fmt, n)
                res.append(sample_file(r, fmt, pack_words(fmt, ws), len(ws),
                                       raw=raw, major=r.choice([0, 1, 2])))
        # descaling by a fraction of a power of two
        for _ in range(max(1, n // 4)):
            raw = r.randrange(1, 80) * 128 | r.choice([0, 0x8000])
            if fmt in (8036, 8038, 9036, 9038):
                ws = [v % 2**(8 * WIDTH[fmt]) for v in
                      [1, -1, 999] + [r.randrange(-999, 1000)
                                      for _ in range(12)]]
                res.append(sample_file(r, fmt, pack_words(fmt, ws), len(ws),
                                       raw=raw))
            elif fmt != 8015:
                ws = [r.randrange(2**(8 * WIDTH[fmt])) for _ in range(12)]
                if fmt in (8080, 9080):
                    ws = [w & 0x800f << 48 | r.randrange(900, 1200) << 52 |
                          w & 2**52 - 1 for w in ws]
                res.append(sample_file(r, fmt, pack_words(fmt, ws), len(ws),
                                       raw=raw))
        if fmt != 8015:      # revision 3: the exponent is a single
            x = [r.choice(codes(r, fmt, 3)) for _ in range(40)]
            for dk in ('int', 'eighth'):
                res.append(sample_file(r, fmt, pack_words(fmt, x), 40,
                                       dk=dk, major=3))
    if exhaustive:
        for fmt in (8024, 8044):
            for lo in range(0, 65536, 2048):
                ws = list(range(lo, lo + 2048))
                res.append(sample_file(r, fmt, pack_words(fmt, ws), 2048))
        for e in range(0, 65536, 512):
            body = b''.join(struct.pack('>HHHHH', r.randrange(65536), *[
                m if m != 0x8000 else 1 for m in range(e + 4 * q, e + 4 * q +
                                                       4)])
                for q in range(128))
            res.append(sample_file(r, 8015, body, 512))
    return res


def sample_writes(r, n):
    """values on, between and beyond what a format holds"""
    res = []
    for fmt in FORMATS:
        for k in range(6):
            dk = ('none', 'none', 'int', 'int', 'int', 'eighth')[k]
            w = Wr(r, fmt=fmt, dk=dk, nch=1)
            w.sets = [[w.sets[0][0]]]
            w.gh['scan_types_per_record'] = 1
            w.gh['channel_sets_per_scan_type'] = 1
            d = w.sets[0][0]['descale_multiplier']
            vs = [G.sample_value(r, fmt) for _ in range(20 + 4 * n)]
            if fmt in G.PACK:
                b, eb, fb = G.PACK[fmt]
                top = 2.0**((2**eb - 1) * b)
                for e in range(2**eb):
                    lim = 2.0**(e * b)
                    for q in (lim, lim * (1 - 2.0**-fb), lim * (
                            1 + 2.0**-20), lim / 2, lim * (1 - 2.0**-fb / 2),
                            lim * r.random()):
                        vs.append(r.choice([1, -1]) * q)
                vs += [top * 2, -top * 3, 1e300, -1e300, 1e-9, -1e-9, 1e-300]
            elif fmt in (8036, 8038, 9036, 9038):
                m = 2**(8 * WIDTH[fmt] - 1)
                vs += [.5, -.5, 1.9, -1.9, m - 1.25, -m + 1.25, -float(m),
                       r.uniform(-m, m), r.uniform(-m, m)]
            elif fmt == 8048:
                vs += [r.uniform(-1e5, 1e5) for _ in range(6)] + \
                    [.1, -.3, 1 / 3, 1e-70, 16.0**62]
            elif fmt in (8058, 9058):
                vs += [r.uniform(-1e5, 1e5) for _ in range(6)] + \
                    [.1, -.3, 1e-44, 1 + 2.0**-24, 1 + 3 * 2.0**-24]
            r.shuffle(vs)
            if d == int(d):
                vs = [v * 2.0**int(d) if 1e-250 < abs(v) < 1e250 or not v
                      else 1.0 for v in vs]
            elif fmt in (8036, 8038, 9036, 9038):
                vs = [float(r.randrange(-9, 9)) for _ in vs]
            if r.random() < .7:
                vs = vs[:len(vs) - r.randrange(5)]
            sc = w.open()
            sc.append(w.trace(1, 1, w.sets[0][0], 1, ne=1, values=vs))
            sc += ['wclose w', 'ropen r o -', 'drain r 2']
            res.append(sc)
    return res


# ----------------------------------------------------------------- headers
def header_reads(r, n):
    """random bytes in trace headers and extensions"""
    res = []
    for i in range(n):
        names = None
        if r.random() < .3:
            names = ['F%d' % k for k in range(5)] + \
                ['FFID', 'CHAN', 'R_LINE', 'TR_HDR_EXT', 'TRACE_EDIT',
                 'SAMPLE_SKEW']
        maps, mn, pre = pick_maps(r, .45, .25, names)
        x = Rec(r, fmt=r.choice([8022, 8015, 8036, 8058]), maps=maps,
                simple=True, nch=r.choice([1, 2, 3]),
                major=r.choice([0, 1, 2, 2, 3, 'none']),
                ext=r.choice([0, 1, 1, 2, len(maps), len(maps) + 1,
                              max(0, len(maps) - 1)]))
        sc = pre + [file_line('a', x.bytes()), 'ropen r a ' + mn, 'drain r 4']
        if maps and r.random() < .3:
            sc += ['ropen q a -', 'drain q 4']
        res.append(sc)
    for _ in range(max(2, n // 40)):         # more than 99 channel sets
        x = Rec(r, fmt=8022, simple=True, nch=1, major=2, ext=1,
                scans=[[Set(r, 1 if k in (0, 1, 98, 99, 100, 119) else 0)
                        for k in range(120)]])
        x.moved = {'nset'}
        res.append([file_line('a', x.bytes()), 'ropen r a -', 'st r',
                    'drain r 9'])
    return res


def header_writes(r, n, rt=False):
    res = []
    for _ in range(n):
        k = r.random()
        if k < .4:
            w = Wr(r, fmt=r.choice([8022, 8058, 8036]))
        elif k < .65:
            w = Wr(r, fmt=r.choice([8022, 8058]), builtin=r.choice(SERCEL))
        else:
            maps = [rand_map(r, samp_num=q == 0 and r.random() < .7)
                    for q in range(r.randrange(1, 4))]
            w = Wr(r, fmt=r.choice([8022, 8058]), maps=uniq(maps))
        sc = w.open()
        sc += w.all(partial=0 if rt else r.choice([0, 0, .3]), rt=rt)
        sc += ['wclose w', 'ropen r o ' + w.m, 'drain r 99']
        res.append(sc)
    for _ in range(max(2, n // 40)):         # more than 99 channel sets
        w = Wr(r, fmt=8022, nch=0)
        c = w.sets[0][0]
        w.sets = [[dict(c, number_of_channels=1 if k in (0, 98, 99, 100, 104)
                        else 0, channel_set_number=min(k + 1, 99))
                   for k in range(105)]]
        w.gh.update(scan_types_per_record=1, channel_sets_per_scan_type=r.choice(
            [165, 100, 105]))
        w.gh2['ext_ch_sets_per_scan_type'] = 105
        res.append(w.open() + w.all(rt=rt) + ['wclose w', 'ropen r o ' + w.m,
                                              'drain r 9'])
    return res


def roundtrips(r, n):
    """everything given is representable, so everything comes back"""
    res = []
    for i in range(n):
        k = r.random()
        fmt = FORMATS[i % 14]
        if k < .5:
            w = Wr(r, fmt=fmt)
        elif k < .7:
            w = Wr(r, fmt=fmt, builtin=r.choice(SERCEL))
        else:
            w = Wr(r, fmt=fmt, maps=uniq([
                rand_map(r, samp_num=q == 0 and r.random() < .7)
                for q in range(r.randrange(1, 4))]))
        sc = w.open()
        ts = w.all(rt=True)
        if r.random() < .2 and ts:         # the record may stay incomplete
            ts = ts[:r.randrange(len(ts))]
            sc += ts + ['wclose w', 'ropen r o ' + w.m]
            sc += ['rtrc r'] * len(ts)
        else:
            sc += ts + ['wclose w', 'ropen r o ' + w.m, 'st r',
                        'drain r %d' % (len(ts) + 1), 'has r']
        res.append(sc)
    return res


def block_writes(r, n):
    res = []
    for _ in range(n):
        w = Wr(r, fmt=r.choice(FORMATS))
        for what in ('ext', 'extl', 'sets'):
            if r.random() < .08:
                w.many(what, r.choice([99, 99, 100, 101, 130, 255, 256, 257,
                                       300]))
        w.gh['skew_blocks'] = r.choice([0, 0, 1, 2, 99])
        res.append(w.open() + w.all() + ['wclose w', 'ropen r o -', 'st r'])
    return res


def concurrent(r, n):
    """two writers and a reader at work at the same time"""
    res = []
    for _ in range(n):
        ws = [Wr(r), Wr(r)]
        sc = []
        for h, f, w in (('w', 'o', ws[0]), ('v', 'p', ws[1])):
            sc += w.open(h, f)
        rec = Rec(r, nch=2)
        sc += [file_line('a', rec.bytes()), 'ropen r a -']
        qs = [ws[0].all('w', rt=True), ws[1].all('v', rt=True),
              look(r, 'r', rec.count() - 1)]
        while any(qs):
            sc.append(r.choice([q for q in qs if q]).pop(0))
        sc += ['wclose v', 'wclose w', 'ropen x o -', 'ropen y p -']
        for _ in range(len(ws[0].channels())):
            sc += ['rtrc x']
        for _ in range(len(ws[1].channels())):
            sc += ['rtrc y']
        sc += ['has x', 'has y']
        res.append(sc)
    return res


# ----------------------------------------------------------------- refusals
def bad_opens(r, n):
    """headers no revision 2.1 file can hold"""
    res = []
    for i in range(n):
        w = Wr(r, fmt=r.choice(FORMATS))
        if len(w.ghn) > 13:
            w.ghn = w.ghn[:2]
            w.gh['add_gen_hdr_blocks'] = 1 + len(
                {g['gen_hdr_block_num'] for g in w.ghn})
        extra = None
        k = i % 15 if i != 20 else 15
        if k == 0:
            w.gh['scan_types_per_record'] += r.choice([1, -1])
        elif k == 1:
            w.gh['format_code'] = r.choice([0, 1, 15, 200, 8000, 8016, 9048,
                                            9015, 9999, 8023])
        elif k == 2:
            w.maps = G.bad_map(r)
        elif k == 3:
            w.gh2['segd_rev_major'] = r.choice([3, 4, 255])
        elif k == 4:
            b = i // 15 * 3
            extra = '\n'.join('wblk3 %d' % G.R3TYPES[(b + q) % 24] for q in
                              range(r.choice([3, 3, 3, 24])))
        elif k == 5:
            w.gh['add_gen_hdr_blocks'] += r.choice([1, -1, 2])
        elif k == 6:
            w.sets = [w.sets[0]] * 100
            w.gh['scan_types_per_record'] = 100
        elif k == 7:
            w.gh['skew_blocks'] = r.choice([100, 165, 1000])
        elif k == 8:
            x = r.choice(w.sets)
            x.append(x[0]) if r.random() < .5 else x.pop()
        elif k == 9:
            r.choice(r.choice(w.sets))['number_of_channels'] = r.choice(
                [10000, 16665, 2**20])
        elif k == 10:
            w.ext.append(bytes(32))
        elif k == 11:
            w.extl.append(bytes(32))
        elif k == 12:
            w.ext = [bytes(r.choice([31, 33, 0, 64]))] + w.ext
            w.gh['extended_hdr_blocks'] = w.gh2['extended_hdr_blocks'] = \
                len(w.ext)
        elif k == 13:
            w.extl = [bytes(r.choice([31, 33, 0, 64]))] + w.extl
            w.gh['external_hdr_blocks'] = w.gh2['external_hdr_blocks'] = \
                len(w.extl)
        elif k == 15:
            # more than two bytes can tell
            w.many(r.choice(['ext', 'extl']), 65536)
        else:
            g = dict(expanded_file_number=1, gen_hdr_block_num=0)
            w.ghn = [dict(g, gen_hdr_block_num=q) for q in range(16)]
            w.gh['add_gen_hdr_blocks'] = 17
        sc = w.open()
        if extra:
            sc.insert(-1, extra)
        # what comes after a refusal does not count
        sc += ['wtrc w 0 0', 'wclose w']
        v = Wr(r, fmt=8022)
        res.append(sc + v.open('v', 'p') + v.all('v') + ['wclose v',
                                                         'ropen r p -',
                                                         'drain r 99'])
    return res


def refused(r, n):
    """traces that do not fit, between traces that do"""
    res = []
    for _ in range(n):
        k = r.random()
        if k < .5:
            w = Wr(r, fmt=r.choice(FORMATS))
        else:
            w = Wr(r, fmt=r.choice(FORMATS), maps=uniq([
                rand_map(r, samp_num=q == 0 and r.random() < .7)
                for q in range(r.randrange(1, 4))]))
        sc = w.open()
        good = w.channels()
        for q, (i, j, c) in enumerate(good + [good[0]] if good else
                                      [(1, 1, w.sets[0][0])]):
            for _ in range(r.choice([0, 1, 1, 2])):
                b = r.randrange(8)
                ne = r.choice([0, 1, 2])
                kw = dict(ne=ne)
                if b == 0:
                    kw['dn'] = r.choice([1, 2, -1])
                elif b == 1:
                    kw['over'] = dict(SCAN_TYPE_NUM=r.choice(
                        [tok_int(0), tok_int(len(w.sets) + 1), tok_int(-1),
                         tok_int(2**40), tok_dbl(.5), tok_int(65537)]))
                elif b == 2:
                    kw['over'] = dict(CH_SET_NUM=r.choice(
                        [tok_int(0), tok_int(len(w.sets[0]) + 1), tok_int(-1),
                         tok_int(65537), tok_dbl(-3.)]))
                elif b == 3:
                    kw['over'] = dict(TR_HDR_EXT=r.choice(
                        [tok_int(256), tok_int(-1), tok_int(257),
                         tok_int(2**33)]))
                elif b == 4 and w.maps:
                    kw['ne'] = len(w.maps)
                    names = [e[1] for m in w.maps for e in m]
                    if names:
                        kw['drop'] = [r.choice(names)]
                elif b == 5:
                    kw['ne'] = max(1, ne)
                    kw['over'] = dict(SAMP_NUM=r.choice(
                        [tok_int(77), tok_dbl(1.5), tok_int(-1),
                         tok_int(2**32 + 1)]))
                elif b == 6:
                    kw['ne'] = max(1, ne)
                    kw['drop'] = ['SAMP_NUM']
                else:
                    kw['dn'] = 1
                    kw['ne'] = 0
                sc.append(w.trace(i, j, c, 1, rt=True, **kw))
            sc.append(w.trace(i, j, c, q + 1, rt=True))
        sc += ['wclose w', 'ropen r o ' + w.m] + ['rtrc r'] * len(good)
        res.append(sc)
    return res


# <type of SAMP_NUM in the map, numbers of samples it can and can not hold>
COUNTS = [('int8', (0, 127, 128, 200, 255, 256)),
          ('uint8', (1, 127, 128, 255, 256, 257, 300)),
          ('int16', (1, 300, 32767, 32768, 65535, 65536)),
          ('uint16', (300, 32768, 65535, 65536, 70000)),
          ('int24', (1, 70000)), ('uint64', (3, 300)), ('int64', (5, 128)),
          ('ieee_single', (0, 1, 2)), ('ieee_double', (0, 3)),
          ('ibm', (0, 1)), ('uint24', (256, 65536)), (None, (255, 65536))]


def countable(r, n):
    """numbers of samples which have, or have not, a place in the extensions
    of the trace header"""
    res = []
    for i in range(n):
        t, lens = COUNTS[i % len(COUNTS)]
        maps = []
        if t:
            off = r.choice([0, 7, 15])
            maps = [[(off, 'SAMP_NUM', t)]]
            k = r.random()
            if k < .2:  # the last one counts
                maps = [[(3, 'SAMP_NUM', r.choice(['int8', 'int32', 'ibm']))],
                        [(off, 'SAMP_NUM', t)]]
            elif k < .4:
                maps = [[(3, 'SAMP_NUM', r.choice(['int8', 'int32', 'ibm'])),
                         (9 + off, 'SAMP_NUM', t)]]
            elif k < .5:
                maps.append([(0, 'F1', 'int8')])
        w = Wr(r, fmt=r.choice([8058, 8036, 8038]), maps=maps, nch=3, rev=2)
        w.sets = [w.sets[0][:1]]
        w.gh.update(scan_types_per_record=1, channel_sets_per_scan_type=1)
        sc = w.open()
        c = w.sets[0][0]
        d = 2.0**int(c['descale_multiplier'])
        for q, ns in enumerate([r.choice([0, 1, 2]), r.choice(lens),
                                r.choice([0, 2])]):
            sc.append(w.trace(1, 1, c, q + 1, ne=max(1, len(maps)), rt=True,
                              values=[(j % 100) * d for j in range(ns)]))
        sc += ['wclose w', 'ropen r o ' + w.m] + ['has r', 'rtrc r'] * 3
        res.append(sc)
    return res


def malformed(r, n):
    """records cut short or contradicting themselves"""
    res = []
    for i in range(n):
        maps, mn, pre = pick_maps(r, .6, .2)
        recs = [Rec(r, maps=maps, fmt=r.choice(FORMATS))
                for _ in range(r.choice([1, 1, 2]))]
        for x in recs:
            if x.count() == 0:
                x.scans[0][0].n = 1
        bad = recs[-1]
        k = i % 12
        if k == 0:
            bad.fmt = r.choice(FORMATS)
            bad.bytes()
            bad.fmt = r.choice([0, 1, 8016, 9015, 9999, 200])
        elif k == 1:
            bad = recs[-1] = Rec(r, maps=maps, major=3, nch=1)
            bad.nadd = r.choice([0, 1, 1, 2, 3, 14])
            if bad.nadd == 0 or r.random() < .5:
                bad.moved.add('add')
            else:
                bad.moved.discard('add')
        elif k == 2:
            for t in bad.scans[0]:
                t.n = 1
            bad.bytes()
            ts = bytearray(bad.traces[0])
            ts[2 if r.random() < .5 else 3] = r.choice([0, 0x99, 0xff, 0x50])
            ts[15:17] = b'\0\0'
            bad.traces[0] = bytes(ts)
        elif k == 3:
            bad.bytes()
            ts = bytearray(bad.traces[-1])
            ts[9] = 255
            bad.traces[-1] = bytes(ts)
        elif k == 4:                         # number of samples unknown
            bad.ext_force = 0
            bad.base16 = 16
            bad.bytes()
            bad.base16 = 0
        elif k == 5:                         # ends before it starts
            bad.ext_force = 0
            bad.bytes()
            for sc in bad.scans:
                for s in sc:
                    s.st, s.dt = 10, -r.choice([2, 4, 10])
        elif k == 6:                         # more samples than there are
            bad.maps, bad.ext_force = [], 1
            bad.bytes()
            ts = bytearray(bad.traces[-1])
            ts[27:30] = r.choice([b'\xff\xff\xff', b'\0\1\0', b'\1\0\0'])
            ts[44:48] = r.choice([b'\xff\xff\xff\xff', b'\x7f\xff\xff\xff',
                                  b'\0\1\0\0'])
            bad.traces[-1] = bytes(ts)
        data = b''.join(x.bytes() for x in recs)
        if k == 7:                           # cut anywhere
            data = data[:r.randrange(len(data))]
        elif k == 8:                         # cut at a block boundary
            data = data[:r.choice([0, 31, 32, 33, 63, 64, 65, 96, 97, 127,
                                   128])]
        elif k == 9:
            d = bytearray(data)
            d[r.randrange(min(64, len(d)))] = r.choice([0, 0xff, 0x99])
            # no monstrous counts: these are other tests
            data = bytes(d)
        elif k == 10:
            data = data[:-r.choice([1, 2, 3, 8])]
        elif k == 11:
            mn, pre = 'm', [map_line('m', G.bad_map(r))]
        total = sum(x.count() for x in recs)
        if k == 10 or r.random() < .3:
            how = ['rtrc r'] * (total + 1)
        else:
            how = ['has r', 'drain r %d' % (total + 1)]
        # whatever happened, the reader can still be asked
        how += r.sample(['rtrc r', 'has r', 'st r', 'rtrc r', 'has r',
                         'rtrc r'], r.randrange(1, 6))
        res.append(pre + [file_line('a', data), 'ropen r a ' + mn, 'st r'] +
                   how)
        if r.random() < .05:
            res.append(['ropen r nofile -', 'rtrc r'])
    return res


def blocks3(r, n):
    """every block type of revision 3 with every bit pattern"""
    res = []
    for i in range(n):
        x = Rec(r, fmt=8022, simple=True, nch=1, major=3, ext=0)
        ts = r.sample(G.R3TYPES, r.choice([1, 3, 8, 12]))
        ts[0] = G.R3TYPES[i % len(G.R3TYPES)]
        if r.random() < .1:
            ts = list(G.R3TYPES)
        r.shuffle(ts)
        if r.random() < .1:
            ts.append(ts[0])
        x.blocks = [x.block3(t) for t in ts]
        x.moved.discard('add')
        if len(ts) + 2 > 14 or r.random() < .3:
            x.moved.add('add')
        y = Rec(r, fmt=8022, simple=True, nch=1, ext=0,
                major=r.choice([2, 3, 'none']))
        data = x.bytes() + (y.bytes() if r.random() < .4 else b'')
        res.append([file_line('a', data), 'ropen r a -', 'st r', 'rtrc r',
                    'st r', 'has r', 'rtrc r', 'st r'])
    return res


# numbers of samples around the sizes buffers are likely to have
SIZES = [127, 128, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047,
         2048, 2049, 4095, 4096, 4097, 5001, 8191, 8192, 8193, 10000]


HUGE = [16383, 16384, 16385, 20001, 32767, 32768, 40000, 65535, 65536, 70001]


def sizes(r, n, offset=0, lens=SIZES):
    """long traces, read from crafted records and from written ones"""
    res = []
    for i in range(n):
        k = i + offset
        fmt = FORMATS[k % 14]
        ns = lens[(k * 5 + r.randrange(3)) % len(lens)]
        if fmt == 8015 and r.random() < .5:
            ns += r.randrange(4)
        if k % 2:
            x = Rec(r, fmt=fmt, simple=True, nch=2, ext=1,
                    major=r.choice([0, 1, 2, 3, 'none']), dk='none')
            x.smp_num = lambda ns=ns: ns
            res.append([file_line('a', x.bytes()), 'ropen r a -',
                        'drain r 3', 'has r'])
        else:
            w = Wr(r, fmt=fmt, rev=r.choice([1, 2]), dk='none', nch=1)
            sc = w.open()
            ch = w.channels()[:2]
            for q, (a, b, c) in enumerate(ch):
                sc.append(w.trace(a, b, c, q + 1, ne=1, rt=True, values=[
                    G.sample_value(r, fmt) for _ in range(ns)]))
            res.append(sc + ['wclose w', 'ropen r o ' + w.m] +
                       ['rtrc r'] * len(ch))
    return res


def many(r, n):
    """records of many channels, files of many records"""
    res = []
    for i in range(n):
        k = i % 3
        fmt = r.choice([8022, 8036, 8048, 8058, 8080, 8015])
        if k == 0:
            num = r.choice([120, 255, 256, 257, 300])
            x = Rec(r, fmt=fmt, scans=[[Set(r, num - 7), Set(r, 7)]],
                    major=r.choice([0, 1, 2, 3, 'none']), ext=1)
            x.smp_num = lambda: r.randrange(3)
            y = Rec(r, fmt=8022, simple=True, nch=1, ext=1)
            res.append([file_line('a', x.bytes() + y.bytes()), 'ropen r a -',
                        'drain r %d' % (x.count() + y.count() + 1), 'has r'])
        elif k == 1:
            xs = [Rec(r, fmt=fmt, simple=r.random() < .7, nch=r.choice([1, 2]),
                      ext=1, major=r.choice([0, 1, 2, 2, 3, 'none']))
                  for _ in range(r.choice([10, 17, 33, 40]))]
            for x in xs:
                x.smp_num = lambda: r.randrange(4)
            sc = [file_line('a', b''.join(x.bytes() for x in xs)),
                  'ropen r a -', 'st r']
            for x in xs:
                sc += ['rtrc r'] * x.count() + ['has r']
                if r.random() < .3:
                    sc.append('st r')
            res.append(sc)
        else:
            w = Wr(r, fmt=fmt, nch=1, dk='none', rev=2)
            num = r.choice([99, 100, 101, 150, 260])
            w.sets[0][0]['number_of_channels'] = num
            sc = w.open()
            ch = w.channels()
            for q, (a, b, c) in enumerate(ch):
                sc.append(w.trace(a, b, c, q + 1, ne=1, rt=True, values=[
                    G.sample_value(r, fmt) for _ in range(r.randrange(3))]))
            res.append(sc + ['wclose w', 'ropen r o ' + w.m, 'st r',
                             'drain r %d' % (len(ch) + 1), 'has r'])
    return res
