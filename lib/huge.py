"""Scenario families on files of GiBs (with holes), for HugeIO."""
import json
import struct

import segd_gen as D
import segy_gen as g
from segy_gen import BIN, BPS, LE, TEXT, TRH, map_line

GB = 1 << 30
EDGES = [2 * GB, 4 * GB]


def lay_line(f, key, hdr, first, ntrl, tr, rest, size, parts):
    lay = json.dumps(dict(key=key, hdr=hdr // 4, first=first // 4, ntrl=ntrl,
                          tr=tr, rest=rest // 4), separators=(',', ':'))
    return 'sparse %s %s %d %d %s' % (f, lay, size, len(parts), ' '.join(
        '%d %s' % (o, b.hex()) for o, b in parts))


def segy_file(r, kind, f='a'):
    """kind: var (traces of any length), fixed (many of 16 to 64 MiB), far
    (traces begin late), walk (trailer found by walking).  -> lines, traces,
    name of the map"""
    rev = 2 if kind in ('far', 'walk') else r.choice([1, 2])
    if kind == 'fixed':
        rev = r.choice([0, 1, 2])
    little = r.random() < .5
    E = '<' if little else '>'
    fmt = r.choice([f for f in (1, 2, 3, 5, 6, 8, 9, 11, 16)])
    bps = BPS[fmt]
    nadd = 1 if kind == 'walk' else r.choice([0, 1]) if rev == 2 else 0
    if kind == 'walk' and r.random() < .3:
        nadd = 2
    sn = nadd and r.random() < .6 or kind == 'walk'
    maps = [[(8, 'FFID', 'int32')] + ([] if sn else [(114, 'SAMP_NUM',
                                                      'uint32')])]
    maps += [[(136, 'SAMP_NUM', 'uint32')] if sn and i == 0 else
             [(8, 'X%d' % i, 'int32')] for i in range(nadd)]
    ntrl = 0 if rev < 2 else r.choice([0, 1, 2])
    if kind == 'walk':
        ntrl = r.choice([1, 2, 3])
    hdr = TRH * (1 + nadd)
    first = BIN + TEXT
    if kind == 'far':
        first = r.choice([2 * GB - 240, 2 * GB, 3 * GB, 4 * GB - 480, 4 * GB,
                          5 * GB + 400])
    small = lambda: r.choice([0, 4, 8, 12])
    if kind == 'fixed':
        each = r.choice([16, 32, 48, 64]) * (1 << 20)
        ns = each // bps
        n = r.choice([2, 4]) * GB // (each + hdr) + r.choice([2, 3, 8])
        lens = [ns] * n
    else:
        # the samples cross an edge, or end near it
        big = []
        at = first + hdr * 2
        for e in ([r.choice(EDGES)] if kind == 'far' else EDGES if
                  r.random() < .6 else [r.choice(EDGES)]):
            d = (e - at + r.choice([-8000, -480, -240, 0, 16, 8000]))
            if kind == 'walk' and r.random() < .3:
                d = 4 * GB + r.choice([0, 16, 4096])
            if d > 0 and d // bps < 2**32:
                big.append(d // bps // 16 * 16)
                at += big[-1] * bps + hdr * 2
        lens = []
        for b in big or [4]:
            lens += [small(), b]
        lens += [small() for _ in range(r.choice([1, 2, 3]))]
    ids = r.sample(range(1, 2**30), len(lens))
    bh = bytearray(BIN)
    put = lambda b, o, c, v: struct.pack_into(E + c, b, o, v)
    put(bh, 20, 'h', 7)
    put(bh, 24, 'h', fmt)
    if little:
        bh[96:100] = struct.pack('<i', LE)
    else:
        bh[96:100] = r.choice([bytes(4), b'\1\2\3\4'])
    bh[300] = rev
    if kind == 'fixed':
        put(bh, 302, 'h', 1)
        put(bh, 68, 'i', lens[0])
    if rev == 2:
        put(bh, 306, 'i', nadd)
        put(bh, 312, 'q', len(lens) if kind == 'walk' or r.random() < .5
            else 0)
        put(bh, 320, 'Q', first if kind == 'far' else r.choice([0, first]))
        put(bh, 328, 'i', -1 if kind == 'walk' else ntrl)
    parts = [(0, bytes(TEXT)), (TEXT, bytes(bh))]
    tr, at = [], first
    for i, ns in zip(ids, lens):
        hs = [bytearray(TRH) for _ in range(1 + nadd)]
        put(hs[0], 8, 'i', i)
        if sn:
            put(hs[1], 136, 'I', ns)
        else:
            put(hs[0], 114, 'I', ns)
        if nadd == 2:
            put(hs[1], 156, 'h', r.choice([0, 2]))
        smp = []
        if ns <= 12:
            raw, smp = samples(r, E, fmt, ns)
            hs.append(raw)
        parts.append((at, b''.join(map(bytes, hs))))
        tr.append(dict(id=i, ns=list(ns.to_bytes(8, 'big')),
                       u=ns * bps // 4, gap=0, smp=smp))
        at += hdr + ns * bps
    for k in range(ntrl):
        head = b'((SEG: EndText))' if k == ntrl - 1 else b'((OUR: Stanza))'
        parts.append((at, head + bytes([k + 1]) * (TEXT - len(head))))
        at += TEXT
    if at >= 7 * GB or at % 4:
        return segy_file(r, kind, f)
    return [map_line('m', maps), lay_line(f, 'FFID', hdr, first, ntrl, tr, 0,
                                          at, parts)], tr


def samples(r, E, fmt, ns):
    vs = [r.randrange(0, 100) for _ in range(ns)]
    code = {2: 'i', 3: 'h', 5: 'f', 6: 'd', 8: 'b', 9: 'q', 11: 'H', 16: 'B'}
    if fmt == 1:
        raw = b''.join(struct.pack(E + 'I', (0x42 << 24 | v << 16) if v else 0)
                       for v in vs)
    else:
        raw = b''.join(struct.pack(E + code[fmt], v) for v in vs)
    return raw, [list(struct.pack('>d', v)) for v in vs]


def segy_seq(r, n, kinds=('var', 'fixed', 'far', 'walk')):
    out = []
    for i in range(n):
        L, tr = segy_file(r, kinds[i % len(kinds)])
        L.append('ropen r a m -')
        for t in tr:
            if r.random() < .5:
                L.append('has r')
            L.append('rtrc r' if len(t['smp']) * 8 >= t['u'] and (
                t['u'] == 0 or t['smp']) and r.random() < .6 else 'rhdr r')
        out.append(L + ['has r', 'rhdr r', 'rclose r'])
    return out


def segy_srt(r, n, kinds=('var', 'fixed', 'far', 'walk')):
    out = []
    for i in range(n):
        L, tr = segy_file(r, kinds[i % len(kinds)])
        L += ['sopen s a FFID m -', 'keys s']
        short = lambda t: t['u'] == 0 or t['smp']
        for t in sorted(tr, key=lambda t: t['id']):
            if r.random() < .3:
                x = r.choice(tr)
                v = g.tok_int(x['id'])
                L.append('%s s %s -' % ('gett' if short(x) and r.random() < .6
                                        else 'geth', v))
            if r.random() < .3:
                L.append('has s')
            L.append('rtrc s' if short(t) and r.random() < .6 else 'rhdr s')
        out.append(L + ['has s', 'rhdr s', 'rclose s'])
    return out


def segd_seq(r, n):
    """records with trailers of GiBs between them"""
    out = []
    for _ in range(n):
        at, tr, parts, gap = 0, [], [], 0
        edges = EDGES if r.random() < .5 else [r.choice(EDGES)]
        recs = r.choice([2, 3, 4])
        many, which = r.randrange(-1, recs), r.choice([1, 2, 3])
        for k in range(recs):
            x = D.Rec(r, fmt=r.choice([
                f for f in D.FORMATS if D.samp_bytes(f, 1) == 4]), simple=True,
                nch=r.choice([1, 2, 3]), ext=1, major=3)
            x.trailer, x.trailer_bytes = 0, b''
            if k < recs - 1:
                e = edges[k % len(edges)] if k < len(edges) else 0
                x.trailer = max(0, e - at + r.choice(
                    [-32000, -640, 0, 320, 32000])) // 32
                if not x.trailer:
                    x.trailer = r.choice([1, 1 << 20])
            b = x.bytes()
            ts = []
            for q, t in enumerate(x.traces):
                i = len(tr) + q + 1
                t = bytearray(t)
                t[4:6] = bytes([i // 1000 << 4 | i // 100 % 10,
                                i // 10 % 10 << 4 | i % 10])
                ts.append(bytes(t))
            head = len(b) - sum(map(len, ts))
            full = head
            if k == many:   # more blocks than 16 bits count
                x.hext += [bytes(32)] * (65536 * (which & 1))
                x.hextl += [bytes(32)] * (65536 * (which >> 1))
                x.moved |= {'ext', 'extl'}
                nb = 32 * 65536 * ((which & 1) + (which >> 1))
                hd = x.head() + x.sets()
                full, b, head = len(hd), hd, len(hd) - nb
                parts.append((at, b[:head]))
                parts.append((at + full, b''.join(ts)))
                b += b''.join(ts)
            else:
                parts.append((at, b[:head] + b''.join(ts)))
            gap += full
            at += len(b) + 32 * x.trailer
            for q, t in enumerate(ts):
                tr.append(dict(id=len(tr) + 1, ns=[], gap=gap // 4,
                               u=len(t) // 4, smp=[]))
                gap = 0
            gap = 32 * x.trailer
        if at % 4 or any(p % 4 for p, _ in parts):
            continue
        out.append([lay_line('a', 'CHAN', 0, 0, 0, tr, gap, at, parts),
                    'ropen r a -'] + sum((['has r', 'rtrc r'] if r.random() < .5
                                          else ['rtrc r'] for _ in tr), []) +
                   ['has r', 'rtrc r'])
    return out


def segd_chans(r, n):
    """records of more traces than 16 bits count, without samples"""
    out = []
    for _ in range(n):
        at, tr, parts, L, gap = 0, [], [], [], 0
        for k, c in enumerate(r.choice([
                [65535], [65536], [65537, 1], [1, 70000, 2], [3, 131072]])):
            rev = r.choice([2, 3])
            per = 9999 if rev == 2 else r.choice([c, 40000])
            sets = [min(per, c - q) for q in range(0, c, per)]
            fill = [D.Set(r, q) for q in sets]
            for q in fill:
                q.ns = q.dt = 0
            x = D.Rec(r, fmt=8058, simple=True, ext=0, major=rev,
                      scans=[fill])
            hd = x.head() + x.sets()
            t = bytearray(20)
            body = b''
            for j, q in enumerate(sets):
                t[2], t[3] = 1, (j + 1) // 10 << 4 | (j + 1) % 10
                body += bytes(t) * q
            last = bytearray(body[-20:])
            last[4:6] = bytes([0, k + 1])
            body = body[:-20] + bytes(last)
            parts.append((at, hd + body))
            at += len(hd) + len(body)
            gap = len(hd)
            if c > 1:
                tr.append(dict(id=0, ns=[], gap=gap // 4, smp=[],
                               u=20 * (c - 1) // 4, times=c - 1))
                gap = 0
                L.append('skip r %d' % (c - 1))
            tr.append(dict(id=k + 1, ns=[], gap=gap // 4, u=5, smp=[],
                           times=1))
            L += ['has r', 'rtrc r']
        out.append([lay_line('a', 'CHAN', 0, 0, 0, tr, 0, at, parts),
                    'ropen r a -'] + L + ['has r', 'rtrc r'])
    return out
