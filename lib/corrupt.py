"""False histories for the self-test: each changes one recorded fact of a
true history, and the specification has to reject the result."""
import json


def _find(events, pred):
    for i, e in enumerate(events):
        d = json.loads(e)
        if pred(d):
            return i, d
    return None, None


def _out(events, i, d):
    return events[:i] + [json.dumps(d, separators=(',', ':'))] + events[i + 1:]


def sample(ev):
    i, d = _find(ev, lambda d: d.get('smp') and d['op'] == 'rtrc')
    if i is None:
        return None
    d['smp'][0][0] ^= 0x80
    d['smp'][0][1] ^= 0x10
    return _out(ev, i, d)


def header(ev):
    i, d = _find(ev, lambda d: d['op'] in ('rtrc', 'rhdr') and d.get('hdr'))
    if i is None:
        return None
    k = sorted(d['hdr'])[0]
    v = d['hdr'][k]
    v[8] ^= 1
    v[2] ^= 0x10
    return _out(ev, i, d)


def binary(ev):
    i, d = _find(ev, lambda d: d['op'] == 'ropen' and d.get('res') == 'ok')
    if i is None:
        return None
    d['bh']['sort_code'][7] ^= 1
    return _out(ev, i, d)


def text(ev):
    i, d = _find(ev, lambda d: d['op'] == 'ropen' and d.get('res') == 'ok')
    if i is None:
        return None
    d['text'][-1][100] ^= 1
    return _out(ev, i, d)


def has(ev):
    i, d = _find(ev, lambda d: d['op'] == 'has')
    if i is None:
        return None
    d['res'] = not d['res']
    return _out(ev, i, d)


def has_any(ev):
    i, d = _find(ev, lambda d: d['op'] == 'has')
    if i is None:
        return None
    k = 'trc' if 'trc' in d else 'res'
    d[k] = not d[k]
    return _out(ev, i, d)


def outcome(ev):
    """an exception where the library accepted, or the other way round"""
    i, d = _find(ev, lambda d: d.get('res') == 'exc')
    if i is None:
        return None
    return _out(ev, i, {'op': 'crash', 'st': 11})


def keys(ev):
    i, d = _find(ev, lambda d: d['op'] == 'keys' and d['keys'])
    if i is None:
        return None
    d['keys'].pop()
    return _out(ev, i, d)


def written(at):
    """a byte of a written file"""
    def f(ev):
        i, d = _find(ev, lambda d: d['op'] == 'wclose' and len(d['b']) > at)
        if i is None:
            return None
        d['b'][at] ^= 1
        return _out(ev, i, d)
    return f


def has_trace(ev):
    i, d = _find(ev, lambda d: d['op'] == 'has')
    if i is None:
        return None
    d['trc'] = not d['trc']
    return _out(ev, i, d)


def snap(part):
    """one bit of what a SEG-D reader shows of its record"""
    def f(ev):
        i, d = _find(ev, lambda d: d['op'] == 'st' and d[part])
        if i is None:
            return None
        if part == 'gh':
            d['gh']['manufac_num'][7] ^= 1
        elif part == 'chs':
            d['chs'][0][0]['vert_stack'][7] ^= 1
        elif part == 'blk':
            v = d['blk'][-1]['v']
            k = sorted(v)[0]
            v[k][-1] ^= 1
        else:
            d[part][0][5] ^= 1
        return _out(ev, i, d)
    return f


def look(ev):
    i, d = _find(ev, lambda d: d['op'] == 'look' and d.get('smp'))
    if i is None:
        return None
    d['smp'][0][7] ^= 1
    return _out(ev, i, d)


def what(ev):
    i, d = _find(ev, lambda d: d['op'] == 'what')
    if i is None:
        return None
    d['msg'][0] ^= 1
    return _out(ev, i, d)


def res(ev):
    i, d = _find(ev, lambda d: d['op'] == 'e2a' and d['res'])
    if i is None:
        return None
    d['res'][0] ^= 1
    return _out(ev, i, d)


def bcd(ev):
    i, d = _find(ev, lambda d: d['op'] == 'bget')
    if i is None:
        return None
    d['v'][7] ^= 1
    return _out(ev, i, d)


def stored(ev):
    i, d = _find(ev, lambda d: d['op'] == 'wtrc' and d['res'] == 'ok' and
                 d['stored'] > 66000)
    if i is None:
        return None
    d['stored'] -= 66000
    return _out(ev, i, d)


def same(ev):
    i, d = _find(ev, lambda d: d['op'] == 'rtrc' and d['same'])
    if i is None:
        return None
    d['same'] = False
    return _out(ev, i, d)


def words(ev):
    """the description of another field"""
    ks = [i for i, e in enumerate(ev) if json.loads(e)['op'] == 'name']
    if len(ks) < 2:
        return None
    a, b = json.loads(ev[ks[0]]), json.loads(ev[ks[1]])
    a['w'] = b['w']
    return _out(ev, ks[0], a)
