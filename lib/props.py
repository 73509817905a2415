"""Which scenarios decide which property."""
import os
import random

import corrupt as X
import fault_checks as FC
import huge as HU
import par as PA
import segd_checks as SD
import segy_checks as SC
import util_checks as UC

PROPS = {}
TECH = ('TLA+ specification checked with TLC; trace validation of recorded '
        'library calls against it')


def prop(pid, level='model_checking', technique=TECH):
    def deco(fn):
        PROPS[pid] = dict(fn=fn, level=level, technique=technique)
        return fn
    return deco


def rnd(s, salt):
    return random.Random('%s-%s-%s' % (s.seed, s.pid, salt))


def segy(s, label, aspects, scenarios, corrupt=None, variants=None):
    s.replay(label, 'segy_driver', 'SegyTrace', set(aspects), scenarios,
             variants=variants or (('plain', 'clang', 'asan') if
                                   s.tier == 'thorough' else ('plain',)),
             corrupt=corrupt)


def N(s, quick, thorough):
    return thorough if s.tier == 'thorough' else quick


def huge(s, label, driver, scenarios):
    """files of GiBs; they have holes, which the file system must know"""
    p = s.scratch.path('holes')
    try:
        with open(p, 'wb') as f:
            f.truncate(7 << 30)
        room = os.stat(p).st_blocks < 4096
        os.unlink(p)
    except OSError:
        room = False
    if not room:
        s.notes[label] = 'not run: no files with holes here'
        return
    s.replay(label, driver, 'HugeTrace', set(), scenarios, corrupt=X.has_any)


READ = {'hdr', 'smp', 'nsmp'}


@prop('P01')
def p01(s):
    SC.model_exhaustive(s, s.tier == 'thorough')
    r = rnd(s, 'm')
    progs = SC.model_programs(s, N(s, 250, 3000), srts=(), seqs=('r', 'q'))
    segy(s, 'model-programs', {'rt'} | READ,
         [SC.instantiate(r, p) for p in progs])
    r = rnd(s, 'rt')
    segy(s, 'roundtrip', {'rt', 'text', 'trl'},
         SC.roundtrips(r, N(s, 468, 6000)), corrupt=X.sample)
    segy(s, 'roundtrip-default', {'rt', 'text', 'trl'},
         SC.default_scripts(r, N(s, 60, 1000), mixed=0))
    segy(s, 'roundtrip-refused', {'rt'},
         SC.refused(r, SC.roundtrips(r, N(s, 78, 1500))))
    segy(s, 'countable', {'rt'}, SC.countable(r, N(s, 12, 360), exact=True))
    segy(s, 'roundtrip-headers', {'rt'},
         SC.header_writes(r, N(s, 60, 1500), mixed=(0,)))
    segy(s, 'many-traces', {'rt'} | READ, SC.many(r, N(s, 8, 200)))
    segy(s, 'long-traces', {'rt', 'nsmp'}, SC.sizes(r, N(s, 14, 260), 1) +
         SC.huge(r, r.sample((16385, 20001, 32769, 40000, 65535, 65537), 2)
                 if s.tier == 'quick' else SC.HUGE))


@prop('P02')
def p02(s):
    r = rnd(s, 'a')
    segy(s, 'sample-reads', {'smp', 'nsmp'},
         SC.sample_reads(r, N(s, 6, 60), exhaustive=s.tier == 'thorough'),
         corrupt=X.sample)
    segy(s, 'sample-writes', {'wsmp'}, SC.sample_writes(r, N(s, 6, 60)),
         corrupt=X.written(3600 + 240 + 3))
    segy(s, 'mixed', {'smp', 'nsmp', 'wsmp'}, SC.crafted_reads(
        r, N(s, 60, 1500)) + SC.roundtrips(r, N(s, 78, 1500)))
    segy(s, 'long-traces', {'smp', 'nsmp', 'wsmp'},
         SC.sizes(r, N(s, 26, 520)) + SC.huge(
             r, r.sample(SC.HUGE, 4) if s.tier == 'quick' else SC.HUGE * 3,
             ()))


@prop('P03')
def p03(s):
    r = rnd(s, 'a')
    segy(s, 'header-reads', {'hdr'}, SC.header_reads(r, N(s, 240, 4000)),
         corrupt=X.header)
    segy(s, 'header-writes', {'whdr', 'hdr'},
         SC.header_writes(r, N(s, 240, 4000)), corrupt=X.written(3600 + 115))
    segy(s, 'mixed', {'hdr', 'whdr'}, SC.crafted_reads(r, N(s, 60, 1500)) +
         SC.roundtrips(r, N(s, 78, 1500), mixed=.2, partial=.3))
    segy(s, 'many-fields', {'hdr', 'whdr'},
         SC.extremes(r, N(s, 30, 500), ('map', 'nadd', 'w')))


@prop('P04')
def p04(s):
    r = rnd(s, 'a')
    segy(s, 'binary-reads', {'bh'}, SC.bin_reads(r, N(s, 200, 3000)),
         corrupt=X.binary)
    segy(s, 'binary-override', {'bh'} | READ,
         SC.bin_override(r, N(s, 120, 3000)))
    segy(s, 'binary-writes', {'wbh', 'bh'},
         SC.bin_writes(r, N(s, 180, 3000)), corrupt=X.written(3200 + 150))


@prop('P05')
def p05(s):
    r = rnd(s, 'a')
    segy(s, 'texts', {'text', 'trl', 'wtext', 'wtrl', 'bh'},
         SC.text_scripts(r, N(s, 300, 4000)), corrupt=X.text)
    segy(s, 'texts-default', {'text', 'trl', 'wtext', 'wtrl', 'bh'},
         SC.default_scripts(r, N(s, 30, 300)))
    segy(s, 'layouts', {'text', 'trl'}, SC.layout_reads(r, N(s, 100, 2000)))
    segy(s, 'many-texts', {'text', 'trl', 'wtext', 'wtrl', 'bh'},
         SC.extremes(r, N(s, 30, 500), ('text', 'trl', 'w')))


@prop('P06')
def p06(s):
    SC.model_exhaustive(s, s.tier == 'thorough')
    r = rnd(s, 'm')
    progs = SC.model_programs(s, N(s, 250, 3000), srts=(), seqs=('r', 'q'),
                              mc=12)
    segy(s, 'model-programs', READ, [SC.instantiate(r, p) for p in progs])
    segy(s, 'cursor', READ, SC.cursor_reads(r, N(s, 300, 4000)),
         corrupt=X.has)
    segy(s, 'many-traces', READ, SC.many(r, N(s, 10, 200)))
    huge(s, 'huge', 'segy_driver', HU.segy_seq(r, N(s, 16, 400)))


@prop('P07')
def p07(s):
    SC.model_exhaustive(s, s.tier == 'thorough')
    r = rnd(s, 'm')
    asp = READ | {'keys', 'get'}
    progs = SC.model_programs(s, N(s, 250, 3000), seqs=('r',), srts=('s', 't'),
                              mc=12, mt=5)
    segy(s, 'model-programs', asp, [SC.instantiate(r, p) for p in progs])
    segy(s, 'sorted', asp, SC.sorted_reads(r, N(s, 260, 4000)),
         corrupt=X.keys)
    segy(s, 'many-traces', asp, SC.many(r, N(s, 12, 200), key=True))
    huge(s, 'huge', 'segy_driver', HU.segy_srt(r, N(s, 16, 400)))


@prop('P08')
def p08(s):
    r = rnd(s, 'a')
    segy(s, 'layouts', READ, SC.layout_reads(r, N(s, 300, 4000)),
         corrupt=X.has)
    segy(s, 'long', {'nsmp'}, SC.long_traces(
        r, (32767, 32768, 65535) if s.tier == 'quick' else
        (255, 256, 32766, 32767, 32768, 40000, 65535)))
    segy(s, 'override', READ, SC.bin_override(r, N(s, 60, 1000)))
    segy(s, 'fewer-headers', READ | {'whdr', 'wsmp', 'trl'},
         SC.fewer_headers(r, N(s, 80, 1500)))
    segy(s, 'many-parts', READ | {'whdr', 'wsmp', 'text', 'trl'},
         SC.extremes(r, N(s, 30, 500)))
    segy(s, 'written', READ | {'whdr', 'wsmp', 'wbh'},
         SC.roundtrips(r, N(s, 117, 2000)))
    huge(s, 'huge', 'segy_driver', HU.segy_seq(r, N(s, 16, 400),
                                               ('walk', 'far')))


@prop('P09')
def p09(s):
    r = rnd(s, 'a')
    v = ('plain', 'asan')
    segy(s, 'malformed', set(), SC.malformed(r, N(s, 260, 3000)),
         corrupt=X.outcome, variants=v)
    segy(s, 'truncated', {'nsmp'}, SC.truncated(r, N(s, 200, 4000)),
         variants=v)
    segy(s, 'refused', {'whdr'}, SC.refused(r, SC.roundtrips(
        r, N(s, 78, 1500))), variants=v)
    segy(s, 'countable', {'nsmp'}, SC.countable(r, N(s, 24, 480)), variants=v)
    segy(s, 'past-the-end', {'nsmp'}, SC.cursor_reads(r, N(s, 60, 1000)) +
         SC.sorted_reads(r, N(s, 40, 500)), variants=v)


@prop('P10')
def p10(s):
    r = rnd(s, 'a')
    asp = {'wbh', 'wtext', 'whdr', 'wsmp', 'bh'} | READ
    segy(s, 'defaults', asp, SC.default_scripts(r, N(s, 240, 4000)),
         corrupt=X.written(3200 + 17))
    segy(s, 'first-traces', asp, SC.default_rejects(r, N(s, 180, 3000)))
    segy(s, 'refused', asp, SC.refused(r, SC.default_scripts(r, N(
        s, 60, 1000))))
    segy(s, 'lengths', asp, SC.default_lengths(r, r.sample(
        (32767, 32768, 65535, 65536), 2) if s.tier == 'quick' else
        (127, 128, 255, 256, 32766, 32767, 32768, 32769, 65535, 65536,
         70000)))


# ------------------------------------------------------------------- SEG-D
def segd(s, label, aspects, scenarios, corrupt=None, variants=None):
    s.replay(label, 'segd_driver', 'SegdTrace', set(aspects), scenarios,
             variants=variants or (('plain', 'clang', 'asan') if
                                   s.tier == 'thorough' else ('plain',)),
             corrupt=corrupt)


@prop('P14')
def p14(s):
    r = rnd(s, 'a')
    segd(s, 'roundtrip', {'rt'}, SD.roundtrips(r, N(s, 420, 6000)),
         corrupt=X.sample)
    segd(s, 'roundtrip-headers', {'rt'},
         SD.header_writes(r, N(s, 120, 2500), rt=True), corrupt=X.header)
    segd(s, 'roundtrip-blocks', {'rt', 'gen', 'chs', 'ext', 'wgen', 'wchs',
                                 'wext'}, SD.block_writes(r, N(s, 120, 2500)))
    segd(s, 'interleaved', {'rt'}, SD.concurrent(r, N(s, 60, 1500)))
    segd(s, 'refused', {'rt'}, SD.refused(r, N(s, 80, 1500)))
    segd(s, 'many-traces', {'rt'}, SD.many(r, N(s, 9, 200)))
    segd(s, 'countable', {'rt', 'nsmp'}, SD.countable(r, N(s, 24, 480)))
    segd(s, 'long-traces', {'rt', 'nsmp'}, SD.sizes(r, N(s, 14, 280)) +
         SD.sizes(r, N(s, 1, 28), 2 * r.randrange(7), SD.HUGE))


@prop('P15')
def p15(s):
    r = rnd(s, 'a')
    segd(s, 'sample-reads', {'smp', 'nsmp'},
         SD.sample_reads(r, N(s, 12, 100), s.tier == 'thorough'),
         corrupt=X.sample)
    segd(s, 'sample-writes', {'wsmp'}, SD.sample_writes(r, N(s, 6, 60)))
    segd(s, 'counts', {'nsmp'}, SD.counts(r, N(s, 160, 3000)))
    segd(s, 'mixed', {'smp', 'nsmp', 'wsmp'}, SD.reads(
        r, N(s, 84, 1500), dk='eighth') + SD.roundtrips(r, N(s, 56, 1500)))
    segd(s, 'long-traces', {'smp', 'nsmp', 'wsmp'},
         SD.sizes(r, N(s, 28, 560), 1) +
         SD.sizes(r, N(s, 3, 56), r.randrange(14), SD.HUGE))


@prop('P16')
def p16(s):
    r = rnd(s, 'a')
    segd(s, 'header-reads', {'hdr', 'nsmp'},
         SD.header_reads(r, N(s, 400, 6000)), corrupt=X.header)
    segd(s, 'header-writes', {'whdr', 'hdr'},
         SD.header_writes(r, N(s, 320, 5000)))
    segd(s, 'mixed', {'hdr', 'whdr'}, SD.reads(r, N(s, 60, 1500)))


@prop('P17')
def p17(s):
    r = rnd(s, 'a')
    asp = {'gen', 'chs', 'ext'}
    segd(s, 'block-reads', asp, SD.reads(
        r, N(s, 360, 5000), majors=['none', 0, 1, 2, 2]), corrupt=X.snap('gh'))
    segd(s, 'large-counts', asp, SD.big(r, N(s, 24, 600), majors=(2,)))
    segd(s, 'block-writes', asp | {'wgen', 'wchs', 'wext'},
         SD.block_writes(r, N(s, 300, 4000)), corrupt=X.written(20))


@prop('P18')
def p18(s):
    r = rnd(s, 'a')
    asp = {'hdr', 'nsmp', 'gen', 'chs', 'ext', 'blk'}
    segd(s, 'records', asp, SD.cursor(r, N(s, 240, 4000)),
         corrupt=X.has_trace)
    segd(s, 'large-counts', asp, SD.big(r, N(s, 36, 600)))
    segd(s, 'reads', asp, SD.reads(r, N(s, 240, 4000)))
    segd(s, 'counts', {'nsmp'}, SD.counts(r, N(s, 80, 1500)))
    segd(s, 'many-traces', asp | {'rt'}, SD.many(r, N(s, 12, 300)))
    huge(s, 'huge', 'segd_driver', HU.segd_seq(r, N(s, 24, 400)) +
         HU.segd_chans(r, N(s, 4, 60)))


@prop('P19')
def p19(s):
    r = rnd(s, 'a')
    v = ('plain', 'asan')
    segd(s, 'malformed', {'nsmp'}, SD.malformed(r, N(s, 300, 5000)),
         corrupt=X.outcome, variants=v)
    segd(s, 'bad-opens', {'wgen'}, SD.bad_opens(r, N(s, 150, 2500)),
         corrupt=X.outcome, variants=v)
    segd(s, 'refused', {'whdr'}, SD.refused(r, N(s, 160, 3000)), variants=v)
    segd(s, 'countable', {'nsmp'}, SD.countable(r, N(s, 36, 720)))


@prop('P21')
def p21(s):
    r = rnd(s, 'a')
    segd(s, 'blocks', {'gen', 'blk', 'chs', 'ext'},
         SD.blocks3(r, N(s, 360, 6000)), corrupt=X.snap('blk'))
    segd(s, 'large-counts', {'gen', 'blk', 'chs', 'ext', 'hdr', 'nsmp'},
         SD.big(r, N(s, 24, 600), majors=(3,)))
    segd(s, 'reads', {'gen', 'blk', 'chs', 'ext', 'hdr', 'nsmp'},
         SD.reads(r, N(s, 150, 3000), majors=[3, 3, 3, 2]))


# ------------------------------------------------------- values and codecs
def util(s, label, scenarios, corrupt=None, variants=None):
    s.replay(label, 'util_driver', 'UtilTrace', set(), scenarios,
             variants=variants or (('plain', 'clang', 'asan') if
                                   s.tier == 'thorough' else
                                   ('plain', 'asan')), corrupt=corrupt)


@prop('P11')
def p11(s):
    r = rnd(s, 'a')
    UC.exhaustive(s, s.tier == 'thorough')
    progs = UC.all_short(s, ('t', 'u'), (), (), ('A',), 3)
    util(s, 'all-short-programs', [UC.instantiate(r, p) for p in progs],
         corrupt=X.look)
    progs = UC.programs(s, N(s, 300, 5000), ('t', 'u', 'v'), ('h', 'i'), (),
                        14)
    util(s, 'model-programs', [UC.instantiate(r, p) for p in progs])
    util(s, 'containers', UC.containers(r, N(s, 200, 3000)))
    util(s, 'maps', UC.maps(r, N(s, 200, 3000)))


@prop('P12')
def p12(s):
    r = rnd(s, 'a')
    util(s, 'codepage', UC.codepage(r, N(s, 200, 3000)), corrupt=X.res)


@prop('P13')
def p13(s):
    r = rnd(s, 'a')
    util(s, 'streams', UC.bcd_streams(r, N(s, 600, 10000)), corrupt=X.bcd)
    util(s, 'digits', UC.bcd_reads(r, N(s, 100, 2000)))
    hi = N(s, 4, 1)
    util(s, 'every-value', [UC.bcd_exhaustive(ty, n, lo, lo + 40)
                            for ty, n, top in (('u8', 2, 100), ('u16', 3, 1000),
                                               ('u16', 4, 10000))
                            for lo in range(0, top, 40 * (hi if n > 3 else 1))])
    util(s, 'bytes', UC.byte_ops(r, N(s, 100, 2000)))


@prop('P20')
def p20(s):
    r = rnd(s, 'a')
    progs = UC.all_short(s, (), (), ('e', 'f'), (), 4)
    util(s, 'all-short-programs', [UC.instantiate(r, p) for p in progs])
    progs = UC.programs(s, N(s, 300, 5000), (), (), ('e', 'f', 'g'), 12)
    util(s, 'model-programs', [UC.instantiate(r, p) for p in progs],
         corrupt=X.what)


@prop('P24')
def p24(s):
    r = rnd(s, 'a')
    util(s, 'names', UC.names(r, N(s, 40, 400)), corrupt=X.words)


@prop('P23')
def p23(s):
    r = rnd(s, 'a')

    def go(label, scenarios, corrupt=None):
        s.replay(label, 'fault_driver', 'FaultTrace', set(), scenarios,
                 variants=('plain', 'clang') if s.tier == 'thorough' else
                 ('plain',), corrupt=corrupt,
                 constants='CONSTANT Buffer = 65536\n')
    go('write-faults', FC.writes(r, N(s, 900, 12000)), X.stored)
    go('read-faults', FC.reads(r, N(s, 900, 12000)), X.same)
    go('short-transfers', FC.healthy(r, N(s, 60, 600)))


@prop('P22')
def p22(s):
    r = rnd(s, 'a')
    v = ('plain', 'tsan')
    y = SC.roundtrips(r, 120) + SC.default_scripts(r, 60, mixed=0)
    yr = SC.crafted_reads(r, 60) + SC.sorted_reads(r, 30)
    asp = {'rt', 'hdr', 'smp', 'nsmp', 'whdr', 'wsmp'}
    segy(s, 'segy-threads', asp, PA.threads(r, y + yr, N(s, 32, 1000)),
         corrupt=X.sample, variants=v)
    segy(s, 'segy-shared-file', asp, PA.shared(r, yr, N(s, 16, 600)),
         variants=v)
    segy(s, 'segy-interleaved', asp, PA.interleaved(
        r, y + yr, N(s, 40, 1500)))
    d = SD.roundtrips(r, 120) + SD.header_writes(r, 60, rt=True)
    dr = SD.reads(r, 60)
    asp = {'rt', 'hdr', 'smp', 'nsmp', 'gen', 'chs', 'blk', 'ext', 'whdr',
           'wsmp', 'wgen', 'wchs'}
    segd(s, 'segd-threads', asp, PA.threads(r, d + dr, N(s, 32, 1000)),
         corrupt=X.sample, variants=v)
    segd(s, 'segd-shared-file', asp, PA.shared(r, dr, N(s, 16, 600)),
         variants=v)
    segd(s, 'segd-interleaved', asp, PA.interleaved(
        r, d + dr, N(s, 40, 1500)))
