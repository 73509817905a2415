#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from the table
below and the registry of checks in lib/props.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props

R = []


def P(id, title, statement, over, text, why, files, mech, state=()):
    R.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over.split(), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files.split(),
                               state=[dict(zip(('name', 'meaning', 'where'), s))
                                      for s in state],
                               mechanism=[dict(name=a, where=b)
                                          for a, b in mech])))


SEGYALL = ('src/ISEGY.cpp src/OSEGY.cpp src/OSEGYRev0.cpp src/OSEGYRev1.cpp '
           'src/OSEGYRev2.cpp src/CommonSEGY.cpp include/CommonSEGY.hpp')

P('P01', 'SEG-Y files written by the library read back as written',
  'For every revision (0, 1, 2), byte order, sample format and trace header '
  'layout, a SEG-Y file produced by the writers and opened by the reader '
  'yields the same traces in the same order, each with the same number of '
  'samples, the same sample values and the same header field values, as far '
  'as the file format can represent them exactly. The text headers and '
  'trailer stanzas read back equal what was written.',
  'inputs programs configurations',
  'for every sequence of traces, writer (headers given or derived), revision, '
  'byte order, sample format, header map and interleaving of several writers '
  'and readers',
  'Existing tests write two or three fixed traces in a few formats; pairs of '
  'a reader and a writer bug, zero / negative / boundary values, mixed header '
  'types, additional headers and interleavings are never reached.',
  SEGYALL,
  [('writer: headers, per-trace header map, sample encoders', 'src/OSEGY.cpp'),
   ('reader: headers, layout, sample decoders', 'src/ISEGY.cpp')])
P('P02', 'SEG-Y samples are encoded and decoded exactly per sample format',
  'Reading a sample yields the value its bytes denote in the sample format '
  'and byte order of the file (IBM float, 1/2/3/4/8-byte signed and unsigned '
  'integers, IEEE single and double), for every bit pattern. Writing a sample '
  'stores the bytes that denote the value given, for every value the format '
  'can hold.',
  'inputs configurations',
  'for every byte pattern of every sample format in every byte order, and '
  'every representable value written',
  'Tests decode one short file for five of the formats and encode none of '
  'them at boundary values; sign bits, zero, smallest/largest exponents and '
  'word-swapped orders are untested.',
  'src/ISEGY.cpp src/OSEGY.cpp src/CommonSEGY.cpp',
  [('per-format sample readers chosen from the binary header', 'src/ISEGY.cpp'),
   ('per-format sample writers', 'src/OSEGY.cpp')])
P('P03', 'SEG-Y trace header fields live at their mapped place and type',
  'Reading a trace returns, for every field of the header map in use '
  '(default or supplied, first or additional header), exactly the value '
  'stored at the mapped offset in the mapped type and the byte order of the '
  'file. Writing stores each supplied field there and zero for fields not '
  'supplied, and touches nothing else of the trace.',
  'inputs configurations',
  'for every header content, every header map (any field name, offset and '
  'type), every revision and byte order, every mix of integer and floating '
  'values supplied',
  'Tests look at a few fields of one header with the default map; custom '
  'maps, additional headers, negative and floating fields and partially '
  'filled headers are untested.',
  'src/ISEGY.cpp src/OSEGY.cpp src/CommonSEGY.cpp include/CommonSEGY.hpp',
  [('default trace header maps', 'src/CommonSEGY.cpp'),
   ('typed field readers', 'src/ISEGY.cpp'),
   ('typed field writers', 'src/OSEGY.cpp')])
P('P04', 'The SEG-Y binary header is decoded, encoded and overridden exactly',
  'Every field of the binary header a reader reports equals the value in the '
  'file under its revision and byte order, and every field a writer is given '
  'is found in the file it writes. A reader given a binary header uses that '
  'header in place of the one in the file.',
  'inputs configurations',
  'for every content of the 400 bytes of every revision and byte order '
  'and every header given to a writer or to a '
  'reader',
  'Tests compare one binary header of one big endian file; extended (rev 2) '
  'fields, other byte orders, negative and boundary values are not sampled.',
  'src/ISEGY.cpp src/OSEGY.cpp src/OSEGYRev0.cpp src/OSEGYRev1.cpp '
  'src/OSEGYRev2.cpp',
  [('endianness detection and binary header decoding', 'src/ISEGY.cpp'),
   ('binary header encoding per revision', 'src/OSEGY.cpp')])
P('P05', 'SEG-Y text headers and trailer stanzas survive reading and writing',
  'The text header, all extended text headers (given by count or by the end '
  'marker) and all trailer stanzas are reported complete, in order and '
  'without disturbing the traces; writers store exactly the texts given, '
  'where the binary header says they are, and refuse texts that are not of the record size.',
  'inputs configurations histories',
  'for every number and content of extended headers and stanzas, fixed or '
  'variable counts, every revision and trace layout, before, during and after '
  'reading traces',
  'No test has extended headers or trailers; their placement depends on '
  'counts, sentinels and the trace layout.',
  'src/ISEGY.cpp src/OSEGY.cpp src/OSEGYRev1.cpp src/OSEGYRev2.cpp',
  [('text header, extended header and trailer readers', 'src/ISEGY.cpp'),
   ('text header and trailer writers', 'src/OSEGY.cpp')])
P('P06', 'The sequential SEG-Y reader delivers each trace once, in file order',
  'Reading full traces or headers only, in any mix, '
  'always advances by whole traces: the n-th trace consumed is the n-th trace '
  'of the file, the end is announced exactly after the last one, and reading '
  'beyond it raises an error instead of inventing a trace. Several readers do '
  'not influence each other.',
  'programs histories inputs',
  'for every program of read / read header / has-more calls over every '
  'file layout, with any number of readers interleaved',
  'Tests count the traces of one file by reading one after the other; mixes '
  'of calls and variable length layouts are not covered.',
  'src/ISEGY.cpp',
  [('current position and end of data; header and trace reads',
    'src/ISEGY.cpp')],
  [('curr_pos', 'offset of the next trace', 'src/ISEGY.cpp')])
P('P07', 'Sorted and grouped SEG-Y access delivers every trace in key order',
  'The sorted reader delivers every trace of the file exactly once, ordered '
  'by the value of the chosen header field, traces with equal keys in file '
  'order, each with its own samples and header. Looking a key up yields '
  'the traces that have it, up to the number asked for, in file order, '
  'without moving the reader; the reported keys are those of the file, each '
  'once, ascending.',
  'inputs programs histories',
  'for every assignment of keys to traces, every key field and file layout, '
  'every program of reads and look-ups',
  'Tests sort one file whose keys happen to be ascending; duplicates, negative '
  'and floating keys, empty files and mixed calls are not sampled.',
  'src/ISEGYSorted1D.cpp src/ISEGY.cpp include/ISEGYSorted1D.hpp',
  [('index of offsets by key built at construction', 'src/ISEGYSorted1D.cpp')])
P('P08', 'SEG-Y trace layout follows the headers of the file',
  'The position and length of every trace follow the layout rules of the '
  'revision: fixed or per-trace number of samples, extended sample counts, '
  'additional trace headers (as many as the binary header says, or fewer '
  'where a trace of a variable-length file says so), an explicit offset of the first trace, extended '
  'text headers in front and trailer stanzas behind. Readers find, and '
  'writers place, every trace accordingly for lengths up to the largest the '
  'format allows.',
  'inputs configurations',
  'for every combination of layout fields of the binary and trace headers',
  'All test files have a fixed trace length of the same small size and no '
  'optional structure.',
  'src/ISEGY.cpp src/OSEGY.cpp src/OSEGYRev2.cpp',
  [('sample count resolution (binary, trace, extension)', 'src/ISEGY.cpp'),
   ('first trace / end of data computation', 'src/ISEGY.cpp')])
P('P09', 'Malformed, truncated or unsupported SEG-Y input is refused cleanly',
  'Opening or reading a SEG-Y file that is missing, truncated at any byte, '
  'not SEG-Y, or whose headers contradict its size or ask for something '
  'unsupported ends in an exception, or in the traces that are '
  'really there; it never crashes, hangs, reads outside its buffers or '
  'returns invented data. The same holds for writers given inconsistent '
  'headers or traces.',
  'inputs fault_sequences',
  'for every byte content, every truncation point, every inconsistent '
  'argument',
  'Tests try one missing file and one file that is too small.',
  'src/ISEGY.cpp src/ISEGYSorted1D.cpp src/OSEGY.cpp src/OSEGYRev0.cpp '
  'src/OSEGYRev1.cpp src/OSEGYRev2.cpp',
  [('size and consistency checks, exceptions', 'src/ISEGY.cpp'),
   ('writer argument checks', 'src/OSEGY.cpp')])
P('P10', 'Writers without headers derive a consistent file from the traces',
  'A writer created without headers produces a file whose binary header '
  'states the sample interval and number of samples of the first trace '
  'written, a sample format and revision that hold for the file, and the '
  'standard text header; every trace accepted afterwards is readable under '
  'that header, and traces that contradict it are refused and leave no mark '
  'in the file.',
  'inputs programs configurations',
  'for every first trace, every sequence of traces after it and every '
  'revision',
  'One test per revision writes a single fixed trace.',
  'src/OSEGY.cpp src/OSEGYRev0.cpp src/OSEGYRev1.cpp src/OSEGYRev2.cpp',
  [('header creation on the first write', 'src/OSEGY.cpp')])

SEGDALL = ('src/ISEGD.cpp src/OSEGD.cpp src/OSEGDRev2_1.cpp '
           'src/CommonSEGD.cpp include/CommonSEGD.hpp include/util.hpp')

P('P14', 'SEG-D rev 2.1 files written by the library read back as written',
  'A SEG-D file produced by the rev 2.1 writer and opened by the reader '
  'yields the same traces in the same order with the same number of samples, '
  'the same sample values and the same trace header values, and general '
  'headers, channel sets, extended and external headers equal to the ones '
  'given, as far as the file format can represent them exactly. A trace that '
  'the writer refused leaves no mark in the file.',
  'inputs programs configurations',
  'for every sample format code, set of headers and channel sets, trace '
  'header extension map, sequence of accepted and refused traces, and '
  'interleaving of several writers and readers',
  'The one existing test writes a single fixed record in one sample format; '
  'the other formats, extended counts, header extensions, negative and '
  'boundary values, refused traces are never reached.',
  SEGDALL,
  [('writer: headers, demux trace header, extensions, sample encoders',
    'src/OSEGD.cpp'),
   ('rev 2.1 header sequence', 'src/OSEGDRev2_1.cpp'),
   ('reader: headers, traces, sample decoders', 'src/ISEGD.cpp')])
P('P15', 'SEG-D samples are encoded and decoded exactly per sample format',
  'Reading a SEG-D trace yields, for every format code (8015, 8022, 8024, '
  '8036, 8038, 8042, 8044, 8048, 8058, 8080 and the little endian 9036, '
  '9038, 9058, 9080), exactly the values its bytes denote, scaled by the '
  'descale multiplier of their channel set, and as many of them as the '
  'headers state; writing stores the bytes that denote the value given, for '
  'every value the format holds.',
  'inputs configurations',
  'for every byte pattern of every sample format and every representable '
  'value written',
  'Tests read two short files in two of the formats; grouped exponents, '
  'hexadecimal and quaternary scaling, sign bits and exponent limits of the '
  'others are untested.',
  'src/ISEGD.cpp src/OSEGD.cpp src/CommonSEGD.cpp',
  [('per-format sample readers, read_trc_smpls_*', 'src/ISEGD.cpp'),
   ('per-format sample writers', 'src/OSEGD.cpp')])
P('P16', 'SEG-D trace header fields sit at their bytes with the right type '
  'and sign',
  'Every field of the demux trace header and of the trace header extensions '
  '(default layout or the maps the user gives, unknown keys and types '
  'included) is read from and written to its own bytes with its own width, '
  'sign and scale; writing one field changes no other; the extended file '
  'and channel set numbers replace the short ones exactly when they are not '
  'zero, the extended trace number of revision 3 exactly when the short one '
  'is set to its escape value.',
  'inputs configurations',
  'for every byte content of the trace header, number of extensions and '
  'extension map, for reading and writing',
  'Tests compare a handful of fields of one file; widths, signs, escapes and '
  'user maps are untested.',
  'src/ISEGD.cpp src/OSEGD.cpp src/CommonSEGD.cpp include/CommonSEGD.hpp',
  [('trace header and extension readers', 'src/ISEGD.cpp'),
   ('trace header and extension writers', 'src/OSEGD.cpp'),
   ('default trace header maps', 'src/CommonSEGD.cpp')])
P('P17', 'SEG-D header blocks are decoded and encoded field by field',
  'For files before revision 3 the reader reports general headers 1, 2 and '
  'N, the channel set headers, the extended and external headers exactly as '
  'their bytes state, BCD, binary, signed and extended fields included, and '
  'the rev 2.1 writer stores each of them so that the bytes state exactly '
  'the values given.',
  'inputs configurations',
  'for every value of every field and every number of blocks of each kind',
  'Tests check a few fields of one or two real files; escapes (FFF, FF, '
  '0xFFFF), negative values, half-byte fields and several scan types are '
  'untested.',
  SEGDALL,
  [('header block readers', 'src/ISEGD.cpp'),
   ('header block writers', 'src/OSEGD.cpp'),
   ('BCD codec', 'include/util.hpp')])
P('P18', 'SEG-D reading delivers every trace of every record once, in order',
  'Repeated reading yields every trace of every record exactly once and in '
  'file order, with the channel set, file number and sample count of its own '
  'record; has_trace and has_record tell the truth at every point; general '
  'trailer, manufacturer blocks and skewed or odd channel sets are never '
  'taken for traces; the headers reported are those of the current record; '
  'reading past the end is refused and changes nothing.',
  'programs histories inputs',
  'for every sequence of calls on the reader and every file layout (records, '
  'scan types, channel sets, extensions, trailers)',
  'Tests read the first trace or all traces of single-record files.',
  'src/ISEGD.cpp src/CommonSEGD.cpp include/ISEGD.hpp',
  [('record and trace cursor: read_trace, next record, trailer skipping',
    'src/ISEGD.cpp')],
  [('trace and channel counters', 'which trace of which channel set is next',
    'src/ISEGD.cpp')])
P('P19', 'Malformed SEG-D input and inconsistent SEG-D output are refused '
  'cleanly',
  'Opening or reading a SEG-D file that is missing, truncated at any byte or '
  'whose headers contradict each other or its size ends in an exception, or '
  'in the traces that are really there; it never crashes, hangs, reads '
  'outside its buffers or returns invented data. A writer given headers, '
  'extension maps or traces it can not represent refuses them before '
  'anything of them reaches the file.',
  'inputs fault_sequences',
  'for every byte content, every truncation point and every inconsistent '
  'argument',
  'Tests never open a damaged SEG-D file and never write an inconsistent '
  'trace.',
  SEGDALL,
  [('consistency checks, exceptions', 'src/ISEGD.cpp'),
   ('writer argument checks', 'src/OSEGD.cpp src/OSEGDRev2_1.cpp')])
P('P21', 'SEG-D revision 3 header blocks are decoded field by field',
  'For revision 3 files the reader reports general headers 1 to 3, the '
  '96-byte channel set headers and every additional general header block '
  '(vessel, survey area, client, job, line, source, positions, orientation, '
  'measurement, timestamps, sensor, ...) exactly as their bytes state, '
  'however many there are and in whatever order; of several blocks of one '
  'kind the last one is reported.',
  'inputs',
  'for every value of every field, every kind of block and every number and '
  'order of blocks',
  'Tests read one revision 3 file and compare a few fields of it.',
  'src/ISEGD.cpp src/CommonSEGD.cpp include/CommonSEGD.hpp',
  [('revision 3 block readers', 'src/ISEGD.cpp')])

P('P11', 'Traces and trace headers are independent values',
  'Copying, moving, assigning (to itself too), swapping and storing traces '
  'and trace headers in containers gives objects that hold exactly the '
  'values of their source and share nothing with it: a later change of one '
  'is never seen through another. A header value set is the value read until '
  'it is set again, keys are listed exactly once each, a key never set has '
  'no value, and a moved-from object can be assigned again.',
  'programs histories inputs',
  'for every sequence of construction, copy, move, assignment, set and get '
  'over any number of objects',
  'No test copies, moves or assigns a trace.',
  'include/Trace.hpp src/Trace.cpp',
  [('value semantics of Trace and Trace::Header', 'src/Trace.cpp')],
  [('header values', 'name to value', 'src/Trace.cpp'),
   ('samples', 'sample values', 'src/Trace.cpp')])
P('P12', 'Text converts between EBCDIC and ASCII without loss',
  'Converting text from EBCDIC to ASCII and from ASCII to EBCDIC follows the '
  'published code page for every byte, leaves the length as it is, and each '
  'conversion undoes the other for every text.',
  'inputs',
  'for every byte value and every text of every length',
  'The test converts one text of upper case letters there and back, which a '
  'wrong but consistent pair of tables also passes, and which leaves most '
  'byte values out.',
  'src/CommonSEGY.cpp include/CommonSEGY.hpp',
  [('conversion tables', 'src/CommonSEGY.cpp')])
P('P13', 'Packed decimal and byte order conversions are exact inverses',
  'A decimal field written at any half byte holds exactly the digits of its '
  'value, changes no neighbouring digit, and is read back as the same value, '
  'for every width, value type and sequence of fields; digits above nine '
  'count at their value when read. Byte swapping reverses the bytes, and '
  'reading and writing raw values moves by their size and keeps every bit.',
  'inputs programs',
  'for every value, field width, half byte position, buffer content and '
  'sequence of fields',
  'The test writes and reads the single value 243.',
  'include/util.hpp',
  [('from_bcd, to_bcd, swap, read, write', 'include/util.hpp')])
P('P20', 'Exceptions keep their message when copied, moved and rethrown',
  'An exception of the library reports the file, line and message it was '
  'created with, through every copy, move, throw, catch by value or as a '
  'standard exception and rethrow, and after the original is gone.',
  'programs inputs',
  'for every sequence of creation, copy, move, throw and destruction, and '
  'every message',
  'No test looks at an exception.',
  'include/Exception.hpp src/Exception.cpp',
  [('message and its copies', 'src/Exception.cpp')])
P('P22', 'Separate readers and writers do not disturb one another',
  'Any number of SEG-Y and SEG-D readers and writers can be used side by '
  'side, with their calls interleaved or on threads of their own, on '
  'different files or reading the same one: each behaves as if it were '
  'alone, and no data is shared between them without synchronisation.',
  'schedules programs histories',
  'for every interleaving of calls on separate objects and every schedule of '
  'the threads that make them',
  'Tests use one reader or writer at a time, on one thread.',
  SEGYALL + ' ' + SEGDALL,
  [('state per object, none shared', 'src/CommonSEGY.cpp src/CommonSEGD.cpp')])
P('P23', 'Failures of the device are reported and never end the program',
  'When the device fails at any byte (full, too large, I/O error, short '
  'transfers), the call that could not be carried out ends in an exception, '
  'no later trace is reported as written to that file, and what was stored '
  'before the failure is the beginning of the intended file; readers deliver '
  'the true traces or an exception. Closing never ends the program.',
  'fault_sequences crash_points programs',
  'for every point of failure, lasting or passing, of every writer and '
  'reader',
  'No test meets a failing device.',
  'src/OSEGY.cpp src/OSEGYRev2.cpp src/OSEGD.cpp src/CommonSEGY.cpp '
  'src/CommonSEGD.cpp src/ISEGY.cpp src/ISEGD.cpp',
  [('streams that report errors as exceptions',
    'src/CommonSEGY.cpp src/CommonSEGD.cpp'),
   ('closing writers', 'src/OSEGYRev2.cpp')])

P('P24', 'Every field can be described, by its own description',
  'For every enumerator of the field names of every header structure (SEG-D '
  'general headers and channel sets, SEG-Y binary header) name_as_string '
  'returns a text that describes this field and no other field of the '
  'structure; trace_header_description has such a text for every name of the '
  'default SEG-Y trace header map. No lookup by an enumerator reads outside '
  'of a table.',
  'inputs histories',
  'for every enumerator of every structure and every trace header name, in '
  'any order of calls',
  'No test looks up a description.',
  'src/CommonSEGD.cpp src/CommonSEGY.cpp',
  [('tables of names indexed by the enumerators',
    'src/CommonSEGD.cpp src/CommonSEGY.cpp'),
   ('trace_header_description', 'src/CommonSEGY.cpp')])

# MORE

LEVEL = ('Trace validation: every call made on the real library, with its '
         'result and the bytes it wrote, must be a transition of the TLA+ '
         'specification, which TLC decides; scenarios come from behaviours '
         'of the model TLC enumerates and from seeded generators, so the '
         'verdict is complete for the histories run, not for all inputs. '
         'Trusted: TLC, the C++ driver that records the calls, the '
         'specification\'s reading of the SEG formats.')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for r in R:
            f.write(json.dumps(r) + '\n')
    checks = []
    for r in R:
        p = props.PROPS.get(r['id'])
        if p:
            c = './check.py ' + r['id']
            checks.append(dict(
                property=r['id'], quick_cmd=c + ' --tier quick',
                thorough_cmd=c + ' --tier thorough',
                technique=p['technique'], level=p['level'], level_note=LEVEL))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
             not_applicable=[dict(property=r['id'],
                                  reason='check not built yet')
                             for r in R if r['id'] not in props.PROPS])
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
