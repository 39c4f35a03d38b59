#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(pid, title, statement, over, text, why, files, mech, technique, note,
      observe, state=()):
    return dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, technique=technique, note=note, observe=observe,
                state=state)


CODEC_WHY = ('The tests of the repository exercise parts (opcodes, bit buckets, string '
             'helpers) on a handful of fixed values; none runs a codec over a history, and '
             'what a message means depends on every message before it and on the '
             'configuration.')
NOTE = ('Holds on the executions observed: thousands of messages per run, generated from '
        'a seed over profiles chosen to reach evictions, renumbering, ranges, groups and '
        'size edges. Trusts the oracle in mon/ and the Jython 2.7 / CPython 3.12 '
        'interpreters.')

PROPS = [
 P('P01', 'delta2: every header history decodes to exactly the headers that went in',
   'For every sequence of header sets given to one delta2 compressor, and for every '
   'configuration of its options, a decompressor of the same direction that is given the '
   'outputs in order, immediately or later, returns for each one exactly the names and '
   'values of that header set, each once. Neither side ever raises an error or loops.',
   ['inputs', 'histories', 'configurations'],
   'all header sets up to some 70 KB and 260 fields, all histories, all settings of the '
   'nine options, requests and responses, decoding in step, afterwards or lagging',
   CODEC_WHY, ['compressor/delta2/__init__.py', 'compressor/delta2/spdy4_codec_impl.py',
               'compressor/delta2/lrustorage.py'],
   [('encoder and decoder mutate equal tables by the same operations',
     'compressor/delta2/spdy4_codec_impl.py: Spdy4CoDe.MakeOperations, ExecuteOp')],
   'round-trip monitor over recorded sessions (offline checker of an event log)', NOTE,
   ['Processor.compress', 'Processor.decompress']),
 P('P02', 'delta: every header history decodes to exactly the headers that went in',
   'For every sequence of header sets given to one delta compressor under any table '
   'limits, a decompressor of the same direction given the outputs in order returns for '
   'each one exactly the names and values of that header set, each once, also after the '
   'entry numbers have wrapped around. Neither side ever raises an error or loops.',
   ['inputs', 'histories', 'configurations'],
   'all header sets up to some 70 KB and 260 fields, all histories (including ones that '
   'use more than 65536 entry numbers), all table limits',
   CODEC_WHY, ['compressor/delta/__init__.py', 'compressor/delta/spdy4_codec_impl.py'],
   [('encoder and decoder execute the same operations on equal tables',
     'compressor/delta/spdy4_codec_impl.py: Spdy4CoDe, Storage')],
   'round-trip monitor over recorded sessions (offline checker of an event log)', NOTE,
   ['Processor.compress', 'Processor.decompress']),
 P('P03', 'http2: every header history decodes to exactly the headers that went in',
   'For every sequence of header sets (blocks up to the 16-bit frame length) given to one '
   'http2 compressor with any buffer size, a decompressor of the same direction given the '
   'outputs in order returns for each one exactly the names and values of that header '
   'set. Neither side ever raises an error or loops.',
   ['inputs', 'histories', 'configurations'],
   'all header sets below 60 KB, all histories, all buffer sizes including ones smaller '
   'than one entry', CODEC_WHY,
   ['compressor/http2/http2Codec.py', 'compressor/http2/__init__.py'],
   [('reference set and header table of both sides stay equal',
     'compressor/http2/http2Codec.py: encodeHeaders, decodeHeaders')],
   'round-trip monitor over recorded sessions (offline checker of an event log)', NOTE,
   ['Processor.compress', 'Processor.decompress']),
 P('P04', 'headerdiff: every header history decodes to exactly the headers given',
   'For every sequence of header sets (at most 255 header lines each) given to one '
   'headerdiff compressor, with any buffer, delta, deflate and huffman options, a '
   'decompressor of the same direction given the outputs in order returns for each one '
   'exactly the names and values of that header set.  Neither side ever raises an error '
   'or loops.',
   ['inputs', 'histories', 'configurations'],
   'all header sets up to 255 lines and 60 KB, all histories, all option settings',
   CODEC_WHY, ['compressor/headerdiff/headerDiffCodec.py',
               'compressor/headerdiff/__init__.py'],
   [('indexing with a size-limited table, delta references and optional deflate',
     'compressor/headerdiff/headerDiffCodec.py: encodeHeader, decodeHeaders')],
   'round-trip monitor over recorded sessions (offline checker of an event log)',
   NOTE + ' A message of more than 255 lines is a known finding.',
   ['Processor.compress', 'Processor.decompress']),
 P('P05', 'http1, hyper_hpack and simple: decoding returns the headers that went in',
   'For every sequence of header sets given to an http1, hyper_hpack or simple '
   'compressor under its documented options, a decompressor given the outputs in order '
   'returns exactly the names and values that went in (cookies and repeated fields '
   'compared crumb by crumb). Neither side raises an error.',
   ['inputs', 'histories', 'configurations'],
   'all header sets up to 60 KB, all histories, the options of simple', CODEC_WHY,
   ['compressor/http1/__init__.py', 'compressor/hyper_hpack/__init__.py',
    'compressor/simple/__init__.py', 'lib/processors.py'],
   [('text round trip and per-host state', 'compressor/simple/__init__.py: Processor')],
   'round-trip monitor over recorded sessions (offline checker of an event log)', NOTE,
   ['Processor.compress', 'Processor.decompress']),
 P('P06', 'Table limits bound what a compressor and its receiver have to keep',
   'However long the history, delta, delta2, http2 and headerdiff keep no more header '
   'bytes and entries than the configured limits allow: a receiver with exactly those '
   'limits understands every message, and the memory held by a Processor stays within a '
   'small multiple of the limit.',
   ['histories', 'configurations'],
   'all histories of ever new names and values, all limits',
   'No test runs a codec long enough, or with limits small enough, to evict anything, and '
   'the demand is about all histories.',
   ['compressor/delta/spdy4_codec_impl.py', 'compressor/delta2/lrustorage.py',
    'compressor/http2/http2Codec.py', 'compressor/headerdiff/headerDiffCodec.py'],
   [('eviction', 'compressor/delta2/lrustorage.py: LruStorage.Reserve'),
    ('eviction', 'compressor/delta/spdy4_codec_impl.py: Storage.MakeSpace')],
   'heap monitor (strings reachable after each message) plus reference receiver with '
   'hard limits', NOTE, ['Processor object graph', 'wire images']),
 P('P07', 'The bytes alone carry the headers, for any receiver in any process',
   'The output of compress for a message, taken as bytes, is all a receiver needs beyond '
   'the earlier outputs of that compressor: new decompressors in another process, any '
   'number of them and at different paces, decode the same headers.',
   ['histories', 'schedules'],
   'all histories; one or two receivers per stream with arbitrary lag, in another process',
   'Tests call encoder and decoder in one process on one object, so state shared between '
   'them cannot show.',
   ['compressor/delta/__init__.py', 'compressor/delta2/__init__.py',
    'compressor/http2/__init__.py', 'compressor/headerdiff/__init__.py',
    'compressor/simple/__init__.py'],
   [('compressor and decompressor are separate objects',
     'compressor/*/__init__.py: Processor.__init__')],
   'cross-process replay of recorded wire images, compared with the recorded inputs', NOTE,
   ['Processor.compress', 'Processor.decompress']),
 P('P08', 'Sessions are isolated, deterministic and leave their inputs alone',
   'What a codec emits for a message depends only on its options, its direction and the '
   'messages of its own session: not on other sessions that ran before or run '
   'interleaved, nor on the hash seed. The header dictionary passed to compress is left '
   'unchanged, so every codec of a comparison sees the same headers.',
   ['schedules', 'histories', 'configurations'],
   'all interleavings of sessions of a codec in a process, all histories',
   'The tests never run two sessions in one process, let alone all orders and '
   'interleavings of them.',
   ['compressor/*/__init__.py', 'compare_compressors.py'],
   [('all state hangs off the Processor', 'compressor/*/__init__.py')],
   'differential monitor: traces of the same session alone, after others, interleaved',
   NOTE, ['Processor.compress', 'Processor.decompress']),
 P('P09', 'Wire images mean the same to an independently written receiver',
   'Every output of delta, delta2, http2 and headerdiff follows its published wire format '
   '(opcodes, index arithmetic, eviction, Huffman code, framing): a receiver written from '
   'the format alone decodes it to the headers that went in.',
   ['inputs', 'histories', 'configurations'],
   'all header sets, histories and the options the format description covers',
   'Tests check single opcodes; an encoder and decoder that drift together (both '
   'misplacing a field, say) satisfy every round trip.',
   ['compressor/delta/spdy4_codec_impl.py', 'compressor/delta2/spdy4_codec_impl.py',
    'compressor/http2/http2Codec.py', 'compressor/headerdiff/headerDiffCodec.py'],
   [('serialization', 'compressor/delta2/spdy4_codec_impl.py: SerializeInstructions')],
   'reference receivers replaying recorded wire images', NOTE, ['wire images']),
 P('P10', 'Huffman codes are complete, prefix free, optimal and decodable',
   'For every frequency table, the code built from it is prefix free and complete, costs '
   'no more for that table than an optimal prefix code (in delta2 where 32 bits allow it), '
   'and every byte string, with or without terminator and whatever bits follow, decodes to '
   'itself consuming exactly its own bits.',
   ['inputs', 'configurations'], 'all byte strings and all tables of counts',
   'The tests encode a few words with one table.',
   ['compressor/delta2/huffman.py', 'compressor/delta/huffman.py',
    'compressor/bohe/huffman.py', 'compressor/delta2/header_freq_tables.py'],
   [('tree construction and canonical tables', 'compressor/*/huffman.py: Huffman')],
   'invariant monitor over the code table and round trips', NOTE,
   ['Huffman.Encode', 'Huffman.DecodeFromBB']),
 P('P11', 'A bit bucket is a queue of bits',
   'Whatever sequence of stores, reads and queries is made, a Python BitBucket returns '
   'the bits stored, in order and most significant first, reports its counts truthfully, '
   'and refuses to read more bits than it holds.',
   ['inputs', 'histories'], 'all sequences of calls and operand values',
   'The tests store and read a few constants; the packing depends on the bit offset of '
   'both ends at every call.',
   ['compressor/delta2/bit_bucket.py', 'compressor/bohe/bit_bucket.py',
    'compressor/delta/bit_bucket.py'],
   [('bit packing', 'compressor/*/bit_bucket.py: StoreBits, GetBits')],
   'online comparison with a model queue', NOTE, ['BitBucket methods']),
 P('P12', 'The LRU table of delta2 evicts, numbers and finds as its limits demand',
   'For every sequence of reservations, stores, lookups and removals under any byte, entry '
   'and sequence-number limit, the table holds exactly the newest entries that fit, '
   'numbers them consecutively with wrap-around, reports each eviction once and in order, '
   'and returns for a number or a name the right entry.',
   ['histories', 'configurations'], 'all operation sequences and limits',
   'The tests cover one roll-over and one reservation with fixed limits.',
   ['compressor/delta2/lrustorage.py', 'compressor/delta2_bohe/lrustorage.py'],
   [('ring with byte accounting', 'compressor/*/lrustorage.py: LruStorage')],
   'online comparison with a model table', NOTE, ['LruStorage methods']),
 P('P13', 'No length, position or count falls off an edge of the integer encodings',
   'Strings of every length, table entries at every position and messages with any number '
   'of operations of one kind survive every codec, in particular on the edges of its '
   'prefix integers, byte counts and index widths.',
   ['inputs', 'configurations'],
   'all edges (2^k and prefix-integer boundaries, -2..+2) of value length, name length, '
   'entry position and operation count',
   'The tests cover the integer coder of single codecs at a few values, never through a '
   'message.',
   ['compressor/http2/http2Codec.py', 'compressor/headerdiff/headerDiffCodec.py',
    'compressor/delta2/spdy4_codec_impl.py', 'compressor/delta/spdy4_codec_impl.py'],
   [('prefix integers', 'compressor/http2/http2Codec.py: encodeInteger'),
    ('op counts in one byte', 'compressor/delta/spdy4_codec_impl.py: '
     'RealOpsToOpAndSize')],
   'round-trip monitor over boundary-value sessions', NOTE,
   ['Processor.compress', 'Processor.decompress']),
]

NOT_APPLICABLE = []


def load_more():
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props2.py')
    if os.path.exists(path):
        ns = {'P': P, 'NOTE': NOTE, 'CODEC_WHY': CODEC_WHY}
        exec(open(path).read(), ns)
        PROPS.extend(ns['PROPS'])
        NOT_APPLICABLE.extend(ns.get('NOT_APPLICABLE', []))


def main():
    load_more()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, (p['pid'], len(p['title']))
            f.write(json.dumps({
                'id': p['pid'], 'title': p['title'],
                'statement': ' '.join(p['statement'].split()),
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'state': [dict(zip(('name', 'meaning', 'where'), s))
                                      for s in p['state']],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    checks = []
    for p in PROPS:
        pid = p['pid']
        checks.append({'property': pid, 'quick_cmd': 'python3 run.py %s quick' % pid,
                       'thorough_cmd': 'python3 run.py %s thorough' % pid,
                       'technique': p['technique'], 'level': 'exploration',
                       'level_note': p['note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks,
                   'not_applicable': NOT_APPLICABLE}, f, indent=1)
        f.write('\n')


main()
