# continued from mkdocs.py: the tool around the codecs
TOOL_WHY = ('The tests of the repository feed the tool helpers a few fixed strings; none '
            'runs the tool on a capture, and what it prints depends on the whole input and '
            'on every codec chosen.')

CPP_WHY = ('The C++ sources have two small tests with fixed inputs which are not part of '
           'the test run; nothing runs the encoder over a history, and memory errors show '
           'only under instrumentation.')

PROPS = [
 P('P17', 'The tool reads from a HAR capture exactly the header fields it holds',
   'For every HAR file, the tool reads for each HTTP or HTTPS entry, in file order, one '
   'request and one response header set: each field under its lower-case name (host as '
   ':host), the values of a repeated field joined in order, plus the method, path with '
   'query, scheme, host, version, status and status text of the entry. Entries of other '
   'schemes are skipped, and a file that is not JSON is refused by name.',
   ['inputs'], 'all HAR files: any fields, repetitions, letter cases, URLs, schemes and '
   'statuses, and files that are not JSON',
   TOOL_WHY, ['lib/harfile.py'],
   [('field by field conversion', 'lib/harfile.py: har2hdrs, process_headers')],
   'offline comparison of what was read with a model of the format', NOTE,
   ['read_har_file']),
 P('P18', 'Streams hold every message exactly once, in order and of one kind',
   'For every list of messages and each streamifier, every request and every response '
   'lies in exactly one stream, of its own direction and in capture order; two messages '
   'share a stream exactly when the streamifier says so (all in one, same host, same '
   'public suffix, which an IP address is itself). Streams come in order of first '
   'appearance, requests before responses, and carry the host of each message and all codecs.',
   ['inputs', 'configurations'],
   'all message lists, host names (ports, letter case, public suffixes, addresses) and '
   'the three streamifiers', TOOL_WHY,
   ['lib/streamifiers/__init__.py', 'lib/streamifiers/all_one.py',
    'lib/streamifiers/host.py', 'lib/streamifiers/public_suffix.py'],
   [('grouping by key', 'lib/streamifiers/*.py: Streamifier.streamify')],
   'offline conservation and ordering check of the streams produced', NOTE,
   ['Streamifier.streamify']),
 P('P19', 'The sizes, ratios and tables printed are those of the bytes produced',
   'For every run of the tool, each report line states for its codec and stream (or '
   'TOTAL) the sum of the sizes of its outputs, the CPU time its compressions took, and '
   'the ratio, extreme ratios and deviation against the baseline chosen, in the order of '
   'the codecs. Each row of the '
   'TSV files holds the sizes of one message under the right codec, numbered through, and '
   'every message has its row.',
   ['inputs', 'configurations'],
   'all captures, codec sets, baselines, streamifiers and output options',
   TOOL_WHY, ['compare_compressors.py', 'lib/stream.py', 'lib/processors.py'],
   [('per-stream accounting', 'lib/stream.py: Stream.record_result, __add__')],
   'offline recomputation of every printed number from recorded output sizes', NOTE,
   ['standard output of compare_compressors.py', 'TSV files']),
 P('P20', 'A codec that returns other headers is reported, a faithful one never is',
   'Whenever the headers a codec decompresses differ in meaning from those it was given (a '
   'field lost, added, renamed or with another value), the tool reports a mismatch in that '
   'codec for that message, showing the difference when verbose and stopping there in '
   'debug mode. It never reports a codec whose headers mean the same, however the values '
   'of one field are ordered or spaced, and it warns once of codecs it cannot check '
   '(http1_gzip, known to be one, excepted).',
   ['inputs', 'configurations'],
   'all header sets and single or compound corruptions of them, all verbosity levels',
   'The tests compare a handful of dictionaries; a checker that stays silent makes every '
   'codec look right.', ['lib/processors.py'],
   [('comparison of header sets', 'lib/processors.py: compare_headers_impl, '
     'process_message')],
   'fault injection: stub codecs that corrupt, observed through the tool', NOTE,
   ['standard output and exit status of compare_compressors.py']),
 P('P25', 'Every codec gets exactly the messages of its stream, in order, once',
   'For every run, each codec chosen works on every stream with a fresh processor of the '
   'right direction and its own parameters, which is given each message of the stream '
   'once and in order, without the connection-level fields (those the Connection field '
   'names included), and decompresses exactly what it compressed. So the size of a message '
   'in a run is the one it has when that codec works on that stream alone.',
   ['inputs', 'configurations', 'histories'],
   'all captures, codec sets, parameters and streamifiers', TOOL_WHY,
   ['compare_compressors.py', 'lib/processors.py', 'compressor/__init__.py',
    'compressor/http1/__init__.py'],
   [('one processor per codec, direction and stream',
     'lib/processors.py: Processors.get_processors, process_session'),
    ('hop-by-hop filter', 'lib/processors.py: Processors.filter_headers')],
   'recording stub codecs, their logs compared with the capture', NOTE,
   ['Processor.__init__', 'Processor.compress', 'Processor.decompress']),

 # -- the C++ encoder (compressor/delta, compressor/delta_bohe) --
 P('P14', 'C++ encoder, Huffman code and bit buckets never misuse memory',
   'For every header history given to the C++ encoder of delta and delta_bohe under any '
   'limits, every frequency table and text given to the Huffman code, every sequence of '
   'bit bucket operations and every text given to the HTTP parser or SPDY/3 formatter, no '
   'memory is read or written out of bounds, after it is freed or before it is set. No '
   'undefined operation is executed and nothing is leaked once the objects are gone.',
   ['inputs', 'histories', 'configurations'],
   'all header histories with evictions and changing limits, all frequency tables, all '
   'operation sequences on bit buckets, all texts', CPP_WHY,
   [D + f for D in ('compressor/delta/', 'compressor/delta_bohe/') for f in
    ('spdy4_headers_codec.cc', 'bit_bucket.h', 'huffman.h', 'trivial_http_parse.h')],
   [('entries referenced from groups, keys and the recency list',
     'compressor/delta*/spdy4_headers_codec.cc: SPDY4HeadersCodecImpl')],
   'AddressSanitizer, UBSan, LeakSanitizer, debug containers and valgrind memcheck', NOTE,
   ['sanitizer reports of the driver built from the sources']),
 P('P15', 'C++ bit buckets and Huffman codes return exactly what was stored',
   'For every sequence of stores, reads, consumes and clears, a C++ bit bucket returns '
   'the bits stored and not yet read, in order, reports how many bits and bytes there '
   'are, and refuses to read more. For every frequency table (also a second one given to '
   'the same object), the Huffman code is a prefix code of least total length, and every '
   'text encoded decodes to itself, with or without the end symbol.',
   ['inputs', 'histories'],
   'all operation sequences, all frequency tables whose code fits 32 bits, all texts',
   CPP_WHY, ['compressor/delta/bit_bucket.h', 'compressor/delta/huffman.h',
             'compressor/delta_bohe/bit_bucket.h', 'compressor/delta_bohe/huffman.h'],
   [('bit pointers of writer and reader', 'compressor/delta*/bit_bucket.h: BitBucket'),
    ('tree, code table and decode branches', 'compressor/delta*/huffman.h: Huffman')],
   'model-based monitor over logs of random operation sequences', NOTE,
   ['BitBucket', 'Huffman']),
 P('P16', 'The C++ HTTP text parser reads exactly the frames written',
   'For every list of requests and responses written in the text format of the HAR '
   'translator, the C++ parser returns the same frames in the same order, each with the '
   'same lines in order, whether read from a stream, a file or a translator it starts. '
   'Text in which a line has no separator is refused, naming that line.',
   ['inputs'], 'all lists of frames with any keys and values the format can hold, and '
   'texts with a misformatted line', CPP_WHY,
   ['compressor/delta/trivial_http_parse.h', 'compressor/delta_bohe/trivial_http_parse.h'],
   [('line splitting state', 'compressor/delta*/trivial_http_parse.h: TrivialHTTPParse')],
   'offline comparison of parsed frames with those written', NOTE,
   ['TrivialHTTPParse::ParseFile', 'TrivialHTTPParse::ParseStream']),
 P('P23', 'C++ delta encoder: a receiver of its frames gets exactly the headers',
   'For every sequence of header sets given to the C++ encoder of delta or delta_bohe, '
   'under any byte and entry limits, a receiver that starts from the published defaults '
   'and executes the operations on the wire, evicting by the same limits, obtains for '
   'each frame exactly the names and values encoded. The state the encoder reports stays '
   'within its limits and equals what it holds.',
   ['inputs', 'histories', 'configurations'],
   'all header histories with any header group, and all limits of bytes and entries',
   CPP_WHY, ['compressor/delta/spdy4_headers_codec.cc',
             'compressor/delta_bohe/spdy4_headers_codec.cc'],
   [('table, recency list and groups follow the operations sent',
     'compressor/delta*/spdy4_headers_codec.cc: SPDY4HeadersCodecImpl')],
   'reference receiver written from the wire format, run over recorded frames', NOTE,
   ['SPDY4HeadersCodec::OutputCompleteHeaderFrame', 'SPDY4HeadersCodec::CurrentStateSize']),
 P('P24', 'C++ SPDY/3 formatter: its frames inflate to exactly the header block',
   'For every sequence of header sets, the SPDY/3 formatter of the C++ sample program '
   'produces control frames with the right type, stream number and length, whose '
   'contents, inflated in order with the SPDY/3 dictionary, are exactly the name/value '
   'block of that header set.',
   ['inputs', 'histories'], 'all header sets and histories that fit a SPDY/3 frame',
   CPP_WHY, ['compressor/delta/spdy4_headers_sample.cc',
             'compressor/delta_bohe/spdy4_headers_sample.cc'],
   [('one deflate stream over all frames',
     'compressor/delta*/spdy4_headers_sample.cc: SPDY3Formatter')],
   'independent inflation and parsing of the recorded frames', NOTE,
   ['SPDY3Formatter']),
 P('P30', 'C++ sample program: its summary states what its encoders did',
   'For every list of captures with a request that is not empty, the C++ sample program '
   'encodes all requests of all captures, in order and over and over, with one delta and '
   'one SPDY/3 encoder until the time is over, and ends well. The summary of each states '
   'the number of rounds and frames, the time taken, the bytes of the headers and those '
   'of the frames produced, and the rates and ratio that follow from them.',
   ['inputs', 'histories', 'schedules'],
   'all captures the translator writes as text, and any course of the clock',
   CPP_WHY, ['compressor/delta/spdy4_headers_sample.cc',
             'compressor/delta_bohe/spdy4_headers_sample.cc'],
   [('sums over all rounds, divided by the rounds',
     'compressor/delta*/spdy4_headers_sample.cc: DoSPDY4CoDec, DoSPDY3CoDec, PrintSummary')],
   'the printed summary against an account of the same frames and of the clock', NOTE,
   ['main of spdy4_headers_sample']),

 # -- codecs without a decompressor --
 P('P21', 'Deflate codecs: the outputs are one stream that inflates to the messages',
   'For every sequence of header sets given to one spdy3 (with or without the '
   'dictionary), http1_gzip or http1_huffman compressor, a receiver that inflates the '
   'outputs in order obtains, from each output alone with those before it, exactly the '
   'header block of that message. A message repeated while within the window takes only '
   'a small fraction of its size (except with http1_huffman, which keeps no history).',
   ['inputs', 'histories', 'configurations'],
   'all header sets and histories, requests and responses',
   CODEC_WHY, ['compressor/spdy3/__init__.py', 'compressor/http1_gzip/__init__.py',
               'compressor/http1_huffman/__init__.py', 'compressor/spdy_dictionary.py',
               'compressor/__init__.py'],
   [('one deflate stream per processor, flushed after each message',
     'compressor/spdy3/__init__.py: Processor.compress')],
   'independent inflation and parsing of recorded sessions', NOTE,
   ['Processor.compress']),
 P('P22', 'bohe: its frames hold every header exactly once, in the published format',
   'For every header set given to the bohe compressor, a receiver of the format reads '
   'from the output each header exactly once, by number or by name (up to 127 '
   'characters), with the right flags; untyped values exactly, and typed ones (dates, '
   'numbers, methods, tags, accept lists, cache control, cookies, P3P) with the meaning '
   'their encoding defines.',
   ['inputs'], 'all header sets with values the typed encoders are defined for',
   CODEC_WHY, ['compressor/bohe/__init__.py', 'compressor/bohe/bohe.py',
               'compressor/bohe/bit_bucket.py', 'compressor/bohe/huffman.py'],
   [('registered numbers, flags, 22 bit length, typed or Huffman coded value',
     'compressor/bohe/__init__.py: Processor.compress')],
   'reference receiver written from the format, run over recorded frames', NOTE,
   ['Processor.compress']),
 P('P28', 'fork: the program gets every message whole, its answer is the output',
   'For every sequence of header sets the fork codec writes to the program it was given '
   '(one process per stream) the HTTP/1 text of each message, in UTF-8, whole, once, in '
   'order and nothing else, without holding any of it back. It returns as the '
   'compressed message exactly the bytes of the program\'s answer, however the program '
   'cuts its writes: the lines up to a blank one or, with "bin", as many bytes as the '
   'native 64 bit size before them says.',
   ['inputs', 'histories', 'schedules'],
   'all histories; programs that read a whole message before they answer it',
   CODEC_WHY, ['compressor/fork/__init__.py', 'compressor/__init__.py'],
   [('write the message, flush, read one framed answer',
     'compressor/fork/__init__.py: Processor.compress')],
   'recorder program that logs what reaches it, compared with the messages sent', NOTE,
   ['Processor.compress']),
 P('P29', 'The graphs page draws every message of every codec where its size says',
   'For every pair of TSV files the tool writes for at least one message, whichever file '
   'arrives first, the page display_tsv.html makes one drawing each, titled Requests and '
   'Responses, without an error. In it every codec has one line in a colour of its own, '
   'labelled with its name at its last point, which passes for each message through the '
   'place of its number and size on the axes; every run of messages of one stream is marked '
   'with the name of the stream where it begins.',
   ['inputs', 'configurations', 'schedules'],
   'all tables as the tool writes them: any number of codecs and messages, sizes equal, '
   'zero or large, streams that come back; files arriving in either order',
   'No test runs the page at all.', ['display_tsv.html', 'lib/stream.py'],
   [('read the table, one line per column that is not num or name',
     'display_tsv.html: display_tsv')],
   'the script of the page run in node against a recording stand-in for d3; checker over '
   'the recorded drawing', 'Trusts the stand-in for d3 version 3 in mon/node/page.js; what a '
   'browser would paint from the recorded elements is not looked at.',
   ['d3.tsv', 'svg elements']),
 P('P31', 'delta2 shows the frames it sends, and counts the letters in them',
   'For every history of requests and responses in a process, the letter counts delta2 '
   'keeps for each of the two are those of the names and values sent as text in the frames '
   'so far, with one end per text, and are printed as the table of all 257 symbols. At '
   'verbosity 5 it prints for each message the operations sent, with their indices and '
   'texts, and the bytes of the whole frame in hexadecimal with their characters; below, it '
   'prints nothing.',
   ['inputs', 'histories', 'configurations'],
   'all histories (one or several frames per message), options and verbosities',
   'No test runs the trace or the counts.',
   ['compressor/delta2/spdy4_codec_impl.py', 'compressor/delta2/word_freak.py'],
   [('letters counted per direction', 'compressor/delta2/spdy4_codec_impl.py: Stats.Process'),
    ('trace of a frame', 'compressor/delta2/spdy4_codec_impl.py: SerializeInstructions')],
   'standard output and letter counts recorded after each message, compared with the '
   'operations an independent receiver reads from the frame', 'Trusts the receiver P09 uses; '
   'the process-wide object g_stats is read for the counts.',
   ['standard output', 'g_stats.wf']),
 P('P26', 'Every codec loads by name and takes any history, deterministically',
   'Every codec the repository ships loads by its name, and compresses every sequence of '
   'header sets, requests or responses, empty or large, without an error, without hanging '
   'and without changing the headers it was given. What it sends depends on the messages '
   'it has seen alone: two compressors of one codec that got the same messages give the '
   'same bytes, used in turns or one after the other, at '
   'any verbosity.',
   ['inputs', 'histories', 'schedules'],
   'all histories within the limits of the formats (64 KB frames for http2, headerdiff '
   'and hyper_hpack, 255 lines for headerdiff, well-formed values '
   'of typed headers for the bohe codecs)',
   CODEC_WHY, ['compressor/*/__init__.py', 'compressor/__init__.py'],
   [('one Processor per stream, without shared state', 'compressor/*/__init__.py: '
     'Processor')],
   'crash, hang and mutation monitor; twin compressors compared byte for byte', NOTE,
   ['Processor']),
 P('P27', 'delta_bohe, delta2_bohe: the frames sent determine every message',
   'For every sequence of header sets given to delta_bohe or delta2_bohe, a receiver that '
   'replays the operations of the frames under the same limits (64 KB and 1024 values; '
   '16 KB, 1024 entries and a table per host group) finds each reference in its tables, '
   'no header stored that is in them already, and reads as each message what the toggles leave in the header group and what is '
   'stored: exactly the headers given, each once. Values are exact, those of typed headers '
   '(dates, numbers, methods, tags, cookies, cache control) have the meaning their '
   'encoding defines.',
   ['inputs', 'histories'],
   'all histories whose typed values have encodings that end by themselves (accept lists, '
   'P3P and several cookies in one Set-Cookie have not)',
   CODEC_WHY, ['compressor/delta_bohe/*.py', 'compressor/delta2_bohe/*.py'],
   [('toggles, then clones and stores with evictions, then renumbering',
     'compressor/delta*_bohe/spdy4_codec_impl.py: MakeOperations')],
   'reference receivers written from the formats, run over recorded frames', NOTE,
   ['Processor.compress']),
]
NOT_APPLICABLE = []
