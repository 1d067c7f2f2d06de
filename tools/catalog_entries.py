TECHNIQUE = {}

LIM = ('Seeded search, not proof: a violation that needs a history the generator '
       'does not reach stays unseen. ')

prop('C01', 'http2 delivers every header set exactly, under any lag and table size',
     'Whatever header sets an http2 encoder is given and however far the decoder '
     'of the same connection lags behind it, each frame decodes, in order, to '
     'exactly the header set it was made from (same fields, same items per field), '
     'without an exception and in a finite number of steps. '
     'After a reconnection with fresh endpoints the same holds again.',
     ['schedules', 'inputs', 'histories', 'configurations', 'crash_points'],
     SCHED + ' (table size 0 to 8192 bytes and default; values of bytes 1-255 up '
     'to 70,000 long; up to 130 fields in one message).' + DOMAIN,
     EXISTING,
     ['compressor/http2'],
     [('reference set, table insertion, substitution and eviction in step at both '
       'ends', 'compressor/http2')],
     ['Processor.compress and Processor.decompress of two separate instances'],
     LIM + 'Real encoder and decoder; the wire is a simulated FIFO. Trusts the '
     'comparison of header sets, which is the tool\'s own published one.')

prop('C02', 'headerdiff delivers every header set exactly, with every option',
     'Whatever header sets a headerdiff encoder is given, with any combination of '
     'its options (buffer, delta, delta_type, huffman, deflate), each frame decodes '
     'in order to exactly the header set it was made from, without an exception '
     'and in a finite number of steps, however far the decoder lags behind.',
     ['schedules', 'inputs', 'histories', 'configurations', 'crash_points'],
     SCHED + ' (buffer 0 to 32768; values of bytes 1-255; at most 250 header items '
     'per message, which is all its frame can count).' + DOMAIN,
     EXISTING, ['compressor/headerdiff'],
     [('header table replicated by indexing rules at both ends',
       'compressor/headerdiff')],
     ['Processor.compress and Processor.decompress of two separate instances'],
     LIM + 'Real encoder and decoder; the wire is a simulated FIFO.')

prop('C03', 'delta2 delivers every header set exactly, with every option',
     'Whatever header sets a delta2 encoder is given, with any combination of its '
     'options (sizes, entry counts, header-group and index options), each result '
     'decodes in order to exactly the header set it was made from, without an '
     'exception and in a finite number of steps, however far the decoder lags '
     'behind, how many header groups (hosts) are in use and how much was evicted.',
     ['schedules', 'inputs', 'histories', 'configurations', 'crash_points'],
     SCHED + ' (max_byte_size 0 to 20000, max_entries 0 to 1000; values of bytes '
     '1-255 up to 140,000 long; up to 300 fields in one message).' + DOMAIN,
     EXISTING, ['compressor/delta2'],
     [('LRU storage with two indices, kept in step by replaying the same '
       'operations', 'compressor/delta2')],
     ['Processor.compress and Processor.decompress of two separate instances'],
     LIM + 'Real encoder and decoder; the wire is a simulated FIFO.')

prop('C04', 'delta delivers every header set exactly, with every storage limit',
     'Whatever header sets a delta encoder is given, under any storage limits, each '
     'result decodes in order to exactly the header set it was made from, without '
     'an exception and in a finite number of steps, however far the decoder lags '
     'behind, how many header groups (hosts) are in use and how much was evicted.',
     ['schedules', 'inputs', 'histories', 'configurations', 'crash_points'],
     SCHED + ' (max_byte_size 0 to 2000 and default, max_entries 0 to 200 and '
     'default; values of bytes 1-255 up to 140,000 long).' + DOMAIN,
     EXISTING, ['compressor/delta'],
     [('key/value storage and header groups mutated by the same operations at both '
       'ends', 'compressor/delta')],
     ['Processor.compress and Processor.decompress of two separate instances'],
     LIM + 'Real encoder and decoder; the wire is a simulated FIFO.')

prop('C05', 'simple delivers every header set exactly, with every option',
     'Whatever header sets the simple codec is given, with any combination of its '
     'options (huffman, seven, date, max_entries), each result decodes in order to '
     'exactly the header set it was made from, without an exception and in a finite '
     'number of steps, however far the decoder lags behind.',
     ['schedules', 'inputs', 'histories', 'configurations', 'crash_points'],
     SCHED + '; values are printable ASCII, dates in any of the formats met in '
     'practice included.' + DOMAIN,
     EXISTING, ['compressor/simple', 'compressor/__init__.py'],
     [('previous-message state at both ends; reversible encodings of dates and '
       'text', 'compressor/simple')],
     ['Processor.compress and Processor.decompress of two separate instances'],
     LIM + 'Real encoder and decoder; the wire is a simulated FIFO; bitarray is a '
     'stand-in on the Python 2 interpreter.')

prop('C06', 'http1 and hyper_hpack deliver every header set exactly',
     'Whatever header sets the http1 baseline or hyper_hpack is given, each result '
     'decodes in order to exactly the header set it was made from, without an '
     'exception, however far the decoder lags behind the encoder.',
     ['schedules', 'inputs', 'histories', 'crash_points'],
     SCHED + '; values are printable ASCII; header lists up to 64 KB.' + DOMAIN,
     EXISTING, ['compressor/http1', 'compressor/hyper_hpack',
                'compressor/__init__.py'],
     [('text formatting and parsing that undo each other', 'compressor/__init__.py'),
      ('hpack connection state at both ends', 'compressor/hyper_hpack')],
     ['Processor.compress and Processor.decompress of two separate instances'],
     LIM + 'Real codecs and the real hpack library.')

prop('C07', 'zlib codecs: each message can be read as soon as it was sent',
     'For http1_gzip, http1_huffman and spdy3, every compressed message, appended to '
     'what the connection carried before it and inflated by an independent zlib '
     'stream (with the SPDY/3 dictionary where the option says so), yields at once, '
     'without waiting for a later message, one whole message holding exactly the '
     'header set it was made from.',
     ['inputs', 'histories', 'configurations', 'crash_points'],
     'every sequence of header sets on every number of interleaved connections, with '
     'reconnections at any point; values are printable ASCII up to 140,000 long.'
     + DOMAIN,
     'these codecs have no decoder and no existing test; even the tool itself only '
     'looks at the length of what they produce',
     ['compressor/http1_gzip', 'compressor/http1_huffman', 'compressor/spdy3',
      'compressor/spdy_dictionary.py', 'compressor/__init__.py'],
     [('one compression context per connection, flushed per message',
       'compressor/spdy3')],
     ['the bytes Processor.compress returns'],
     LIM + 'The receiver is an independent inflater and parser (sim/exec/zref.py), '
     'trusted together with zlib.')

prop('C08', 'compression state stays within the budget it was configured with',
     'However long a connection of http2, headerdiff, delta or delta2 lives and '
     'whatever header sets it carries, the state its encoder and its decoder keep '
     'stays bounded by the configured table size, buffer, max_byte_size and '
     'max_entries (plus working space for the largest single message).',
     ['inputs', 'histories', 'configurations'],
     'every sequence of header sets, of any length, for table budgets from 0 to '
     '20,000 bytes and from 0 to 1000 entries, including lives in which hardly '
     'any field, and hardly any field name, comes twice; headerdiff alone is '
     'given a fixed set of names, because by its design it never forgets one',
     'no existing test keeps a connection alive or measures what an endpoint '
     'keeps; only the LRU list is filled, with a few entries',
     ['compressor/http2', 'compressor/headerdiff', 'compressor/delta',
      'compressor/delta2'],
     [('eviction on insertion', 'compressor/delta2'),
      ('eviction on insertion', 'compressor/delta')],
     ['objects reachable from an endpoint between messages, compared with a fresh '
      'endpoint'],
     LIM + 'The bound tested is a small multiple of the budget, so growth within '
     'that factor is not reported.')

prop('C09', 'http2 and headerdiff interoperate with an independent peer',
     'A decoder written independently from the documented wire format understands '
     'every frame an http2 or headerdiff encoder emits as exactly the header set '
     'that was sent, and every legal frame sequence an independent encoder chooses '
     '(any mix of representations, in any order of use) is decoded by the '
     'repository\'s decoder to exactly the header set that was meant.',
     ['inputs', 'histories', 'configurations', 'schedules'],
     SCHED + '; on the decoder side also every legal choice of representation: '
     'indexed, literal with no, incremental or substitution indexing, delta '
     'encoding.' + DOMAIN,
     'no existing test looks at the wire; and the tool itself only runs the '
     'encoder and decoder of the repository against each other, so an error both '
     'share, or a representation its encoder never picks, goes unseen',
     ['compressor/http2', 'compressor/headerdiff'],
     [('the wire format of both drafts', 'compressor/http2')],
     ['bytes between Processor.compress and Processor.decompress'],
     LIM + 'Trusts the independent peer (sim/exec/refdec.py). headerdiff\'s huffman '
     'option is not covered on this side.')

prop('C10', 'connections in one process never influence one another',
     'The bytes a connection\'s encoder emits and the messages its decoder yields '
     'are the same whether the connection lives alone or interleaved with any other '
     'connections, of any codec, in the same process.',
     ['schedules', 'histories', 'configurations', 'crash_points'],
     'every interleaving of two to four connections of any codecs and options, with '
     'connections dropped and replaced at any point',
     'no existing test has two connections alive at once; sharing through class '
     'attributes, default arguments or module state shows only when two live at '
     'once',
     ['compressor', 'lib/processors.py'],
     [('all state in the Processor instance', 'compressor')],
     ['bytes from Processor.compress and messages from Processor.decompress, '
      'compared with a solo run'],
     LIM + 'Covers http1, http1_gzip, http1_huffman, spdy3, hyper_hpack (CPython 3) '
     'and http2, headerdiff, delta, delta2, delta_bohe, simple (Jython).')

prop('C11', 'damaged frames end in bounded time and poison no other connection',
     'A frame that is cut short or damaged makes its decoder fail or return in a '
     'bounded number of steps, and leaves every other connection, and the '
     'connection that replaces the damaged one, delivering every header set '
     'exactly.',
     ['fault_sequences', 'schedules', 'histories', 'crash_points'],
     'every cut point, every changed byte and every swap of neighbouring bytes of a '
     'frame at any point in the life of http2, headerdiff, delta, delta2 and simple connections that are '
     'interleaved with healthy ones',
     'no existing test decodes a damaged frame',
     ['compressor/http2', 'compressor/headerdiff', 'compressor/delta',
      'compressor/delta2', 'compressor/simple'],
     [('no state outside the Processor instance; parsers bounded by their input',
       'compressor')],
     ['Processor.decompress of the damaged and of the healthy connections'],
     LIM + 'Says nothing about what a damaged frame decodes to.')

prop('C12', 'a repeated header set stays cheap however long the connection lives',
     'On an http2, delta2, delta or simple connection a header set that fits the '
     'configured table with room to spare, sent four times in a row, settles at '
     'the cost it has on a new connection (within four bytes and two per field), '
     'whatever was sent, stored and evicted before: no history takes capacity away '
     'from the compression state or stops it from taking in new headers.',
     ['histories', 'inputs', 'configurations', 'schedules'],
     'every sequence of header sets (many names, many hosts, constant eviction), '
     'every option, table sizes from 250 bytes (700 for http2) up; the repeated set '
     'takes at most half of the table',
     'no existing test runs a codec; the loss of capacity shows only after '
     'hundreds of messages',
     ['compressor/http2', 'compressor/delta2', 'compressor/delta',
      'compressor/simple'],
     [('size accounting, eviction and indexing of the compression state',
       'compressor')],
     ['length of what Processor.compress returns'],
     LIM + 'Sizes are compared with those of a new connection in the same run, not '
     'with recorded numbers. headerdiff is left out: by design it stops indexing '
     'when its table is full of headers it cannot replace.')

TOOLTEST = ('no existing test runs the comparison tool, its HAR reader, its '
            'streamifiers or its accounting at all')
TOOLREAL = (LIM + 'The whole tool runs for real in one process; codecs, clocks and '
            'the raw file layer are simulated. ')

prop('T01', 'every corrupted header set is reported, and no other',
     'When a codec\'s decoded header set differs from the one it was given (ignoring '
     'only order, surrounding blanks, repeated items, and the version, status-text '
     'and connection fields) the tool reports a mismatch for that codec, once per '
     'such message, and at higher verbosity shows each differing item on the side '
     'where it was found; it never reports one otherwise. With -d it stops at the first mismatch with a failing '
     'exit status and no results; a codec that cannot decode is announced as '
     'unchecked, and one that raises never leads to a normal end.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'every HAR content, every set and order of codecs, every way and every message '
     'in which a codec corrupts what it carries, every verbosity',
     TOOLTEST,
     ['lib/processors.py', 'compare_compressors.py'],
     [('comparison of normalised header sets', 'lib/processors.py'),
      ('debug stop', 'lib/processors.py')],
     ['what the tool prints, and its exit status'],
     TOOLREAL + 'Corruptions are drawn from 13 kinds, harmless differences from 4.')

prop('T02', 'reported sizes, ratios and totals are those of the bytes produced',
     'For every run the tool completes, the size, ratio, minimum, maximum and '
     'standard deviation it prints per codec, for each session and for the request '
     'and response totals, and every row of the TSV files, are exactly those that '
     'follow from the lengths of what each codec returned for each message, '
     'compared with the baseline codec: nothing lost, counted twice, or attributed '
     'to another codec, session, message or direction.',
     ['inputs', 'histories', 'configurations'],
     'every HAR content and number of files, every set and order of codecs with or '
     'without parameters, every baseline, with or without parameters, '
     'streamifier, verbosity and TSV prefix',
     TOOLTEST,
     ['lib/stream.py', 'lib/processors.py', 'compare_compressors.py'],
     [('per-session result lists, merged into totals', 'lib/stream.py'),
      ('ratio to the baseline result of the same message', 'lib/processors.py')],
     ['printed summaries and TSV files'],
     TOOLREAL + 'Real codecs are re-run alone on the reference sessions to know what '
     'they should have produced.')

prop('T03', 'reported time is the CPU time spent compressing, whatever clocks do',
     'The time the tool reports for a codec, per session and in total, is the user '
     'plus system CPU time consumed while that codec compressed, and nothing else: '
     'not decompression, other codecs, child processes or elapsed time, and however '
     'the wall clock jumps no reported size or ratio changes.',
     ['schedules', 'histories', 'fault_sequences', 'configurations'],
     'every amount of user, system and child CPU time used at every call, every '
     'jump of the wall clock between any two reads, every set of codecs',
     TOOLTEST,
     ['lib/processors.py', 'lib/stream.py'],
     [('CPU clock read around compress only', 'lib/processors.py')],
     ['the time column of the printed summaries'],
     TOOLREAL + 'CPU time used by the tool itself between the two clock reads is '
     'taken as zero.')

prop('T04', 'results are written completely or the run visibly fails',
     'If the tool ends normally, everything it was asked to write (printed results, '
     'and with -t the request and response TSV files) is complete and correct; when '
     'a write, open or close fails at any point, or the disk fills, the run does '
     'not end normally. Writes that are merely split into pieces change nothing.',
     ['fault_sequences', 'crash_points', 'inputs'],
     'every failing or short write, every full-disk point, failing open and failing '
     'close of either TSV file, every failing call of the output function',
     TOOLTEST,
     ['compare_compressors.py', 'lib/stream.py'],
     [('explicit close of every TSV file, errors not caught',
       'compare_compressors.py')],
     ['the TSV files on disk after the run, and how the run ended'],
     TOOLREAL + 'Faults are injected below Python\'s own buffering.')

prop('T05', 'an unreadable capture never yields results',
     'When any of the given HAR files is missing, unreadable part way, cut short, '
     'not JSON or not a HAR, the tool ends with a failure before it prints any '
     'result or writes any TSV file, and names the file when it could not be read '
     'or parsed. Reads that merely return in small pieces change no result.',
     ['fault_sequences', 'crash_points', 'inputs'],
     'every cut point, every read error position, every splitting of the reads, '
     'failing opens, for any of several files in any position',
     TOOLTEST,
     ['lib/harfile.py', 'compare_compressors.py'],
     [('all files read and parsed before anything is processed',
       'compare_compressors.py'),
      ('diagnostic and failing exit', 'lib/harfile.py')],
     ['exit status, standard error, printed results, files written'],
     TOOLREAL + 'A capture that is damaged but still a well-formed HAR is outside '
     'the property.')

prop('T06', 'every captured message reaches every codec once, intact and in order',
     'Each HTTP(S) request and response of the given HAR files is handed to every '
     'codec exactly once, in capture order within its session, with exactly its '
     'captured header fields (names lower-cased, repeated fields joined in order, '
     'host, method, path with query, scheme and status derived from the entry; '
     'only hop-by-hop fields named by Connection, version and status text left out), '
     'in the session the chosen streamifier assigns it to, whatever another codec '
     'did to the dictionary it was given. Entries with other URL schemes are skipped '
     'as a pair.',
     ['inputs', 'histories', 'configurations'],
     'every HAR content and number of files, each streamifier (one stream, per '
     'host, per public suffix), every set of codecs; Connection options in any '
     'case and any number of fields; at most one Host field per request',
     TOOLTEST,
     ['lib/harfile.py', 'lib/streamifiers', 'lib/processors.py',
      'compare_compressors.py'],
     [('normalisation of entries', 'lib/harfile.py'),
      ('grouping into streams', 'lib/streamifiers'),
      ('a fresh filtered dictionary per codec', 'lib/processors.py')],
     ['arguments of Processor.compress'],
     TOOLREAL + 'The reference reading of a HAR entry is written independently in '
     'sim/exec/tool_exec.py; publicsuffix is trusted.')

prop('T07', 'every session starts from fresh contexts and is judged alone',
     'For every session the tool uses, per codec, one new compression context of '
     'that session\'s direction, created with the parameters given on the command '
     'line, for all of its messages and for no other session; so the results of a '
     'session are the same as if that session were compressed alone.',
     ['histories', 'configurations', 'inputs'],
     'every number and order of sessions and files, every set of codecs and '
     'parameters, every streamifier',
     TOOLTEST,
     ['lib/processors.py', 'compare_compressors.py'],
     [('processors made anew for each session', 'lib/processors.py')],
     ['construction and calls of Processor objects; per-session results'],
     TOOLREAL)

prop('T08', 'the same run gives the same results every time',
     'For the same command line and captures the tool finds the same sessions in '
     'the same order, hands every codec the same messages in the same order, and '
     'reports the same sizes, ratios, statistics and TSV rows, in whichever process '
     'it runs and whatever ran there before: nothing depends on hash order, the '
     'clocks, the time zone, the random generator or memory addresses.',
     ['schedules', 'histories', 'inputs'],
     'every command line and capture; Python 3 with its hash randomisation; the '
     'time column is T03\'s',
     TOOLTEST,
     ['compare_compressors.py', 'lib', 'compressor/__init__.py',
      'codecs that run on Python 3'],
     [('order of fields in HTTP/1 text', 'compressor/__init__.py'),
      ('order of streams', 'lib/streamifiers'),
      ('order of fields and codecs', 'lib/processors.py')],
     ['printed results, TSV files and calls of codecs, compared between processes'],
     TOOLREAL)

prop('T09', 'the command gives complete results for whatever was captured',
     'Run as a command on readable HAR files that hold at least one HTTP(S) '
     'exchange between them, the tool ends normally and prints the complete results '
     'of every codec (and writes them with -t), whatever the exchanges are and '
     'however they are spread over the files, with every verbosity, streamifier and '
     'baseline, and whichever locales are installed, as long as no codec raises and '
     '-d is not given.',
     ['inputs', 'configurations'],
     'every command line of codecs that run on Python 3, every capture with at least '
     'one HTTP(S) exchange, files without any among the others; the en_US locale '
     'installed or not',
     TOOLTEST,
     ['compare_compressors.py', 'lib'],
     [('main: locale, output', 'compare_compressors.py'),
      ('summaries of sessions', 'lib/stream.py')],
     ['how the command ended; everything it printed, and the TSV files'],
     TOOLREAL)

prop('F01', 'the fork codec returns each child\'s whole answer or fails, never hangs',
     'However the operating system splits and delays the data on its pipes, the '
     'fork codec gives the child exactly the HTTP/1 text of each message and '
     'returns exactly the bytes the child answered to that message (up to the blank '
     'line in text mode, the announced number of bytes in binary mode). If the child '
     'cannot be started or dies at any point it raises instead of returning a '
     'result or waiting forever, and the sample child ends when the tool has gone.',
     ['schedules', 'crash_points', 'fault_sequences', 'inputs'],
     'every interleaving of the tool and up to three children, every splitting of '
     'the pipe data, pipe capacities from 1 byte to 64 KB, child death at every '
     'pipe operation, for children that read a whole message before they answer',
     'no existing test runs the fork codec or the sample program',
     ['compressor/fork', 'sample_exec_codec.py'],
     [('flush after each message; read loop until the delimiter or EOF',
       'compressor/fork')],
     ['Processor.compress, what the child reads and writes'],
     LIM + 'The codec and the sample program run for real; processes and pipes are '
     'simulated with one runnable thread at a time. A deadlock is detected by the '
     'scheduler, not by a clock.')

prop('F02', 'a comparison with child programs counts what the children of each session '
     'said',
     'When fork codecs take part in a comparison, every session (host or group of '
     'messages in one direction) is given to a child program of its own per fork '
     'codec, which hears exactly the messages of that session in order; the sizes '
     'in the summaries and TSV files are the lengths of its answers. If a child is '
     'lost the command does not report totals and does not end as if nothing had '
     'happened; it never waits forever; and children of finished sessions end, so '
     'that their number does not grow with the number of sessions.',
     ['schedules', 'crash_points', 'fault_sequences', 'inputs', 'configurations'],
     'whole invocations with one to three fork codecs next to others, up to 40 '
     'sessions, every splitting of pipe data and every interleaving, death of the '
     'child of any session at any pipe operation',
     'no existing test runs the fork codec, let alone the command with it',
     ['compare_compressors.py', 'lib/processors.py', 'compressor/fork'],
     [('new processors for every session', 'lib/processors.py'),
      ('child of a processor', 'compressor/fork')],
     ['terminal output, TSV files, end of the run; what each child reads and writes; '
      'the pipes the tool holds'],
     LIM + 'The tool, the fork codec and the sample program run for real; processes '
     'and pipes are simulated with one runnable thread at a time.')

BITTEST = ('bit_bucket_test, huffman_test and lrustorage_test store and read a few '
           'fixed sequences')

prop('B01', 'the Python bit buckets return exactly the bits stored, in order',
     'Whatever sequence of stores (bit strings of any length, 1-, 4-, 8-, 16-, 32-bit '
     'integers), reads, paddings, advances and clears is applied to a BitBucket, with '
     'the writer and the reader taking turns in any way, every read returns exactly '
     'the next stored bits at whatever alignment, the bit counts agree with what was '
     'stored and read, and a read of more bits than are left is refused and takes '
     'nothing. What one bucket returns can be stored in another unchanged.',
     ['histories', 'schedules', 'inputs'],
     'every history of a writer and a reader over up to three buckets, in each of '
     'the five copies of the class (delta, delta2, delta_bohe, delta2_bohe, bohe); '
     'bits beyond the stated count in a stored list are arbitrary; StoreBits22 of '
     'bohe and reads after an advance beyond the end are outside',
     BITTEST,
     ['compressor/delta2/bit_bucket.py', 'compressor/delta/bit_bucket.py',
      'compressor/bohe/bit_bucket.py'],
     [('byte list with a write offset and a read position',
       'compressor/delta2/bit_bucket.py')],
     ['return values of the Store, Get and counting methods'],
     LIM + 'Real classes against a plain list of bits. Sequential code: what is '
     'scheduled is which of writer and reader moves, and how far.')

prop('B02', 'Python Huffman coding returns every string, for every code and position',
     'For every frequency table over the 257 symbols, and for the tables that are '
     'shipped, a Huffman code can be built, and any string encoded with it into a '
     'BitBucket at any bit position, between other strings and integers, with or '
     'without the end symbol, decodes to exactly that string and leaves the reader '
     'right after it.',
     ['inputs', 'histories', 'configurations'],
     'every string of bytes, every frequency table (flat, geometric, Fibonacci-like, '
     'sparse, stepped), every order of writing and reading over up to two buckets; '
     'huffman.py of delta, delta2, delta_bohe and delta2_bohe (bohe has the same '
     'file as the latter)',
     BITTEST,
     ['compressor/delta2/huffman.py', 'compressor/delta/huffman.py',
      'compressor/delta2/bit_bucket.py', 'compressor/delta2/header_freq_tables.py'],
     [('code tree, canonical code table and bitwise decoding',
       'compressor/delta2/huffman.py')],
     ['EncodeToBB, Encode and DecodeFromBB'],
     LIM + 'The deprecated Huffman.Decode of the older copies is outside.')

prop('B03', 'the delta2 storage keeps its limits, its order and its numbering',
     'Under any history of reservations, stores, evictions, lookups and searches, '
     'LruStorage holds at most max_items entries and max_bytes bytes (a name shared '
     'by entries counted once), evicts the oldest first and no more than needed, '
     'numbers entries consecutively from the offset with wrap-around, finds each '
     'held entry under its number and nothing under any other, and finds the newest '
     'entry with the name and value, or else the newest with the name.',
     ['histories', 'inputs', 'configurations'],
     'every history of up to 80 events; limits from none to very small; numbers '
     'wrapping while entries are held (at most as many entries as numbers)',
     BITTEST,
     ['compressor/delta2/lrustorage.py'],
     [('ring, reference-counted strings, sequence numbers',
       'compressor/delta2/lrustorage.py')],
     ['LruStorage.Reserve, Store, PopOne, Lookup, FindKeyValEntries, byte_size'],
     LIM + 'Real classes against a list of entries.')

prop('B04', 'the C++ bit bucket returns exactly the bits stored and never overruns',
     'Whatever sequence of bit, integer, bit-string, byte and byte-aligned stores, '
     'reads, peeks, seeks and clears is applied to a C++ BitBucket, every read '
     'returns exactly the next stored bits, the counters and the byte contents agree '
     'with what was stored and read, a read of more bits than are left aborts '
     'instead of returning anything, and no access leaves the storage.',
     ['histories', 'schedules', 'inputs'],
     'every history of up to 120 events over one or two buckets, in both copies '
     '(delta, delta_bohe); seeks within the stored bits',
     BITTEST,
     ['compressor/delta/bit_bucket.h', 'compressor/delta_bohe/bit_bucket.h'],
     [('byte vector with bit offsets', 'compressor/delta/bit_bucket.h')],
     ['public members of BitBucket; AddressSanitizer'],
     LIM + 'Real header compiled from the current tree; one process per history.')

prop('B05', 'C++ Huffman coding returns every string, for every code and position',
     'For every frequency table over the 257 symbols, and for the tables that are '
     'shipped, a code of at most 32 bits per symbol is built, and any string encoded '
     'with it into a BitBucket at any bit position decodes from there to exactly '
     'that string, with or without the end symbol, without touching memory outside '
     'the bucket and in a finite number of steps.',
     ['inputs', 'histories', 'configurations'],
     'every string of bytes, every frequency table, any order of reading the strings '
     'back (the reader is placed at each string\'s first bit, because the decoder '
     'reads ahead of the string by design)',
     BITTEST,
     ['compressor/delta/huffman.h', 'compressor/delta_bohe/huffman.h',
      'compressor/delta/bit_bucket.h'],
     [('code tree limited to 32 bits, canonical codes, lookup tables of 8 bits',
       'compressor/delta/huffman.h')],
     ['Huffman::Init, Encode and Decode; AddressSanitizer'],
     LIM + 'Real headers compiled from the current tree; one process per history.')

prop('B06', 'the C++ capture reader returns every message of the stream',
     'TrivialHTTPParse::ParseStream, reading blocks of "name: value" lines, each '
     'ended by an empty line, returns 1 with the blocks as requests and responses by '
     'turns, in order, every name and value exactly and no message that is not in '
     'the stream, in whatever pieces the stream is delivered; where the stream breaks '
     'off it returns what came before the break; a line of another shape makes it '
     'return 0 with the messages before it; output lists that are in use make it '
     'return -1 and stay as they are; it never touches memory outside its input.',
     ['inputs', 'fault_sequences'],
     'every sequence of messages (names without line feed or second colon, values '
     'without line feed), every division of the stream into pieces, every point at '
     'which it ends, fails or is damaged',
     'no existing test reads a capture with it',
     ['compressor/delta/trivial_http_parse.h',
      'compressor/delta_bohe/trivial_http_parse.h'],
     [('requests and responses alternate at empty lines',
       'compressor/delta/trivial_http_parse.h')],
     ['TrivialHTTPParse::ParseStream; AddressSanitizer'],
     LIM + 'Real header compiled from the current tree; one process per history.')
