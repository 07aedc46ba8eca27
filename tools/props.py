# The properties; tools/gen.py writes properties.jsonl and MANIFEST.json from this and specs.py.
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, state=state, observe=observe))

BS = ['src/mg/core/bitstream.h', 'src/mg/core/bitstream.cpp']
prop('B01', 'Bits written to a stream read back identically',
     'Any sequence of fields (plain and little endian, 0 to 32 bits wide), alignments and raw blocks written to a bit stream is read back with the same values in the same order from what was stored. This holds whatever the sizes of the buffers of writer and reader and wherever flushes happened, and after a final alignment and flush the stored length is that of the written bits.',
     ['histories', 'inputs', 'configurations'], 'all field lists, all buffer sizes of both sides, all flush positions',
     'The existing tests read fixed memory and one fixed bit pattern; errors depend on how fields straddle the 32 bit shadow register, buffer refills and the end of the data.',
     BS, [('shadow register and refill', 'bitstream::fill_buffer, bitstream::fill_shadow'), ('flush and partial last byte', 'bitstream::flush_buffer')],
     'property-based round trip over generated field lists', 'Random search over field lists and buffer sizes with AddressSanitizer; no absence proof. Storage is an in-memory implementation of the repository\'s storage interface.')
prop('B02', 'A bit stream reader returns exactly the bits of its data',
     'Every operation of the reader (read, peek, signed read, skip, align, little endian read, raw read, seek, search for a code, position and remaining queries) returns what the same operation on the whole byte sequence returns, independent of buffer size and earlier operations. An operation that needs data past the end fails with the end-of-data error and never makes up bits, hangs, or touches memory outside its buffers.',
     ['histories', 'inputs', 'configurations'], 'all operation histories over all data and buffer sizes',
     'Tests sample two fixed patterns; wrong results need a particular alignment of field, refill boundary and end of data.',
     BS, [('fill and shadow logic', 'bitstream::read, bitstream::show, bitstream::fill_shadow'), ('seeking', 'bitstream::set_position'), ('end detection', 'bitstream::has_bytes, bitstream::end')],
     'model-based operation histories against a byte array model', 'Stateful random search with AddressSanitizer; reads on byte boundaries for raw access and seeks (the documented use).')
prop('B03', 'A bit stream writer stores exactly the bits it was given',
     'After any history of writes, little endian writes, alignments, skips, raw writes, flushes and seeks back to stored bytes, the stored data is the bit sequence those operations describe. Nothing outside the written range is stored or altered.',
     ['histories', 'inputs', 'configurations'], 'all operation histories and buffer sizes',
     'No test writes across a buffer boundary or rewrites after a seek; the failing cases depend on the exact bit offset at a flush.',
     BS, [('buffered writes', 'bitstream::write, bitstream::flush_buffer'), ('alignment', 'bitstream::align'), ('seek for rewriting', 'bitstream::set_position')],
     'model-based operation histories against a bit vector model', 'Stateful random search with AddressSanitizer; rewrites are whole bytes.')
prop('B04', 'Reading is independent of when asynchronous data arrives',
     'A bit stream over an asynchronous storage returns the same results as over a synchronous one, whatever the moments its reads complete, including the last partial read and the end notification. Waiting for data always ends when the data has been delivered.',
     ['schedules', 'histories'], 'all completion moments of reads relative to reader operations, over all operation histories',
     'Tests use one loop thread and whatever timing the machine gives; completions between two reader operations or after the end was seen are practically never sampled.',
     BS + ['src/mg/core/file.h'], [('buffer hand over from the completion callback', 'bitstream::buffer_read, ibitstream'), ('waiting for a pending read', 'bitstream::wait_read')],
     'schedule-controlled model-based testing', 'Completion moments are generated relative to reader operations (before, during the wait, later, delayed); instruction-level interleavings are left to the kernel.')
prop('B05', 'Copying a range between streams copies exactly that range',
     'Copying a byte range from one stream to another stores exactly those bytes, in order, at the destination position and nothing else, for any range, chunk size and combination of synchronous and asynchronous sides. When the copy returns, all of it has been handed over and no completion uses its buffers any more.',
     ['inputs', 'schedules', 'configurations'], 'all ranges, chunk sizes, sync/async combinations and completion timings',
     'No test runs the copy; failures need a range that is not a multiple of the chunk or a completion that comes after the return.',
     ['src/mg/core/bitstream.h', 'src/mg/core/file.h'], [('chunk loop', 'copy_stream')],
     'property-based differential test with generated completion timing', 'Random ranges, chunk sizes and completion delays, AddressSanitizer for late completions; storages complete in order. A failing storage write is outside the property: the interface has no failure path for it.')

FI = ['src/mg/core/file.h', 'src/mg/core/file.cpp']
prop('F01', 'Asynchronous file writes land at their positions, reads see them',
     'After an asynchronous file was closed, its content is the result of applying all accepted writes at their positions, whatever order the operating system executed them in. Reading through the asynchronous file delivers exactly the requested ranges of the content.',
     ['histories', 'schedules'], 'all sequences of seeks and writes, buffer sizes and execution orders of the operating system',
     'Tests write a few buffers in order; the thread pool hardly ever reorders them.',
     FI, [('position captured per request', 'cfile::write, uv_fs_write'), ('close waits for outstanding requests', 'cfile::close')],
     'model-based file histories with controlled OS completion order', 'The OS layer is interposed (pread/pwrite) so that the order and delay of operations are generated; one process, local file system.')
prop('F02', 'Reads complete once, in the order of the requests',
     'Every accepted asynchronous file request completes exactly once, and read completions reach the user in the order the reads were issued even when the operating system finishes them in another order or writes are mixed in. Each read completion carries the bytes of its own request.',
     ['schedules', 'histories'], 'all completion orders of outstanding requests',
     'Needs out-of-order completion of at least three outstanding requests, which tests cannot provoke.',
     FI, [('re-ordering queue of finished requests', 'uv_file_cb, file_base'), ('request objects', 'file_cb')],
     'schedule-controlled property test with interposed I/O', 'Delays that produce the completion orders are generated; up to the size of the thread pool requests overlap.')
prop('F03', 'File failures surface with their error code, nothing hangs',
     'When the operating system fails an asynchronous file operation (opening, reading, writing), the user gets an error carrying the system\'s error code, once: from the handler of the request, or from ending the loop. All other requests still complete, short transfers are reported with their length, and closing always returns.',
     ['fault_sequences', 'histories'], 'all positions and kinds of one or more injected failures and short transfers',
     'No test makes an operation fail after a successful open.',
     FI + ['src/mg/core/uvbase.h', 'src/mg/core/uvbase.cpp'], [('result check', 'uv_file_cb, UVCHECK'), ('propagation through the loop thread', 'uvloopthread::run, uvloopthread::check_exception')],
     'fault injection into generated file histories', 'Faults (errno values, short transfers) are injected into the interposed read/write/open calls at generated positions.')
prop('F04', 'All file back ends behave as one file',
     'Reading a file through the synchronous, the asynchronous and the memory back end gives the same results for the same operations, including positions, size and end of data. Seeking works for offsets beyond 4 GiB.',
     ['histories', 'configurations'], 'all reader histories, file sizes, positions (sparse files beyond 4 GiB) and back ends',
     'Tests read small files with one back end each.',
     FI, [('synchronous back end', 'sync_file_bitstream'), ('asynchronous back end', 'asynch_file_bitstream'), ('memory back end', 'fixed_memory_bitstream')],
     'differential property test between back ends', 'Same generated history on each back end and on the byte array model; big offsets use sparse files.')

TH = ['src/mg/core/thread.h', 'src/mg/core/thread.cpp']
prop('T01', 'Signals are neither lost nor invented',
     'A signal stays set until reset, releases every waiter, and is seen by a wait that starts later; a timed wait reports success only if the event was set, and fails only after its time has passed. Queries and waits by other threads never consume or hide a signal.',
     ['schedules', 'histories'], 'all interleavings of signal, reset, wait, timed wait and query from several threads',
     'Lost wake ups need a signal between the check and the wait of another thread; tests run one pairing.',
     TH, [('event state under its lock', 'signal_event::signal, signal_event::wait, signal_event::reset')],
     'stateful model test plus randomised thread schedules', 'Delays are injected at generated lock and condition calls; rare interleavings inside one call may be missed.')
prop('T02', 'The lock admits one thread and its owner again',
     'At most one thread is inside a section guarded by the lock; the owner can enter again, other threads are let in only after it left as often as it entered. A try never blocks and succeeds only when the lock is free or already owned; scoped use releases on every exit, including exceptions.',
     ['schedules', 'histories'], 'all interleavings of lock, try and unlock from several threads, all nesting depths',
     'Mutual exclusion failures are schedule dependent; the tests never nest or try the lock.',
     TH, [('recursive mutex', 'critical_section'), ('scoped lock', 'auto_lock')],
     'stateful model test plus randomised thread schedules', 'Observed by an owner word and an unprotected counter, under generated delays.')
prop('T03', 'Threads run once, stop on request and report their end',
     'A started thread runs its body exactly once on its own thread; a stop request is seen by the body at its next check and not before it was made. The thread reports being done only after the body finished and keeps reporting it; joining returns after that with all effects visible, also when repeated.',
     ['schedules', 'histories'], 'all timings of start, stop, query and join',
     'Tests start and join one thread.',
     TH, [('start, stop and done events', 'cthread::start, cthread::stop, cthread::is_done, cthread::join')],
     'property test over generated thread histories', 'Random timing with injected delays.')
prop('T04', 'A promise delivers its outcome once to the right handler',
     'A completed promise hands its value to the success handler or its error to the error handler, exactly once, whether the handler was attached before or after completion and from whichever thread. Along a chain, an error (also one thrown by a handler) goes to the next error handler; a default handler lets it surface at the caller.',
     ['schedules', 'histories', 'programs'], 'all chain lengths, handler sets and orders of attaching and completing, on one and two threads',
     'Tests attach one handler in one order.',
     ['src/mg/promises.h'], [('state hand over under a lock', 'CPromise::set_cb, CPromise::set_er, CPromise::call_cb, CPromise::call_er'), ('chaining', 'CPromise::forward')],
     'stateful model test plus randomised two-thread races', 'Token model for one thread; the two-thread race relies on generated delays.')
prop('T05', 'A loop thread finishes its work and reports its failure',
     'Everything handed to a loop thread before its end is requested has completed when ending returns. An exception in a completion ends the thread and comes out of ending it, once, with its error number.',
     ['schedules', 'histories', 'fault_sequences'], 'all numbers and kinds of operations, ending moments and throwing completions',
     'Tests end the loop after everything is idle; the loss needs the end request between handing over and the loop\'s next turn.',
     ['src/mg/core/uvbase.h', 'src/mg/core/uvbase.cpp'], [('final run of the loop', 'uvloopthread::run'), ('exception hand over', 'uvloopthread::check_exception, uvloopthread::end')],
     'property test over generated loop histories', 'Random timing with injected delays; work handed over under the loop lock.')

prop('M01', 'Shared resources are released exactly once, after the last use',
     'An object owned by shared handles lives as long as any handle refers to it and is released exactly once after the last one is gone, with its cleanup run once before. This holds for copies, assignments (also to itself and from a handle inside the owned object), dropped handles, and handles copied and dropped by several threads.',
     ['histories', 'schedules'], 'all histories of handle operations, on one and several threads',
     'Tests copy a handle once or twice on one thread.',
     ['src/mg/cresource.h'], [('reference count', 'CResource'), ('release', 'CResource::Release')],
     'stateful model test with lifetime accounting, randomised threads', 'Every object counts its constructions, cleanups and deletions; AddressSanitizer observes use after release.')
prop('M02', 'The byte buffer behaves as a byte sequence with a cursor',
     'A growing byte buffer holds exactly the bytes that were added or copied in, at the positions they were put, whatever growth happened in between. Reads return the bytes at the cursor and never more than remain.',
     ['histories', 'inputs'], 'all histories of buffer operations and sizes',
     'Growth and partial reads need particular sizes relative to the capacity.',
     ['src/mg/cbuffer.h'], [('growth', 'CBuffer::size, CBuffer::add'), ('cursor', 'CBuffer::ReadBuffer')],
     'model-based operation histories', 'Byte vector model, AddressSanitizer.')
prop('M03', 'String operations agree with the mathematical string',
     'Every operation of the string class (building, appending, comparing, searching, slicing, trimming, case conversion, formatting) gives what the same operation on a plain character sequence gives, for all contents and lengths, and leaves its other operands unchanged. Copies share one text, so appending to one shows in the others, until one of them is given a new text.',
     ['histories', 'inputs'], 'all operation histories over strings of all lengths around the growth steps',
     'Tests do not cover the string class; errors sit at growth boundaries, at empty strings and at partial matches.',
     ['src/mg/alxstring.h'], [('growth', 'basic_alxstring'), ('searching and slicing', 'basic_alxstring')],
     'model-based operation histories against std::string', 'Random histories with AddressSanitizer; arguments within documented ranges.')
prop('M04', 'Numbers survive their text forms',
     'Integers written to decimal or hexadecimal text and read back are unchanged over their full range, and the text is the canonical one. Hexadecimal dumps of binary data decode to the same bytes.',
     ['inputs'], 'all integers of every width, all byte strings',
     'Tests do not convert; errors sit at the sign, the extremes and the width changes.',
     ['src/mg/alxstring.h', 'src/mg/core/util.h', 'src/mg/core/core.h'], [('conversions', 'conversion helpers of the string class and core')],
     'property-based round trip and differential test', 'Edge biased integers, differential against the C library.')
prop('M05', 'Splitting and replacing lose and invent nothing',
     'Splitting a text at a separator yields the parts whose joining gives the text back, and no part contains the separator; replacing all occurrences equals splitting at the pattern and joining with the replacement. Splitters can be used again for another text.',
     ['inputs', 'histories'], 'all texts, separators and reuse histories',
     'Tests do not split; failures need empty parts, separators at the ends, overlapping patterns or reuse.',
     ['src/mg/splitter.h', 'src/mg/alxstring.h'], [('split', 'Csplitter::split'), ('replace', 'basic_alxstring')],
     'metamorphic and model-based property test', 'Small alphabets to force overlaps; non-empty separators (empty ones are a precondition).')
prop('M06', 'Narrowing conversions are exact or fail',
     'A checked conversion between integer and floating types either gives the value (integers exactly, floating values rounded to a neighbouring representable value) or fails with an error when the value is outside the target range; it never silently gives another value.',
     ['inputs'], 'all values of the source types',
     'No test passes a value outside the target range.',
     ['src/mg/core/core.h'], [('range checks', 'ST_U32, DBL_U64 and the other checked casts')],
     'property-based test against wide arithmetic', 'Edge-biased values.')
prop('M07', 'Exceptions carry their number, message and place',
     'An error raised with a number, a text and a source position reports exactly these at the catching side, also through copies, rethrows, and storage across threads. Formatted reports contain them completely, whatever their length.',
     ['inputs', 'histories'], 'all numbers and texts of all lengths, copy and rethrow histories',
     'Tests never look at a caught error\'s contents.',
     ['src/mg/exception.h'], [('exception base', 'mgexceptionbase')],
     'property-based test', 'Random numbers and texts with AddressSanitizer.')
prop('L01', 'The command line is parsed as written',
     'Options are recognised by name or shortcut, with one or two dashes and a value after the first colon or equal sign, for every order and repetition of arguments; every option yields exactly its own values in order and nothing else. A missing required option is reported by name, and every switch of a switch command line gets exactly the arguments that follow it.',
     ['inputs', 'configurations'], 'all argument vectors over generated option declarations',
     'Tests pass no arguments of that kind.',
     ['src/mg/cmdline.h'], [('option parser', 'console_command'), ('switch dispatch', 'Cmdline::process')],
     'model-based property test over generated argument vectors', 'Reference parser; argument vectors from a grammar.')
prop('U01', 'Base64 decodes what it encoded and is canonical',
     'Encoding any bytes, in pieces of any size, gives the standard base64 text, and decoding that text, in pieces of any size and with characters outside the alphabet in between, gives the bytes back. Neither direction writes outside the documented output size.',
     ['inputs', 'histories'], 'all byte strings, all partitions into pieces, all placements of foreign characters',
     'No test encodes; the state carried between pieces and the alphabet borders matter.',
     ['src/b64/src/cdecode.cpp', 'src/b64/src/cencode.cpp', 'src/b64/include/b64/encode.h', 'src/b64/include/b64/decode.h'], [('encoder state', 'base64_encode_block'), ('decoder state', 'base64_decode_block')],
     'round trip and differential property test', 'Reference encoder in the harness; AddressSanitizer with exact output buffers (decoder: one byte of slack, as documented in DESIGN.md).')
prop('U02', 'The transport stream checksum is the standard one',
     'The checksum of any data, computed in pieces of any size, equals the MPEG-2 CRC-32; appending the checksum gives residue zero, and any single burst error up to 32 bits is detected.',
     ['inputs', 'histories'], 'all byte strings and partitions',
     'No test computes it.',
     ['src/mg/media/wincrc.cpp', 'src/mg/media/wincrc.h'], [('table driven CRC', 'wincrc')],
     'differential property test against a bitwise reference', 'Bitwise reference implementation.')
prop('U03', 'Time codes convert without drift',
     'Splitting a time of hundred nanoseconds into hours, minutes, seconds and milliseconds and building it from them again gives the same time cut to milliseconds, for every value in range, and keeps the order of times. Its text has exactly these parts, each with its full number of digits, and a sign for negative times.',
     ['inputs'], 'all times, all parts',
     'No test converts; rounding errors show at particular values only.',
     ['src/mg/media/hnano.h'], [('conversions', 'hnano')],
     'property-based round trip and order test', 'Edge biased 64 bit values.')
prop('U04', 'Calendar arithmetic is that of the Gregorian calendar',
     'A date built from its parts or read from a text has the time since 1970 the Gregorian calendar gives, and is printed with the same parts, so reading it again gives the same time; differences in milliseconds to days are exact, also before 1970 and when negative. The current time is one moment: its parts and its total agree, and a zone is printed with its sign, hours and minutes.',
     ['inputs', 'histories'], 'all dates in range, all offsets, all operation histories',
     'No test uses the date class.',
     ['src/mg/core/ctime.h', 'src/mg/core/nx/ctime.cpp'], [('calendar conversion', 'Ctime')],
     'model-based property test against an independent calendar', 'Proleptic Gregorian model in the harness; UTC.')
prop('U05', 'Media queues hand out elements in order, each once',
     'Elements put into a queue come out in the order they went in, each exactly once with its data, for any interleaving of operations, any wrap around and from several threads. A full queue refuses, drops its oldest elements or grows, as configured, and never damages what it holds; the reported number of elements is exact.',
     ['histories'], 'all histories of queue operations and capacities',
     'No test uses the queues; errors sit at wrap around and growth.',
     ['src/mg/media/fixed_queue.h', 'src/mg/media/media_queue.h'], [('ring index', 'fixed_queue'), ('growth', 'grow_queue')],
     'model-based operation histories', 'Deque model.')
prop('U06', 'Joined media keeps a continuous clock',
     'When media is joined one after another, all streams of an input are moved by one common offset, so they stay aligned to each other. No stream starts before its previous part ended, and at least one continues without a gap.',
     ['histories', 'inputs'], 'all sequences of joined inputs, stream counts and times',
     'No test joins.',
     ['src/mg/media/MediaJoin.h'], [('difference computation', 'CMediaJoin')],
     'model-based property test', 'Model of the offsets in the harness.')
prop('U07', 'Audio times are corrected without drift',
     'Corrected audio times always increase: each step is one frame of 1024 or 1025 samples, or a jump ahead to the input time, and the output is never more than a frame behind the input. Times that follow the sample clock with jitter are never left by more than the jitter and a few frames, and streams do not influence each other.',
     ['histories', 'inputs'], 'all sequences of input times, jitter, gaps and stream counts',
     'No test runs it.',
     ['src/mg/media/aac_time_fix.h'], [('clock tracking', 'AAC time fix')],
     'property-based history test', 'Generated jitter and gaps.')
prop('U08', 'File system helpers do what they report',
     'Creating a directory succeeds exactly when the path is a directory afterwards, also when it was one before, and deleting removes exactly the named file or empty directory; both fail with an error and change nothing otherwise. Environment variables are returned with their full value, empty when not set.',
     ['inputs', 'fault_sequences'], 'all path shapes and pre-existing states',
     'No test creates directories.',
     ['src/mg/core/nx/util.cpp', 'src/mg/core/util.h'], [('directory creation', 'create_directory')],
     'property-based test in a scratch directory', 'Scratch directory only.')
prop('C01', 'Time codes add, subtract and convert exactly',
     'Adding, subtracting and incrementing time codes of 25 frames gives the time code of the summed frame counts, wrapping at midnight, and the packed form, the text and the time in hundred nanoseconds of every valid time code describe exactly that time code. A serial time code word is recognized exactly when its sync word has arrived, whatever came before it and whatever its user bits hold, and is read as the time code that was sent.',
     ['inputs', 'histories'], 'all time codes, operation chains and bit sequences',
     'No test uses time codes; carries, borrows and bit positions show at particular values only.',
     ['src/mg/media/WaveParser.h'], [('arithmetic', 'TC'), ('serial word', 'CTimeCode')],
     'model-based property test over operation chains', 'Frame count model; independent encoder of the serial word.')
prop('P01', 'A written MP4 file holds every sample at its time',
     'Every sample handed to the muxer, of any number of streams in any arrival order, is in the file exactly once with its bytes, its decoding and composition time within rounding, its key frame flag and in the order of its stream, and the streams keep their offset to each other. The file is well formed: boxes nest, tables agree in their counts, sample data neither overlaps nor leaves holes, and codec configuration, language, size and durations are those of the streams.',
     ['inputs', 'histories'], 'all streams, arrival orders, muxer options and buffer sizes',
     'No test writes a file; table run lengths, interleaving and end of stream handling show at particular histories only.',
     ['src/mg/media/mp4mux.h', 'src/mg/media/mp4write.h'], [('sample tables', 'MP4Write'), ('stream alignment', 'MP4Mux')],
     'property-based test with an independent MP4 reader as oracle', 'Random streams and options; strict reference parser written from ISO/IEC 14496-12; AddressSanitizer.')
prop('P02', 'An MP4 file is read as what it holds',
     'For every well formed MP4 file, whichever form its tables and boxes take and from whichever storage it is read, the reader reports each track\'s kind, language, time scale, codec configuration, start, end and edit offset, and the offset, size, times and sync flag of every sample. Walking through the file yields every sample exactly once, in the order it is stored, with the bytes found at its offset.',
     ['inputs', 'configurations'], 'all movies within the stated forms, all storages and page sizes',
     'No test opens an MP4 file.',
     ['src/mg/media/mp4parse.h', 'src/mg/media/mp4/mp4.fl', 'src/mg/media/mp4/aac.fl'], [('sample tables', 'CMP4SampleManager'), ('time tables', 'CMP4TimeManager'), ('file order', 'MP4Reader::next_file_chunks')],
     'differential property test against an independent MP4 parser and writer', 'Generated movies; reference writer and parser from ISO/IEC 14496-12; AddressSanitizer.')
prop('P03', 'Seeking finds the sample of the time',
     'Looking up the time the reader reports for a sample finds that sample, and any other time finds the one presented then or the next. The key frame for a time is the last one decoded not later, and after moving to a time the leading stream continues with that key frame, the others with the sample presented or decoded then, and all continue to their last sample without loss.',
     ['inputs', 'histories'], 'all movies and times',
     'No test seeks; rounding and table borders show at particular times only.',
     ['src/mg/media/mp4parse.h'], [('time lookup', 'CRangeMap::get, CMP4TimeManager'), ('move', 'MP4Reader::move')],
     'property-based test against a scan of the sample table', 'Generated movies and times; exhaustive scan as oracle.')
prop('P04', 'MP4 fragments carry every sample of their range once',
     'Cutting a track into ranges that start with a key frame yields, in any order of production, fragments that together carry every sample exactly once: bytes, size, duration, composition offset and decode time in the requested time scale, with the given sequence number and track, an index and data offset that fit the bytes, and two joined ranges in one fragment. Initialisation segments describe the codec configuration, track, time scale and duration they were made for.',
     ['inputs', 'histories'], 'all movies with closed groups, cuts, orders, scales and base times',
     'No test makes a fragment; lost frames show only with particular leads, offsets, group lengths and times beyond 32 bits.',
     ['src/mg/media/mp4fragmented.h', 'src/mg/media/mp4/mp4_fragments.fl'], [('range to fragment', 'CMP4Fragment::add_frames_to_m4f, end'), ('initialisation', 'CMP4Fragment::produce_m4f_initialization')],
     'property-based test with a reference parser', 'Generated movies and cuts; independent strict parser of ISO/IEC 14496-12; metamorphic cover of the track.')
prop('P05', 'Fragments of any writer are read as they are',
     'Fragments following each other in a file are read one by one, whichever optional fields, versions and further boxes they use: sample count, sizes, durations, composition offsets, decode time, the position of the data and the smooth streaming time boxes are those of the fragment, nothing is kept of the one before, and after the last there is none.',
     ['inputs', 'histories'], 'all forms of fragments and sequences of them',
     'No test reads a fragment; combinations of optional fields and reuse of the reader are what breaks.',
     ['src/mg/media/MOOFReader.h', 'src/mg/media/mp4/mp4_fragments.fl'], [('reading', 'MOOFReader::parse_boxes'), ('skipping', 'CMP4::skip_current')],
     'property-based test with a reference writer', 'Independent fragment writer; one reader over a sequence of fragments.')
prop('N01', 'H.264 NAL units decode to their exact payload',
     'Every H.264 NAL unit, copied or in place, is decoded to its header byte and the payload without the emulation prevention bytes, whichever bytes the payload holds and ends with, and its type and reference value are reported. A decoder used again decodes every unit independently of the ones before.',
     ['inputs', 'histories'], 'all payloads, including runs of zeros, trailing zero words and last bytes of any value',
     'No test decodes a NAL unit; a lost or doubled byte needs a particular run of bytes at a particular position.',
     ['src/mg/media/h264nal.h'], [('emulation prevention', 'H264Nal::decode_nal')],
     'property-based round trip with a reference encoder', 'Reference escape written from ITU-T H.264 7.4.1; AddressSanitizer.')
prop('N02', 'H.264 headers are read as the values they code',
     'Sequence and picture parameter sets of every profile and form (video usability information, HRD parameters, scaling lists, slice groups, picture extension), the leading part of slice headers, and SEI messages with picture timing are read to exactly the values they code, and parameter sets to their last bit.',
     ['inputs'], 'all values and combinations of optional parts within the limits of the standard',
     'No test reads a parameter set; errors need rare optional parts, large values or special bit alignments.',
     ['src/mg/media/mp4/h264.fl'], [('exp-golomb codes', 'exp_ue_golomb, exp_se_golomb'), ('parameter sets', 'H264Sequence, pic_parameter_set_rbsp, vui_parameters'), ('slices and SEI', 'slice_header, pic_timing')],
     'property-based test with a reference writer', 'Reference writer from ITU-T H.264 7.3; slice group map type 6 and picture scaling matrices of 4:4:4 streams are not generated; AddressSanitizer.')
prop('N03', 'AAC and MPEG audio headers are read and written exactly',
     'An AAC audio configuration, an ADTS frame header with or without checksum and an MPEG 1, 2 or 2.5 audio header of any layer are read to the values they code (object type, rate, channels, bit rate, frame and body length, flags), and written back to the same bytes. Walking a stream by the reported lengths arrives at every frame and at the end.',
     ['inputs', 'histories'], 'all header values, streams of frames of any sizes',
     'No test reads an audio header; table entries, the header length with checksum and padding show for particular values only.',
     ['src/mg/media/mp4/aac.fl', 'src/mg/media/mp4/mpeg2au.fl'], [('ADTS', 'ADTS'), ('configuration', 'aac_info_mp4'), ('MPEG audio', 'AudioHeader')],
     'property-based round trip with reference tables', 'Reference writer and tables from ISO/IEC 13818-7 and 11172-3; AddressSanitizer.')
prop('K01', 'A DASH presentation plays every sample of the movie at its time',
     'Packaging a movie yields a well formed manifest whose timelines, templates, codecs, sizes and duration describe the files that were written, and nothing else is written. The segments of a track, in order, carry every sample from the first key frame on exactly once with its bytes and timing, start at the time the timeline gives, with a common shift for all tracks, adjoin to the end of the last sample, and are cut at the first key frame (for tracks without key frames: the last frame) that gives the requested length.',
     ['inputs', 'configurations'], 'all movies within the stated forms, segment lengths, time scales and bit rates',
     'No test that can run packages a movie; lost frames at the end, late key frames, delays and rest segments show for particular movies only.',
     ['src/mgcli/mp4info.cpp', 'src/mg/media/mp4edit.cpp', 'src/mg/media/mp4dynamic.cpp', 'src/mg/media/mp4dynamicinfo.h', 'src/mg/media/mpd_renderer.h', 'src/mg/media/mp4fragmented.h'], [('segment points', 'CMP4Dynamic::move_to_read, CMP4DynamicDiscreate'), ('manifest', 'MPDRenderer'), ('segments', 'produce_m4f_chunk')],
     'property-based test of the whole program with independent readers', 'Generated movies and options; strict XML and ISO/IEC 14496-12 readers; sample by sample comparison with the movie.')
prop('K02', 'All bit rates of a presentation share one timeline',
     'Packaging several encodings of the same pictures together gives one set with a representation per file, under the bandwidth it was given for, with its own size, codec and initialisation segment. For every entry of the common timeline each representation has a segment that starts with a key frame and holds the same sample numbers, with the bytes of its own file.',
     ['inputs', 'configurations'], 'all sets of aligned files, any order of bit rates',
     'No test that can run packages several files.',
     ['src/mgcli/mp4info.cpp', 'src/mg/media/mp4dynamicinfo.h', 'src/mg/media/mpd_renderer.h'], [('bit rates', 'CMP4DynamicInfo::begin_processing'), ('paths', 'DynamicBitrate')],
     'property-based test of the whole program with independent readers', 'Generated families of files; every representation compared with its own file.')
prop('K03', 'Joined and trimmed movies play as one presentation',
     'Packaging several movies, each from a start to an end time, gives the samples of the first from the key frame at or before its start up to its end, then those of the second, and so on: every one exactly once, with its bytes, duration and composition offset, whether a segment lies in one movie or crosses two. All tracks of a movie are shifted by one amount, a movie begins where the longest track of the one before ends, and segments of tracks with key frames begin with one and never cross movies.',
     ['inputs', 'configurations', 'histories'], 'all sequences of movies with the same parameter sets, all start and end times within the stated forms',
     'No test that can run joins movies for streaming; the ends of the movies fall anywhere inside the segments of each track.',
     ['src/mgcli/mp4info.cpp', 'src/mg/media/mp4edit.cpp', 'src/mg/media/MediaJoin.h', 'src/mg/media/mp4dynamic.cpp', 'src/mg/media/mp4dynamic.h', 'src/mg/media/mp4dynamicinfo.h', 'src/mg/media/mp4fragmented.h'], [('join times', 'CMediaJoin'), ('segments that cross', 'publish_no_random_stream, CrossPoint'), ('ends', 'DynamicPoints::get_end')],
     'property-based test of the whole program with a reference model', 'Generated sequences of movies, start and end times; the expected samples of every track are computed independently and compared one by one.')
prop('K04', 'HTTP live streaming packages hold the movie',
     'For every movie and every family of bit rates the HLS package has a main list that names every bit rate with its codecs and resolution, media lists whose durations and target duration fit the segments, and transport stream segments that each start with a key frame and have valid tables, continuity, PES and clocks. Together the segments of a list hold every picture once, in order and unchanged, with its presentation and decoding times, and the audio frames presented while they play. With a key every segment is AES-128 encrypted so that a player with the key file and the sequence number recovers it.',
     ['inputs', 'configurations'], 'all movies of the stated form, sets of bit rates, segment lengths, start and end times, keys',
     'No test that can run packages HLS; packet sizes, clocks and cuts depend on every sample size and time.',
     ['src/mg/media/tsmux.h', 'src/mg/media/tswrite.h', 'src/mg/media/ts.h', 'src/mg/media/tsinfo.cpp', 'src/mg/media/hls_renderer.h', 'src/mg/media/mp4edit.cpp', 'src/mg/media/mpeg.h'], [('play lists', 'HLSRenderer'), ('packets', 'CTSWrite::output_ts'), ('access units', 'TSMuxH264Stream, TSMuxAACStream'), ('segments', 'do_hls_mux, MP42HLS'), ('encryption', 'hls_encrypt')],
     'property-based test of the whole program with an independent play list and transport stream reader', 'Generated movies; lists, packets and access units parsed strictly and compared with the movie sample by sample.')

prop('K05', 'Muxing and joining movies keeps every sample and its time',
     'For every movie and every sequence of movies with matching tracks, with any start and end times and track time scales, mux writes one MP4 file that holds the chosen samples of each track once, in order and unchanged, with their key frame flags, sizes and codec configuration. All samples of one movie are presented with the same shift, so that tracks stay in step, and no sample is presented before it is decoded. At each join the next movie begins when the one before ends.',
     ['inputs', 'configurations'], 'all movies of the stated form, sequences of up to three, start and end times, time scale options',
     'No test that can run muxes a file; chunks, time tables and edit lists depend on every sample size and time.',
     ['src/mg/media/mp4edit.cpp', 'src/mg/media/MediaJoin.h', 'src/mg/media/mp4mux.h', 'src/mg/media/mp4write.h', 'src/mg/media/mp4info.cpp'], [('joins', 'CMediaJoin'), ('tables', 'MP4Write'), ('mux', 'do_mp4_mux, MP4Mux')],
     'property-based test of the whole program with a selection model and an independent parser', 'Generated movies and command lines; the written file parsed and compared with the model sample by sample.')
prop('K06', 'A movie muxed to a transport stream plays the same',
     'For every movie and every sequence of movies with matching tracks, with any start and end times, the library writes one valid transport stream (packets, continuity, tables, PES, clock references) that holds every chosen picture and audio frame once, in order and unchanged, with access unit delimiters, parameter sets before every key frame and ADTS headers. All tracks of a movie are presented and decoded with one shift, decoding times never fall or pass the presentation, and each movie begins where the one before ends.',
     ['inputs', 'configurations'], 'all movies of the stated form, sequences of up to three, all start and end times within the stated forms',
     'No test that can run writes a transport stream; packet sizes, clocks and joins depend on every sample size and time.',
     ['src/mg/media/tsinfo.cpp', 'src/mg/media/tsmux.h', 'src/mg/media/tswrite.h', 'src/mg/media/mp4edit.cpp', 'src/mg/media/MediaJoin.h'], [('packets', 'CTSWrite'), ('access units', 'TSMuxH264Stream, TSMuxAACStream'), ('joins', 'CMediaJoin')],
     'property-based test with a selection model and an independent demultiplexer', 'Generated movies; the stream parsed strictly and compared with the model unit by unit.')
prop('K07', 'A transport stream converted to MP4 keeps every picture, frame and time',
     'Every transport stream with an H.264 and possibly an AAC stream, however it is cut into packets and PES packets, stuffed, interleaved and mixed with other streams, is converted to one MP4 file with every picture and audio frame once, in order and with its bytes, key frames marked, and the configuration of the parameter sets and audio headers. The tracks keep their distance and every sample is presented at its time in the stream, to the unit of the file.',
     ['inputs'], 'all streams of the stated form',
     'No test reads a transport stream; units that end at packet borders, rare header forms and the end of the stream show for particular inputs only.',
     ['src/mg/media/ts.h', 'src/mg/media/tsparse.h', 'src/mg/media/tsinfo.cpp', 'src/mg/media/mp4/mpeg2ts.fl', 'src/mg/media/h264nal.h', 'src/mg/media/mp4write.h'], [('packets and sections', 'CTS, TSProgramElementaryStream'), ('elementary streams', 'TS2MP4H264, TS2MP4AAC'), ('file', 'MP4Write')],
     'property-based test with a reference multiplexer and an independent parser', 'Generated streams written from ISO/IEC 13818-1; the resulting file parsed and compared unit by unit.')
prop('K08', 'Encrypted DASH packages decrypt to the movie',
     'With a key and a key id, every segment of a DASH package (audio too, unless it is left out) is encrypted by the cenc scheme so that a player with the key recovers each sample exactly: whole blocks behind the first 96 bytes, or whole audio samples when asked, with sizes and place of the per-sample information right. No two samples of a package share an initialization vector, and every bit of the vectors fragments start with is random. The initialization segments, the manifest and the key file name the key id and the chosen key systems (PlayReady, Widevine, clear key) in the forms their specifications give.',
     ['inputs', 'configurations'], 'all movies of the stated form, keys, key ids, options of encryption and key systems',
     'No test that can run encrypts; block counts and sample tables depend on every sample size.',
     ['src/mgcli/cenc_provider.h', 'src/mgcli/mp4info.cpp', 'src/mg/media/mp4fragmented.h', 'src/mg/media/mp4write.h', 'src/mg/media/mp4/cenc.fl', 'src/mg/media/mpd_renderer.h'], [('encryption', 'CMP4Fragment::encrypt, counter8, fillrand'), ('tables', 'CMP4Fragment::end'), ('entries', 'write_protected_sinf'), ('key systems', 'PlayReadyCencProvider, WidevineBoyProvider, ClearKeyCencProvider')],
     'property-based test of the whole program with an independent decrypting reader', 'Generated movies, keys and options; segments decrypted independently and compared with the movie sample by sample.')
prop('K09', 'Fragments join into one movie, decrypted when the key is given',
     'For every set of up to three tracks, each an initialization segment and its fragments in any number of files, the program writes one MP4 file with every sample of every track once, in order and with its bytes, and the codec configuration. With the key encrypted fragments are decrypted, whole samples or parts of them, and clear ones between them are taken as they are. All samples are presented at the times of the fragments with one shift for all tracks, none before it is decoded, and every fragment begins with a marked key frame.',
     ['inputs', 'configurations'], 'all fragments of the stated form, encrypted or not, with or without the key',
     'No test that can run reads fragments; values come from four places (header, run, sample, default) and state is kept between fragments.',
     ['src/mgcli/mp4info.cpp', 'src/mg/media/MOOFReader.h', 'src/mg/media/mp4mux.h', 'src/mg/media/mp4write.h', 'src/mg/media/mp4/mp4_fragments.fl', 'src/mg/media/mp4/cenc.fl'], [('join', 'do_moof_mux'), ('decryption', 'decrypt'), ('fragments', 'MOOFReader'), ('times', 'MP4Mux::set_auto_decoding_time, add_sample')],
     'property-based test of the whole program with a reference writer and an independent parser', 'Generated fragments written from ISO/IEC 14496-12 and 23001-7; the joined file parsed and compared sample by sample.')
prop('K10', 'Joined movies and adaptive packages play as one HLS presentation',
     'Packaging several movies for HLS, each from a start to an end time, gives media lists and segments that hold the chosen pictures of the first movie, then those of the second, and so on: each once, unchanged, all movies following each other on one clock without gap or step back, and no segment crosses a join. The kind adaptive writes exactly the HLS and DASH packages that the two kinds write on their own.',
     ['inputs', 'configurations', 'histories'], 'all sequences of movies with the same parameter sets, bit rates, start and end times, keys within the stated forms',
     'No test that can run packages HLS; the ends of movies fall anywhere inside segments and groups.',
     ['src/mgcli/mp4info.cpp', 'src/mg/media/mp4edit.cpp', 'src/mg/media/MediaJoin.h', 'src/mg/media/mp4dynamicinfo.h', 'src/mg/media/hls_renderer.h', 'src/mg/media/tsmux.h'], [('segments', 'do_hls_mux, MP42HLS'), ('joins', 'CMediaJoin, CMP4DynamicInfo'), ('adaptive', 'main of mgcli')],
     'property-based test of the whole program with a selection model, independent readers and a differential relation', 'Generated sequences; segments compared with the model unit by unit, adaptive output with that of the separate kinds byte by byte.')
prop('K11', 'The listings tell the samples, key frames and boxes of a movie',
     'For every movie the kind pick lists every sample of every track with its times and size, the kind gop lists the key frames from the one of the start time up to the end time with their times, and the kind analyze lists every box of a movie, initialization segment or media segment with its place and what its header says. hex64 and 64hex convert keys of any bytes exactly.',
     ['inputs'], 'all movies and packages of the stated form, keys of any length and bytes',
     'No test that can run lists a movie; tables have many forms and rare boxes.',
     ['src/mgcli/mp4info.cpp', 'src/mgcli/dump_base64.h', 'src/mg/media/mp4info.h', 'src/mg/media/mp4parse.h', 'src/mg/media/mp4edit.cpp'], [('samples', 'pick_samples'), ('groups', 'gop_list'), ('boxes', 'dobox, docommand'), ('keys', 'kinds hex64 and 64hex')],
     'property-based test of the whole program with an independent parser', 'Generated movies; each listing compared line by line with what an independent parser finds.')
