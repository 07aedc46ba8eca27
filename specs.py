# What each check runs.  cases = per job (8 jobs).
SPECS = {}

BITS_ASSUME = [
    'storages deliver min(requested, remaining) bytes and report the end, as every storage of the repository does',
    'buffer of at least 8 bytes; raw read/write and seeking on byte boundaries; sizes below 512 MiB',
]
SPECS['B01'] = dict(harness='h_bits', props=['write_read_roundtrip'], quick=dict(cases=200000), thorough=dict(cases=6000000),
    rule='a random list of fields (plain and little endian widths 0..32, alignments, raw blocks, flushes) is written through one stream and read back through another with independent buffer sizes; non-trivial: at least two operations and one bit written',
    assumptions=BITS_ASSUME)
SPECS['B02'] = dict(harness='h_bits', props=['reader_model', 'reader_fixed_memory', 'reader_far'], quick=dict(cases=60000), thorough=dict(cases=2500000),
    rule='a random history of reader operations (getbits, nextbits, sgetbits, skip, align, little endian, probe, raw read, seek, code search, invalid widths) on random data and buffer sizes, every result compared with a model over the byte array; non-trivial: at least two operations and a buffer refill, a seek or running into the end',
    assumptions=BITS_ASSUME)
SPECS['B03'] = dict(harness='h_bits', props=['writer_model', 'writer_memory'], quick=dict(cases=60000), thorough=dict(cases=2000000),
    rule='a random history of writer operations (putbits, little endian, align, skip, raw write, flush, seek back and rewrite) compared with a bit vector after every flush and at the end; non-trivial: at least three operations with a buffer overflow, a rewrite or an explicit flush',
    assumptions=BITS_ASSUME + ['rewriting already stored data happens in whole bytes'])
SPECS['B04'] = dict(harness='h_bits', props=['reader_async'], quick=dict(cases=20000), thorough=dict(cases=700000),
    rule='the reader history of B02 while each read completes from another thread at a generated moment (at once, when the reader waits, at a later operation, after a delay); non-trivial as in B02',
    assumptions=BITS_ASSUME + ['one outstanding read per stream, completions in request order'])
SPECS['B05'] = dict(harness='h_bits', props=['copy_range'], quick=dict(cases=3500), thorough=dict(cases=120000),
    rule='a random byte range is copied between two storages with random chunk size, each side synchronous or completing from its own thread; destination compared byte for byte when the copy returns; non-trivial: more than one chunk',
    assumptions=['storages complete requests in order'])

THREAD_ASSUME = ['schedules are those the kernel produces while random delays are injected around every lock and condition call (interposed uv_mutex_*/uv_cond_*)']
SPECS['T01'] = dict(harness='h_thread', more=['noise'], props=['event_state', 'event_long_wait', 'event_release_all', 'event_ping_pong', 'event_timed'], quick=dict(cases=1400), thorough=dict(cases=50000),
    rule='histories of signal/reset/query/timed wait on one event compared with a boolean model; several waiters released by one signal while pollers churn; two threads alternating over a pair of events; timed waits of up to 49 days on a virtual clock with spurious wake-ups, signals and resets on the way; timed waits that must neither return early nor miss a signal. Non-trivial: more than three operations with a timed wait, more than one waiter, or more than one round',
    assumptions=THREAD_ASSUME + ['a wait may last longer than its time limit by scheduling delay (upper bounds are checked only in the order of seconds)'])
SPECS['T02'] = dict(harness='h_thread', more=['noise'], props=['lock_exclusion', 'lock_try', 'lock_held'], quick=dict(cases=4000), thorough=dict(cases=140000),
    rule='2..6 threads enter sections by lock, try_lock, nested locking and scoped locks left by exceptions, with an owner word and a plain counter; plus single thread lock histories with a second thread probing; plus threads that wait for a lock that is held for long, with every time limit they might set themselves passing at once; every multi-thread case is non-trivial, histories with more than two operations are',
    assumptions=THREAD_ASSUME)
SPECS['T03'] = dict(harness='h_thread', more=['noise'], props=['thread_lifecycle'], quick=dict(cases=8000), thorough=dict(cases=250000),
    rule='1..4 threads that work for a generated time or poll for a stop request, stopped, polled and joined in generated orders; non-trivial: more than one thread or a thread that waits for its stop request',
    assumptions=THREAD_ASSUME)
SPECS['T04'] = dict(harness='h_thread', more=['noise'], props=['promise_chain', 'promise_race'], quick=dict(cases=30000), thorough=dict(cases=900000),
    rule='chains of 1..4 promises; completion (value or error) and handler registration in a generated order, handlers that throw, missing handlers, against a token model; plus registration racing completion on two threads. Non-trivial: a chain or a handler attached after completion; every race',
    assumptions=THREAD_ASSUME)
SPECS['T05'] = dict(harness='h_thread', more=['noise'], props=['loop_thread'], quick=dict(cases=1800), thorough=dict(cases=60000),
    rule='0..12 work items and timers handed to a loop thread before and after its start, one of them throwing, ended by different routes after a generated pause; non-trivial: more than one item',
    assumptions=THREAD_ASSUME + ['work handed over under the loop lock before end() is called'])

FILE_ASSUME = ['one process, local file system; the operating system calls of the thread pool are interposed, io_uring is off', 'requests are issued from one thread at a time, overlapping writes are not outstanding together']
SPECS['F01'] = dict(harness='h_file', props=['file_write', 'file_update'], quick=dict(cases=1600), thorough=dict(cases=50000), hang=40,
    rule='histories of seeks and asynchronous writes (batched under the loop lock, before the loop started, from completion callbacks) with generated execution delays and short writes; the file compared with a byte model after closing, every completion counted; histories of seeks, writes and reads through one object with size, position and content compared after each step. Non-trivial: at least two writes',
    assumptions=FILE_ASSUME)
SPECS['F02'] = dict(harness='h_file', props=['file_read_order'], quick=dict(cases=7000), thorough=dict(cases=220000), hang=40,
    rule='1..14 reads issued in batches, before the loop started and from completion callbacks, with writes in between, execution delays generated per request so that they finish in other orders, short reads; delivered order, counts and bytes compared with the issue order and the content. Non-trivial: more than two reads with delays',
    assumptions=FILE_ASSUME)
SPECS['F03'] = dict(harness='h_file', props=['file_faults'], quick=dict(cases=2500), thorough=dict(cases=80000), hang=40, level='fault_enumeration',
    rule='open failures of five kinds (sync and async) and histories of up to ten overlapping reads or writes with generated errno values injected into some of them, with and without error handlers, then closing and ending the loop; non-trivial: at least one fault',
    assumptions=FILE_ASSUME + ['failures of close itself are not injected'])
SPECS['F04'] = dict(harness='h_file', props=['file_backends', 'file_roundtrip', 'file_large'], quick=dict(cases=8000), thorough=dict(cases=250000), hang=40,
    rule='the reader histories of B02 over the synchronous and the asynchronous file; fields written through one kind of file and read back through another kind or from memory; marks on sparse files up to 12 GiB written and read through every kind. Non-trivial: refill, seek or end; more than two fields; a mark beyond 4 GiB',
    assumptions=FILE_ASSUME)

MEM = ['single address space observed by AddressSanitizer']
SPECS['M01'] = dict(harness='h_base', props=['resource_history', 'resource_threads'], quick=dict(cases=60000, time=60), thorough=dict(cases=1500000),
    rule='histories of up to 60 handle operations (new, copy, assign, self assign, assign from inside of the owned object, detach, create, drop) over linked objects, alive/cleaned/released counts and reference counts compared after every step; 2..6 threads copying and dropping handles of one object. Non-trivial: more than three operations with an object; every threaded case',
    assumptions=MEM + ['handles of one object never form a cycle; one handle is used by one thread at a time'])
SPECS['M02'] = dict(harness='h_base', props=['buffer_bytes', 'buffer_words'], quick=dict(cases=60000), thorough=dict(cases=3000000),
    rule='histories of add, prepare/commit, write at, read at, append, append itself, step back, reset over initial capacities 1..200 compared with a vector after every step; non-trivial: more than two operations and at least one growth',
    assumptions=MEM)
SPECS['M03'] = dict(harness='h_base', props=['string_history'], quick=dict(cases=50000), thorough=dict(cases=2500000),
    rule='histories of up to 60 operations over a set of strings, some sharing their text, with small alphabets, growth boundaries and arguments from inside of the string; content, length and every result compared with std::string; non-trivial: more than three operations with a search or a shared text',
    assumptions=MEM + ['positions and counts within the string unless the operation documents otherwise', 'copies of a string share their text (by design); the model shares it as well'])
SPECS['M04'] = dict(harness='h_base', props=['number_text', 'hex_text'], quick=dict(cases=100000), thorough=dict(cases=4000000),
    rule='edge biased integers of every width to text and back against the C library, byte strings to hexadecimal text and back; non-trivial: numbers of more than one digit, non-empty data',
    assumptions=MEM)
SPECS['M05'] = dict(harness='h_base', props=['split_replace'], quick=dict(cases=100000), thorough=dict(cases=4000000),
    rule='texts over a small alphabet with separators and patterns that overlap, at the ends and absent, splitters used again; compared with a reference split and replace; non-trivial: at least two parts or a replacement',
    assumptions=MEM + ['separator and pattern are not empty'])
SPECS['M06'] = dict(harness='h_base', props=['narrowing'], quick=dict(cases=200000), thorough=dict(cases=8000000),
    rule='edge biased 64 bit and floating values around every limit through every checked conversion; result or overflow error compared with wide arithmetic; non-trivial: the value is outside of the target range or within two of a limit',
    assumptions=[])
SPECS['M07'] = dict(harness='h_base', props=['exceptions'], quick=dict(cases=10000), thorough=dict(cases=400000),
    rule='exceptions with generated number, message, file and line, copied, changed, rethrown, caught by base types and carried across threads; number and report compared; non-trivial: at least one such route',
    assumptions=MEM)
SPECS['L01'] = dict(harness='h_base', props=['console_options', 'switch_dispatch'], quick=dict(cases=60000), thorough=dict(cases=2500000),
    rule='argument vectors from a grammar (declared and unknown options, shortcuts, both value separators, values with separators inside, repeated options, positional arguments) over generated declarations, against a reference parser; switch command lines against a reference dispatcher; non-trivial: a declared option is used, more than one switch',
    assumptions=MEM + ['option names of the model do not start with "-" unless declared so'])

SPECS['U01'] = dict(harness='h_util', repo=['core', 'b64', 'crc'], props=['base64', 'base64_value'], quick=dict(cases=60000), thorough=dict(cases=2500000),
    rule='byte strings encoded and decoded in generated pieces with foreign characters in between, exact output buffers, against a reference encoder; every character value. Non-trivial: more than two bytes and more than one piece',
    assumptions=MEM + ['the decoder may touch one byte behind the bytes it returns (it prepares the next byte in place), as in the original library'])
SPECS['U02'] = dict(harness='h_util', repo=['core', 'b64', 'crc'], props=['checksum'], quick=dict(cases=100000), thorough=dict(cases=4000000),
    rule='byte strings at every alignment, checksummed whole and in generated pieces, against a bitwise reference, residue and burst errors of up to 32 bits; non-trivial: at least two pieces',
    assumptions=['a piecewise checksum is continued from the byte swapped result of the previous piece, the interface of the repository'])
SPECS['U03'] = dict(harness='h_util', repo=['core', 'b64', 'crc'], props=['timecode'], quick=dict(cases=200000), thorough=dict(cases=8000000),
    rule='edge biased times (limits, whole units and their neighbours) through parts, text and back, order of pairs, parts outside of their usual range; non-trivial: not a whole number of hours',
    assumptions=['times of the magnitude 2^63 hundred nanoseconds exactly are excluded (no absolute value)'])
SPECS['U04'] = dict(harness='h_util', repo=['core', 'b64', 'crc'], props=['calendar', 'clock_now', 'time_zone'], quick=dict(cases=80000), thorough=dict(cases=3000000),
    rule='pairs of dates from 1601 to 2969 biased to month ends, leap years and unit limits, built from parts and texts, compared with an independent proleptic Gregorian calendar (totals, parts, texts, differences both ways); the current time under a clock that advances with every reading; constant zones from -12:00 to +14:00. Non-trivial: two different dates, a zone that is not zero',
    assumptions=['time zones without daylight saving', 'no leap seconds'])
SPECS['U05'] = dict(harness='h_util', repo=['core', 'b64', 'crc'], props=['queue_fixed', 'queue_grow', 'queue_threads'], quick=dict(cases=60000, time=60), thorough=dict(cases=2500000),
    rule='histories of up to 120 pushes, pops (also with too small buffers), looks, deletes and clears over queues of 60..5000 bytes that refuse, drop or grow, with the counters started near their limit, against a deque; several producers and a consumer. Non-trivial: at least three pushes and a pop; every threaded case',
    assumptions=MEM + ['a queue that refuses may refuse while its free space is in two parts; it has to accept when the free space is at least twice the element plus the largest stored element'])
SPECS['U06'] = dict(harness='h_util', repo=['core', 'b64', 'crc'], props=['media_join'], quick=dict(cases=200000), thorough=dict(cases=8000000),
    rule='up to five joins of 1..6 streams with generated ends and starts; every stream gets its start plus the same offset, no stream goes back and at least one continues without a gap; non-trivial: more than one stream',
    assumptions=['times below 2^58'])
SPECS['U07'] = dict(harness='h_util', repo=['core', 'b64', 'crc'], props=['audio_clock'], quick=dict(cases=100000), thorough=dict(cases=3000000),
    rule='up to 400 times of up to four streams of eleven sample rates, nominal with jitter or free with gaps and steps back: increasing output, steps of one frame or a reset to the input, bounded distance, independence of streams; non-trivial: more than three times',
    assumptions=['the value the code uses as its mark for "no time yet" (2147483647) is not used as a time'])
SPECS['U08'] = dict(harness='h_util', repo=['core', 'b64', 'crc'], props=['directories', 'environment'], quick=dict(cases=30000), thorough=dict(cases=1000000),
    rule='histories of creating and deleting directories and files over a generated tree in a scratch directory, result and whole tree compared with a model; environment variables of generated content; non-trivial: more than two operations, a value that is not empty',
    assumptions=['mkdir and remove outside of the scratch directory are refused by the harness', 'runs as root: permission failures are not generated'])

# ---------------------------------------------------------------- media
def flavor_headers(R, V, bdir):
    """the part of the sources that the flavor compiler generates"""
    import glob, subprocess, sys, os
    out = os.path.join(bdir, 'inc', 'mg', 'media', 'mp4')
    os.makedirs(out)
    for f in sorted(glob.glob(R + '/src/mg/media/mp4/*.fl')):
        subprocess.check_call([sys.executable, V + '/lib/flavor.py', f, out])
    return ['-I' + R + '/src/mg/media', '-I' + bdir + '/inc', '-I' + bdir + '/inc/mg/media']
MP4SRC = ['core', 'crc', 'src/mg/media/mp4edit.cpp', 'src/mg/media/mp4dynamic.cpp', 'src/mg/media/mp4dynamicinfo.cpp']
FLAVOR = 'the descriptions in src/mg/media/mp4/*.fl are compiled by lib/flavor.py (the flavor submodule is not present)'

SPECS['C01'] = dict(harness='h_tc', props=['timecode_arithmetic', 'timecode_forms', 'timecode_serial'], quick=dict(cases=150000), thorough=dict(cases=6000000),
    rule='chains of additions, subtractions, increments and added times over edge biased time codes of 25 frames, against arithmetic on frame counts modulo a day; packed form, text, validity; serial code words with arbitrary user bits after arbitrary bits, against a reference of the 80 bit word. Non-trivial: more than one operation with a carry, a two digit part, more than one word',
    assumptions=['25 frames per second, no drop frame counting, as in the code', 'the smaller time code is subtracted from the larger one'])
SPECS['P01'] = dict(harness='h_mp4', repo=MP4SRC, prepare=flavor_headers, props=['mp4_mux'], quick=dict(cases=2200, time=240), thorough=dict(cases=60000),
    rule='1..3 generated audio and video streams (parameter sets, codecs, rates, time scales, languages, 1..60 samples with jitter, holes, reordering, automatic decoding times) arriving interleaved in a generated order, written with generated options and buffer sizes, synchronous or through a loop thread; the file is read by an independent strict parser and every sample, time, flag and header value compared. Non-trivial: more than three samples',
    assumptions=[FLAVOR, 'the first sample of a stream with automatic decoding times is the first presented', 'times below one hour plus the length of the streams', 'file below 4 GiB'])
SPECS['P02'] = dict(harness='h_mp4r', repo=MP4SRC, prepare=flavor_headers, props=['mp4_read', 'mp4_write_read'], quick=dict(cases=4000, time=200), thorough=dict(cases=120000),
    rule='movies of 1..3 tracks with 1..600 samples written by an independent writer (header versions, order of boxes, unknown boxes, 64 bit data box, run lengths, chunking, gaps, composition offsets, sync tables, edit lists), and files written by the muxer of P01; read from memory, a file or an asynchronous file with generated page sizes; every value the reader reports, the walk through the file and the bytes at the offsets compared with an independent parser. Non-trivial: more than three samples',
    assumptions=[FLAVOR, 'files below 4 GiB, 32 bit chunk offsets, composition offsets that are not negative, one sample description per track', 'malformed files are not generated'])
SPECS['P03'] = dict(harness='h_mp4r', repo=MP4SRC, prepare=flavor_headers, props=['mp4_seek'], quick=dict(cases=6000, time=200), thorough=dict(cases=200000),
    rule='movies as in P02; for every track generated times (of samples, in between, at the ends) looked up by presentation and by key frame, and moves of the whole reader followed by a walk to the end; expected samples from a scan of the independently parsed table. Non-trivial: more than three seeks in a track of more than three samples',
    assumptions=[FLAVOR, 'time scales up to 10 MHz', 'a time between two samples may find the one presented at that time or the next one in decoding order', 'samples of one track have distinct presentation times, and a track with a sync table starts with a sync sample'])
SPECS['P04'] = dict(harness='h_frag', repo=MP4SRC, prepare=flavor_headers, props=['frag_write', 'frag_init'], quick=dict(cases=8000, time=200), thorough=dict(cases=250000),
    rule='movies of 1..3 tracks with closed groups of pictures (reordered or not, any lead) and audio, read from memory; each track cut at generated groups into ranges that cover it, ranges produced in order and out of order, alone or joined in pairs, with generated time scales, sequence numbers, track ids and base times; every fragment read by an independent strict parser (index, decode time, run, data offset, bytes) and read back by the reader of the repository. Initialisation segments from generated codec configurations. Non-trivial: more than three fragments; every segment',
    assumptions=[FLAVOR, 'groups of pictures are closed', 'ranges start at the presentation time of a group', 'fragments of less than 2^32 ticks', 'composition offsets only in tracks written as video', 'encryption is not compiled into the default build'])
SPECS['P05'] = dict(harness='h_frag', repo=MP4SRC, prepare=flavor_headers, props=['frag_read'], quick=dict(cases=50000, time=200), thorough=dict(cases=600000),
    rule='files of 1..5 fragments of an independent writer: segment type, index, unknown and uuid boxes in any place, track fragment headers and runs with every combination of optional fields, both versions, 64 bit data boxes, data offsets into the data box and against a base offset, smooth streaming time boxes of both versions; read one after the other from memory or a paged file, with one reader or a new one each. Non-trivial: more than one fragment or more than two samples',
    assumptions=[FLAVOR, 'one track fragment with one run per fragment', 'defaults are given in the fragment', 'malformed files are not generated'])
SPECS['N01'] = dict(harness='h_es', repo=MP4SRC, prepare=flavor_headers, props=['nal_decode'], quick=dict(cases=30000), thorough=dict(cases=1000000),
    rule='up to 12 NAL units per decoder, payloads of 0..4000 bytes rich in zeros and small values, any last byte, with trailing zero words; decoded copied and in place and compared with the payload before a reference escape. Non-trivial: a unit with emulation prevention bytes',
    assumptions=[FLAVOR, 'NAL units follow 7.4.1: no byte sequences an encoder may not produce'])
SPECS['N02'] = dict(harness='h_es', repo=MP4SRC, prepare=flavor_headers, props=['parameter_sets', 'slices', 'sei_timing'], quick=dict(cases=25000), thorough=dict(cases=800000),
    rule='parameter sets, slice headers and SEI messages written bit by bit from generated values with all optional parts, escaped, decoded and read by the code; every value, the end position and the returned error count compared. Non-trivial: optional parts present, a slice header of more than 40 bits, a clock time stamp',
    assumptions=[FLAVOR, 'slice group map type 6, picture scaling matrices of 4:4:4 streams and the part of slice headers behind the reference counts are not covered', 'picture timing only where NAL and VCL parameters agree on the lengths'])
SPECS['N03'] = dict(harness='h_es', repo=MP4SRC, prepare=flavor_headers, props=['aac_config', 'adts_frames', 'mpeg_audio_header'], quick=dict(cases=30000), thorough=dict(cases=1000000),
    rule='audio configurations, streams of up to 20 ADTS frames and of MPEG audio headers written from generated values; every value compared, the walk by lengths checked, headers written back and from set values. Non-trivial: more than one header',
    assumptions=[FLAVOR, 'the sample rates of the table, object types below 31, rates other than free format'])

def cli_setup(R, V, bdir):
    return flavor_headers(R, V, bdir) + ['-I' + R + '/src/mgcli', '-I' + V + '/lib/aes', '-DHAVE_LIBGYPAES=1', '-DBASE64=1']
CLISRC = MP4SRC + ['b64', 'src/mg/media/tsinfo.cpp']
CLI = dict(harness='h_cli', more=['mgcli'], repo=CLISRC, prepare=cli_setup)
CLI_ASSUME = [FLAVOR, 'the AES submodule is not present; lib/aes stands in for it (AES written from FIPS 197 behind its interface)', 'the command line program runs in the process of the test, its output directory is a scratch directory']
SPECS['K01'] = dict(CLI, props=['dash_one'], quick=dict(cases=7000, time=240), thorough=dict(cases=100000),
    rule='movies of video and/or one or two audio tracks (constant or varying frame rate, closed groups with or without reordering, delays, 1 frame to 7 s) are packaged with generated segment lengths, time scales and bit rates; the manifest is read by a strict XML reader, every initialisation and media segment by an independent parser, samples and times compared with the movie. Non-trivial: more than two segments',
    assumptions=CLI_ASSUME + ['groups of pictures are closed, the first picture of the movie is shown within half its duration', 'one video track with key frames', 'audio before the first key frame is left out'])
SPECS['K02'] = dict(CLI, props=['dash_many'], quick=dict(cases=4500, time=240), thorough=dict(cases=80000),
    rule='as K01, with 2..4 files of the same pictures at different rates, sizes and parameter sets, given in any order of rates; every representation checked against its own file over the common timeline. Non-trivial: more than two segments',
    assumptions=CLI_ASSUME + ['the files have the same times and groups of pictures'])
SPECS['K03'] = dict(CLI, props=['dash_join'], quick=dict(cases=4500, time=240), thorough=dict(cases=80000),
    rule='2 or 3 movies (one or two bit rates each) with the same parameter sets and other lengths, frame rates, delays and time scales are packaged with generated start and end times; the model chooses the samples of every track, all segments are read by an independent parser and compared with them. Non-trivial: more than two segments',
    assumptions=CLI_ASSUME + ['as K01', 'an end time lies before a key frame when pictures are reordered', 'decoding times do not fall below zero: a movie presented late follows one that is as long', 'the exact sample is not decided when a time is within 1 us of it', 'audio left out before the first key frame may leave a gap of its length'])
SPECS['K04'] = dict(CLI, harness='h_hls', props=['hls_one', 'hls_many'], hang=60, quick=dict(cases=2200, time=240), thorough=dict(cases=40000),
    rule='movies as in K01/K02, their pictures made of NAL units (sizes around the packet and PES limits included), start and end times, with and without a key, are packaged as HLS; play lists, transport streams and AES-128-CBC blocks are read by independent strict readers, every access unit, audio frame and time compared with the movie. Non-trivial: more than two segments',
    assumptions=CLI_ASSUME + ['one video track, 4 byte NAL lengths, one SPS and one PPS', 'audio belongs to the segments of the pictures: it is not claimed before the first and behind the last of them', 'a packet of stuffing alone may say that it has a payload of no bytes'])
SPECS['K05'] = dict(CLI, harness='h_mux', props=['mux_one', 'mux_join'], hang=60, quick=dict(cases=7000, time=240), thorough=dict(cases=100000),
    rule='one to three movies (as in K01, joined ones with the same parameter sets and other rates, delays and time scales) are muxed into one MP4 file with generated start and end times and time scales; the file is read by an independent parser, every sample, key frame flag, time, configuration and the gap at every join compared with the movies. Non-trivial: more than 20 samples',
    assumptions=CLI_ASSUME + ['as K01', 'at a start time a track without key frames begins with the sample presented then or the next', 'an end time lies before a key frame when pictures are reordered', 'times are compared within 1.5 ticks of the two tracks and the unit of the movie header'])
SPECS['K06'] = dict(CLI, harness='h_ts', props=['ts_write_one', 'ts_write_join'], hang=60, quick=dict(cases=6000, time=240), thorough=dict(cases=100000),
    rule='one to three movies (as in K05, their pictures made of NAL units) are muxed into one transport stream by the library function behind the kind MP42TS, with generated start and end times; the stream is read by an independent strict demultiplexer and every access unit, audio frame, mark and time compared with the movies. Non-trivial: more than 20 samples',
    assumptions=CLI_ASSUME + ['tsinfo() is called directly: the program reaches it only for other kinds', 'as K04 for the NAL units and parameter sets, as K05 for start and end times', 'pictures are reordered by at most 200 ms, the distance the muxer puts between the two clocks', 'a track without key frames may begin with the frame after the one at the start time'])
SPECS['K07'] = dict(CLI, harness='h_ts', props=['ts_read'], hang=60, quick=dict(cases=6000, time=240), thorough=dict(cases=100000),
    rule='a transport stream is written from the standard with generated liberties (packet splits, stuffing, packets without payload, foreign and null packets, descriptors, PES lengths or none, start codes of 3 and 4 bytes, delimiters, SEI units, several frames per PES, checksums, tables repeated anywhere, any time base, interleaving by packets) and converted to MP4 by the library; the file is read by an independent parser, every sample, key frame flag, time and configuration compared. Non-trivial: more than 20 pictures',
    assumptions=CLI_ASSUME + ['tsinfo() is called directly: the program reaches it only for other kinds', 'one program with one H.264 and at most one AAC stream, each section in one packet', 'the stream begins with tables and a key frame with its parameter sets, of 150 bytes or more', 'audio frames start with a PES packet', 'no lost or repeated packets', 'times to the millisecond, the scale of the output'])
SPECS['K08'] = dict(CLI, props=['dash_enc'], hang=60, quick=dict(cases=4000, time=240), thorough=dict(cases=80000),
    rule='movies and sequences of movies as in K01..K03, some with more than 60 segments, sample sizes around the clear prefix, are packaged with generated keys, key ids, encryption of the audio, whole or partial samples and key systems; init segments and fragments are checked and decrypted by an independent reader of ISO/IEC 23001-7, the result goes through the oracle of K01..K03. Non-trivial: more than two segments and 1000 hidden bytes',
    assumptions=CLI_ASSUME + ['as K01 and K03', 'vectors repeated by chance are not expected', 'a PlayReady address needs no XML escapes'])
SPECS['K09'] = dict(CLI, harness='h_moof', props=['moof_join'], hang=60, quick=dict(cases=4500, time=240), thorough=dict(cases=100000),
    rule='movies of up to three tracks are written as initialisation segments and fragments by an independent writer (versions, default and single values, offsets below zero, optional boxes, several fragments per file, start hours in, whole or partial encryption with 1 to 3 subsamples) and joined into one MP4 file with or without the key; the file is read by an independent parser and compared sample by sample. Non-trivial: more than two fragments and 20 samples',
    assumptions=CLI_ASSUME + ['every fragment starts with a key frame; other key frames may lose their mark, the fragments do not name them', 'one SPS and one PPS, picture size as in the SPS', 'hidden parts are whole blocks except the last', '8 byte vectors'])
SPECS['K10'] = dict(CLI, harness='h_hls', props=['hls_join', 'adaptive'], hang=60, quick=dict(cases=1500, time=240), thorough=dict(cases=30000),
    rule='two or three movies (one or two bit rates each, other lengths, frame rates, delays and time scales, the same parameter sets) with generated start and end times and with or without a key are packaged as HLS, and sequences of one or two as kind adaptive beside separate DASH and HLS runs; the model chooses the samples of every movie, lists and transport streams are read by strict readers and compared, the adaptive files with those of the separate runs byte by byte (creation times aside). Non-trivial: more than two segments',
    assumptions=CLI_ASSUME + ['as K03 for start and end times, as K04 for the pictures and the audio', 'the list marks no discontinuity where movies join, so the clocks must go on'])
SPECS['K11'] = dict(CLI, harness='h_list', props=['list_samples', 'list_groups', 'list_keys', 'list_boxes'], hang=60, quick=dict(cases=6000, time=240), thorough=dict(cases=100000),
    rule='movies as in K01 (with all forms of tables of the reference writer) and DASH packages made from them, clear and encrypted, are listed by the kinds pick, gop and analyze; every line is compared with the samples, key frames and boxes found by an independent parser; keys of 1 to 60 bytes are converted by hex64 and 64hex. Non-trivial: more than 20 samples, three key frames, 30 boxes, a byte of key',
    assumptions=CLI_ASSUME + ['key frames are presented in the order of decoding', 'the boxes inside sample descriptions may be listed', 'of the details of boxes those of headers and fragments are compared', 'the exit code of hex64 and 64hex is not claimed'])
