#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, state, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))


p('C01', 'Parsing arbitrary bytes is memory safe and free of undefined behaviour',
  'Reading, dumping and rewriting any byte sequence as an MP4 file or as a single box of any type never reads or writes '
  'out of bounds, uses freed memory, overruns the stack, dereferences null or triggers undefined behaviour: it either '
  'succeeds or ends with an ordinary exception.',
  ['inputs'], 'every finite byte sequence given to the file reader or to the parser of any single box type',
  'The tests parse no box payload at all; an attacker-chosen field can sit at any offset of any of about 75 box types.',
  ['src/reader/reader.cpp', 'src/box/', 'src/box_header.cpp', 'src/bitio/', 'include/shiguredo/mp4/bitio/bitio.hpp'],
  [('box fields and element vectors', 'decoded from the input', 'src/box/*.cpp'),
   ('bit cursor', 'octet and width', 'src/bitio/reader.cpp')],
  [('box parsing', 'src/box/*.cpp readData'), ('recursive descent', 'src/reader/reader.cpp readBox')],
  ['process state under AddressSanitizer and UndefinedBehaviorSanitizer'])

p('C02', 'Parsing uses time and memory bounded by the input size',
  'Reading any byte sequence terminates, and the memory held at any moment and the number of read operations are bounded by '
  'a fixed multiple of the number of input bytes; an element count or length field larger than the data present does not '
  'cause memory or time to be spent on elements that are not there.',
  ['inputs'], 'every finite byte sequence, in particular every count and length field overwritten with large values',
  'A few bytes can announce four thousand million elements; tests only use well-formed values.',
  ['src/reader/reader.cpp', 'src/box/', 'src/box_header.cpp', 'include/shiguredo/mp4/bitio/bitio.hpp'],
  [('entry counts', 'number of elements announced by the input', 'src/box/*.cpp readData')],
  [('element loops', 'src/box/*.cpp readData'), ('top level loop', 'src/reader/reader.cpp read')],
  ['allocation and stream-read counters of the process'])

p('C03', 'Each box is written in its specified byte layout',
  'Writing a box produces exactly the payload its specification (ISO/IEC 14496-12/14/15, the Opus, VP and AV1 bindings, '
  'QuickTime) prescribes for the values it was given: field order, widths, signedness, byte order, version-dependent and '
  'flag-dependent fields, reserved bits and list counts; a list longer than its count field can express, or an extension the form of the box has no place for, is refused with an exception. Other parsers rely on every bit of this layout.',
  ['inputs'], 'every supported box type, version and flag combination, every field value within its range and every list length',
  'The tests check the bytes of no box payload; each of about 75 types has its own layout and version switches.',
  ['src/box/', 'src/box.cpp', 'include/shiguredo/mp4/bitio/bitio.hpp', 'src/bitio/'],
  [('box fields', 'values given by the caller', 'include/shiguredo/mp4/box/*.hpp')],
  [('serialisation', 'src/box/*.cpp writeData')], ['bytes written to the output stream'])

p('C04', 'Reading a box and writing it again reproduces the same bytes',
  'For every well-formed box, reading its bytes into a box, a fresh one or one that held other values, restores all values (the dump shows them) and writing that '
  'box reproduces the original bytes, and a box written from values reads back to the same values. No field is lost, '
  'reordered, truncated or invented.',
  ['inputs'], 'every well-formed payload of every supported box type in the canonical form of its descriptors, including list lengths and field values only other programs produce',
  'Reading and writing are separate hand-written routines per type whose agreement no test compares.',
  ['src/box/', 'src/box.cpp', 'src/bitio/'],
  [('box fields', 'decoded values', 'include/shiguredo/mp4/box/*.hpp')],
  [('decode', 'src/box/*.cpp readData'), ('encode', 'src/box/*.cpp writeData')],
  ['bytes written after reading', 'the decoded values as dumped'])

p('C05', 'A box\'s declared size equals the bytes it writes and the bytes it consumes',
  'For every box, the size it reports before writing, the number of bits it says it wrote, the number of bytes that reach the '
  'stream and the number of bits it says it consumed when reading the same bytes all agree; and the size field of its header '
  'covers exactly header and payload.',
  ['inputs'], 'every supported box type, version, flag combination and list length',
  'Sizes are computed by hand-written formulas separate from the writers; a mismatch shifts every later byte of a file.',
  ['src/box/', 'src/box.cpp', 'src/box_info.cpp'],
  [('data size', 'size declared in the header', 'src/box_header.cpp')],
  [('size formulas', 'src/box/*.cpp getDataSize'), ('bit counts', 'writeData and readData return values')],
  ['return values, header size field and stream position'])

p('C06', 'Bit-level reading and writing are exact and mutually inverse',
  'Integers of any width from 1 to 64 bits, signed or unsigned, booleans, arrays, variable-length integers, plain and '
  'length-prefixed strings written in any sequence appear most significant bit first without gaps, and reading them with the '
  'same widths returns the same values; reading past the end or at a misaligned position fails with an exception instead of '
  'returning invented data.',
  ['inputs', 'histories'], 'every sequence of primitive operations, widths and values within range',
  'Tests cover a handful of widths; carry, sign extension and partial octets depend on width, alignment and value together.',
  ['src/bitio/', 'include/shiguredo/mp4/bitio/bitio.hpp', 'src/endian/'],
  [('pending octet', 'bits not yet flushed or consumed', 'src/bitio/reader.cpp, src/bitio/writer.cpp')],
  [('bit loops', 'include/shiguredo/mp4/bitio/bitio.hpp')], ['bytes written and values read'])

p('C07', 'A written box tree is a gapless, properly nested sequence of boxes',
  'After offsets and sizes of a tree of boxes have been assigned, every box starts where the previous sibling ends, children '
  'fill their parent exactly after its own payload, each size covers header, payload and descendants, and the bytes written '
  'match those offsets and sizes. The compact 8-byte header is used unless the size needs the 16-byte form.',
  ['inputs', 'histories'], 'every tree shape, box types, payload sizes, repeated re-layout and start offset',
  'The layout is computed recursively before writing; tests build one or two fixed trees.',
  ['src/box_info.cpp', 'src/box_header.cpp', 'src/box.cpp'],
  [('offset and size', 'position of each box', 'src/box_header.cpp')],
  [('layout', 'src/box_info.cpp adjustOffsetAndSize'), ('write', 'src/box_info.cpp write')],
  ['bytes of the written tree and its dump'])

p('C08', 'Box headers and box types are read, written and compared faithfully',
  'Every header form (32-bit size, 64-bit size, extends-to-end-of-file) is written with the right size field and type and '
  'reads back with the same offset, size, header length and type; positioning to '
  'the payload and to the end of a box lands exactly there. Box types compare, order, match wildcards and print according to '
  'their four bytes.',
  ['inputs'], 'every offset, size, header form and four-byte type, including truncated headers',
  'Header values span 64 bits and interact with stream position and end of file; tests use a few constants.',
  ['src/box_header.cpp', 'src/box_type.cpp', 'src/box.cpp'],
  [('header', 'offset, size, header size, type', 'src/box_header.cpp')],
  [('header reading', 'src/box_header.cpp read_box_header'), ('header writing', 'src/box_header.cpp write')],
  ['header bytes, accessors and stream positions'])

p('C09', 'Every sample given to the simple writer is found once, intact, through the index',
  'In a recording made with the simple writer, following the sample tables of each track (chunk offsets, samples per chunk, '
  'sample sizes) yields exactly the samples added to that track, in order, byte for byte; no two samples overlap, and together '
  'the samples of all tracks account for the whole media data box.',
  ['inputs', 'histories'], 'every number and kind of tracks, interleaving, chunk division, sample count and sample size',
  'The location of a sample is spread over four run-length tables and two box sizes; no test decodes a recording.',
  ['src/writer/simple_writer.cpp', 'src/writer/writer.cpp', 'src/track/track.cpp', 'src/track/'],
  [('chunk list', 'offset and sample count of each chunk', 'src/track/track.cpp'),
   ('sample sizes', 'per sample', 'src/track/track.cpp'), ('media data size', 'bytes so far', 'src/writer/writer.cpp')],
  [('adding samples', 'src/track/track.cpp addMdatData'), ('tables', 'src/track/track.cpp make_stsc_entries, make_offset_box')],
  ['output file decoded by an independent demultiplexer'])

p('C10', 'Faststart output indexes every sample once, and the index comes first',
  'In a recording made with the faststart writer the movie index precedes the media data, following the tables of each track '
  'yields exactly the samples added, in order, byte for byte, without overlap and covering the whole media data box. '
  'The intermediate file is created where requested, is removed when the recording is complete, and never disturbs other files.',
  ['inputs', 'histories'], 'every set of tracks, interleaving, sample sizes, and media data sizes around the copy buffer',
  'Offsets must be rewritten after the index size is known and the data are copied through a temporary file in blocks.',
  ['src/writer/faststart_writer.cpp', 'src/writer/writer.cpp', 'src/track/track.cpp'],
  [('intermediate file', 'media data collected so far', 'src/writer/faststart_writer.cpp'),
   ('chunk list', 'offsets to be rebased', 'src/track/track.cpp')],
  [('rebasing', 'src/writer/faststart_writer.cpp recreateMoovBoxInfo'), ('copying', 'copyMdatData')],
  ['output file decoded by an independent demultiplexer', 'directory of the intermediate file'])

p('C11', 'Recorded timing reproduces the timestamps and durations given',
  'Decoding the time table of a track gives every sample the timestamp it was added with relative to the first, the last '
  'sample extends to the track duration, and track, movie, media and edit durations and the media start time equal the values '
  'given, each in its own timescale. Durations that do not fit 32 bits use the 64-bit form.',
  ['inputs', 'histories'], 'every nondecreasing timestamp sequence, timescales, duration and media time',
  'Timing is delta- and run-length-coded and converted between two timescales; the tests check one fixed list.',
  ['src/track/track.cpp', 'src/writer/writer.cpp', 'src/track/soun.cpp', 'src/track/vide.cpp', 'src/box/elst.cpp'],
  [('sample durations', 'differences of timestamps', 'src/track/track.cpp')],
  [('finalisation', 'src/track/track.cpp finalize'), ('run-length coding', 'make_stts_entries')],
  ['time tables and durations of the output file'])

p('C12', 'Sync samples and pre-roll groups are recorded for exactly the right samples',
  'For a video track the sync sample table lists exactly the samples added as key frames, in increasing order and numbered '
  'from one; audio tracks that need pre-roll describe their roll distance and assign every sample to that group exactly once.',
  ['inputs', 'histories'], 'every pattern of key frames, sample counts and audio roll distances',
  'A player seeks with these tables; off-by-one numbering or a lost entry shows only for particular patterns.',
  ['src/track/track.cpp', 'src/track/opus.cpp', 'src/track/aac.cpp', 'src/track/vide.cpp'],
  [('key sample numbers', 'samples added as key frames', 'src/track/track.cpp')],
  [('sync table', 'src/track/track.cpp makeStssBoxInfo'), ('sample groups', 'src/track/opus.cpp, src/track/aac.cpp')],
  ['sync and sample-group tables of the output file'])

p('C13', 'Track, codec and movie metadata in a recording match what the caller configured',
  'Each track of a recording carries the codec configuration (sample entry, decoder configuration, channel, rate, bitrate and '
  'picture parameters), handler, data reference, identifier and dimensions it was created with; track identifiers are unique '
  'and nonzero and the movie header names the next free one; file brands and the user data tag are as given.',
  ['inputs', 'configurations'], 'every codec, parameter values within range, explicit and automatic track identifiers and track order',
  'Each codec fills in its own nested boxes; the tests inspect none of them.',
  ['src/track/', 'src/writer/writer.cpp', 'src/box/sample_entry.cpp', 'src/box/esds.cpp'],
  [('track parameters', 'given by the caller', 'include/shiguredo/mp4/track/*.hpp'),
   ('next track id', 'src/writer/writer.cpp', 'src/writer/writer.cpp')],
  [('sample descriptions', 'src/track/*.cpp makeStsdBoxInfo')], ['boxes of the output file'])

p('C14', 'H.264 byte streams become length-prefixed samples and parameter sets losslessly',
  'Splitting an Annex B byte stream finds every NAL unit exactly once whatever mix of 3- and 4-byte start codes is used; '
  'coded slices are stored as samples with a 4-byte length each, parameter sets are collected into the decoder configuration '
  'without duplicates in order of first appearance, and profile and level come from the first sequence parameter set. A stream '
  'that cannot be represented is refused with an exception, never stored damaged.',
  ['inputs', 'histories'], 'every sequence of NAL units, start code lengths, payload bytes (including zeros) and call division',
  'Start code search depends on byte patterns across unit boundaries; tests use a few short arrays.',
  ['src/track/h264.cpp', 'src/box/avc.cpp'],
  [('parameter set lists', 'sets seen so far', 'src/track/h264.cpp')],
  [('unit search', 'src/track/h264.cpp find_next_nal_unit'), ('conversion', 'src/track/h264.cpp addData')],
  ['media data and decoder configuration of the output file'])

p('C15', 'Recordings beyond 4 GiB keep correct sizes and offsets',
  'When media data or any offset passes the 32-bit limit, the media data header switches to the 64-bit size form, chunk '
  'offsets to the 64-bit table, and every sample is still found intact at its recorded position, with both writers; just '
  'below the limit the compact forms remain in use.',
  ['inputs', 'histories'], 'media data sizes and chunk offsets below, at and beyond 2^32, with either writer',
  'No unit test writes four gigabytes; the switch-over happens at a handful of exact sizes.',
  ['src/writer/simple_writer.cpp', 'src/writer/faststart_writer.cpp', 'src/track/track.cpp', 'src/box_header.cpp'],
  [('media data size', '64-bit counter', 'src/writer/writer.cpp'), ('chunk offset', '64-bit', 'src/track/track.cpp')],
  [('header switch', 'src/writer/*.cpp'), ('offset table choice', 'src/track/track.cpp make_offset_box')],
  ['bytes of the output at its recorded offsets'])

p('C16', 'An input or output failure is reported, never silently producing a broken file',
  'If writing to the output, to the intermediate file or reading it back fails at any point, the operation in progress reports '
  'it with an exception; a recording whose every step returned normally is complete in the output stream. Likewise reading a '
  'file whose input fails or ends early throws or gives the right dump. A fault never causes '
  'an endless loop, a crash or an unreported loss.',
  ['fault_sequences'], 'a failure of any I/O operation, once or from then on, after any number of successful bytes or operations, in either writer and in the reader',
  'Faults can hit at every byte of every step; the tests never make I/O fail.',
  ['src/writer/simple_writer.cpp', 'src/writer/faststart_writer.cpp', 'src/bitio/writer.cpp', 'src/box_header.cpp', 'src/reader/reader.cpp'],
  [('stream state', 'of the output', 'std::ostream'), ('intermediate file state', 'FILE', 'src/writer/faststart_writer.cpp')],
  [('error checks', 'src/writer/*.cpp'), ('block copy', 'copyMdatData')],
  ['exceptions and output bytes under injected faults'])

p('C17', 'No memory, file descriptor or temporary file is leaked, on success or failure',
  'Once readers, writers, tracks and box trees are destroyed, all memory and file descriptors they obtained are released, whether '
  'the operation succeeded or ended with an exception, so a long-running process can repeat it indefinitely. A completed faststart '
  'recording and a writer that cannot be constructed leave no intermediate file; after a failed or abandoned recording only the '
  'file named by getIntermediateFilePath remains, and deleteIntermediateFile removes it.',
  ['inputs', 'histories', 'fault_sequences'], 'every parse of valid or invalid input and every recording, complete, failed or abandoned at any step',
  'Ownership passes through raw pointers and error paths leave at many points; tests run once and exit.',
  ['src/box_info.cpp', 'src/box.cpp', 'src/reader/reader.cpp', 'src/writer/', 'src/box_map.cpp', 'src/track/'],
  [('owned boxes', 'tree of box nodes', 'src/box_info.cpp'), ('descriptor', 'of the intermediate file', 'src/writer/faststart_writer.cpp')],
  [('destruction', 'destructors of trees, readers and writers')],
  ['live heap bytes, open descriptors and directory entries of the process'])

p('C18', 'Independent readers, writers and tracks can be used concurrently',
  'Objects that are not shared can be used from different threads at the same time without data races, and each produces '
  'exactly the output it produces alone.',
  ['schedules'], 'every interleaving of threads each working on its own reader, writer, tracks or boxes',
  'Hidden shared state (statics, library globals) races only under particular interleavings.',
  ['src/time/time.cpp', 'src/track/', 'src/writer/', 'src/reader/reader.cpp', 'src/box_types.cpp'],
  [('function statics and globals', 'shared by all threads', 'src/**')],
  [('all public operations', 'include/shiguredo/mp4/**')], ['ThreadSanitizer reports and per-thread output'])

p('C19', 'The dump of a file lists every box once with its true place and values',
  'For every well-formed file, the dump shows each box exactly once in file order and nesting depth, with its type, offset and '
  'size (32-bit, 64-bit or to-end-of-file form), and the decoded value of every field, whatever the order and repetition of boxes.',
  ['inputs'], 'every well-formed file made of supported and unsupported boxes in any legal nesting and header form',
  'Nesting, header forms and container rules combine freely; no test reads a file.',
  ['src/reader/reader.cpp', 'src/box_info.cpp', 'src/box.cpp', 'src/box/', 'src/cli/mp4-tool.cpp'],
  [('box tree', 'boxes read so far', 'src/reader/reader.cpp')],
  [('recursive reading', 'src/reader/reader.cpp readBox'), ('printing', 'src/box_info.cpp toString')],
  ['text printed by the dump'])

p('C20', 'Both writers give the same recording for the same calls, deterministically',
  'The same sequence of calls gives the same track metadata, timing, and samples with the simple and with the faststart writer; '
  'repeating it gives identical bytes up to the creation time; and no byte of the output or of a dump depends on uninitialised '
  'memory or on earlier work of the process.',
  ['inputs', 'histories'], 'every recording, in fresh or long-used processes',
  'Differences show only when two executions of the same calls are compared, or under tracking of uninitialised memory.',
  ['src/writer/', 'src/track/', 'src/box/'],
  [('all fields of boxes and tracks', 'must be initialised before use', 'include/shiguredo/mp4/**')],
  [('index generation', 'src/track/track.cpp, src/writer/*.cpp')], ['output bytes of paired executions'])

p('C21', 'Damaged structure is rejected with an error, never accepted or fatal',
  'A file that is truncated inside a box, whose box is smaller than its header, or extends past its parent or the file, or whose '
  'declared lists exceed the box, is refused with an exception, and the command line tool then prints an error and returns a '
  'failure status without crashing; undamaged files are accepted by both.',
  ['inputs'], 'every truncation length and every size or count field altered to an inconsistent value in any well-formed file',
  'Each size field at each depth is its own case; accepting damage silently or aborting goes unnoticed by tests.',
  ['src/reader/reader.cpp', 'src/box_header.cpp', 'src/box/', 'src/cli/mp4-tool.cpp'],
  [('remaining size', 'of the enclosing box', 'src/reader/reader.cpp')],
  [('bounds checks', 'src/reader/reader.cpp readBox'), ('error reporting', 'src/cli/')],
  ['exceptions of the reader', 'exit status and output of the tool'])

p('C22', 'Times since 1904 are converted and printed correctly for every instant',
  'Converting Unix time to the 1904 epoch adds exactly the fixed difference, and every representable instant from 1904 on is '
  'printed as the correct Gregorian UTC date and time; instants beyond the supported range are printed as a fixed placeholder, '
  'independent of time zone settings. A recording made at any time from 1904 on carries the time its writer was made, whole, as creation '
  'and modification time of the movie and of every track and media, however the clock moves meanwhile.',
  ['inputs', 'configurations'], 'every 64-bit time value and time zone setting; every state and course of the clock',
  'Leap years, the 1970 boundary and overflow cannot be settled by a few dates.',
  ['src/time/time.cpp', 'src/writer/writer.cpp', 'src/box/mvhd.cpp', 'src/box/tkhd.cpp', 'src/box/mdhd.cpp'],
  [('time value', 'seconds since 1904', 'src/time/time.cpp')],
  [('formatting', 'src/time/time.cpp format_epoch_19040101')], ['formatted text'])

p('C23', 'Version and flags behave as independent 8-bit and 24-bit values',
  'Setting, adding, removing and testing flags of a box acts bitwise on a 24-bit set, independently of the version, and both '
  'are written and read unchanged for every box type that has them; boxes without version and flags keep reporting version 0 and no flags, and their bytes are unaffected.',
  ['inputs', 'histories'], 'every sequence of flag and version operations with every value',
  'Flag algebra over three separate bytes goes wrong only for particular combinations.',
  ['src/box.cpp'],
  [('version, flags', 'one and three bytes', 'src/box.cpp')],
  [('flag operations', 'src/box.cpp setFlags, addFlag, removeFlag, checkFlag')],
  ['values returned after each operation and bytes written'])

p('C24', 'Every supported box type is recognised, and unknown boxes are preserved',
  'Each supported type code creates the parser for that type, carrying that type, with its supported versions reported; every '
  'other type code is reported as unsupported and a box of that type is kept byte for byte, dumped as unsupported and does not '
  'disturb its neighbours.',
  ['inputs'], 'every four-byte type code, at top level and inside any container',
  'The registry is a hand-kept table of about 85 codes out of 2^32.',
  ['src/box_types.cpp', 'src/box_map.cpp', 'src/box/unsupported.cpp', 'src/box/ilst.cpp'],
  [('registry', 'type code to factory and versions', 'src/box_map.cpp')],
  [('lookup', 'src/box_map.cpp getBoxInstance, isSupported, isSupportedVersion')],
  ['types and dumps of created boxes'])

p('C25', 'Run-length sample tables expand to exactly the sequence they encode',
  'For every list of sample durations and every list of chunks, the run-length tables built from it expand to exactly that '
  'list, consecutive runs are merged so that no two adjacent entries could be one, and chunk offsets appear in order in the '
  '32-bit table exactly when all of them fit 32 bits.',
  ['inputs'], 'every list of durations and of chunks with nondecreasing offsets, of any length',
  'Run boundaries at the start, the end and after repeats are exponentially many; tests use two lists.',
  ['src/track/track.cpp', 'src/box/stts.cpp', 'src/box/stsc.cpp', 'src/box/stco.cpp', 'src/box/co64.cpp'],
  [('run', 'value and count being accumulated', 'src/track/track.cpp')],
  [('run-length coding', 'src/track/track.cpp make_stts_entries, make_stsc_entries, make_offset_box')],
  ['entries of the produced tables'])

p('C26', 'A refused call leaves the recording as it was',
  'When adding data ends with an exception (a sample over 4 GiB, a gap between samples that 32 bits cannot express, an H.264 access '
  'unit that does not start with a start code or holds an unsupported unit, a write of the sample to the output that fails before any of '
  'it is written) or a track cannot be made (no identifier), the recording goes on as if the call had not been made: the file finished '
  'later, index, samples and chunks included, is byte for byte the one the other calls alone would have made. Of a refused H.264 '
  'access unit exactly the units before the offending one are recorded. If a sample could not be written to the intermediate file, the '
  'faststart writer refuses to finish the recording, or finishes it without that sample.',
  ['inputs', 'histories', 'fault_sequences'], 'every history of calls, with any number of refused calls at any place in it, on every track kind and both writers',
  'State that a refused call has half changed shows only in the file a later call makes; tests check that a call throws, not what comes after.',
  ['src/track/track.cpp', 'src/track/h264.cpp', 'src/writer/faststart_writer.cpp', 'src/writer/simple_writer.cpp'],
  [('recording state', 'chunk under construction, sample sizes, durations, key samples, parameter sets, last timestamp, next track identifier',
    'include/shiguredo/mp4/track/track.hpp')],
  [('addition of data', 'src/track/track.cpp addMdatData, terminateCurrentChunk, finalize'), ('H.264 units', 'src/track/h264.cpp addData')],
  ['refusals', 'bytes of the finished file'])

p('C27', 'mp4-tool is a well-behaved command line tool',
  'For every file the library accepts, `mp4-tool dump -f FILE` writes exactly the dump to standard output and returns 0, whatever the '
  'name and place of the file (blanks, braces, percent signs, symbolic links, relative names, /dev/stdin), the spelling and value of the '
  'log level, the locale and the time zone; log messages go to standard error only, and there are none for it from level info on, some below. For a file '
  'that is missing, is no file or is refused, it returns a failure status, prints nothing to standard output and says why on standard error, '
  'or says nothing where the level (critical or off) keeps errors out. A wrong command line (no or unknown subcommand, option or level) is a failure with a message, help '
  'that is asked for is not. When the dump cannot be written completely, it returns a failure status. It creates, changes and removes no file.',
  ['inputs', 'configurations', 'fault_sequences'], 'every file, file name, accepted and refused command line, log level, environment, and state of standard output',
  'Scripts trust the exit status and the two streams; what spoils them is a combination of file, options and environment.',
  ['src/cli/mp4-tool.cpp', 'src/reader/reader.cpp'],
  [('process state', 'options, logger, standard streams', 'src/cli/mp4-tool.cpp main')],
  [('main program', 'src/cli/mp4-tool.cpp main'), ('printing of the dump', 'src/reader/reader.cpp')],
  ['exit status', 'standard output', 'standard error', 'directory'])

p('C28', 'Recording takes time and memory bounded by what is recorded',
  'While a recording is made, no media data is kept in memory beyond the sample being added: what is held grows only with the number of '
  'samples, chunks and tracks, by a bounded amount for each, however many bytes are recorded. The time and the number of output operations '
  'of adding data grow in proportion to the bytes and samples added, those of finishing to the samples, chunks and tracks and, for the '
  'faststart writer, the bytes copied through a buffer of fixed size; media data is written to the output once.',
  ['inputs', 'histories'], 'every number of tracks, samples, chunks, coded units per access unit and bytes, on every track kind and both writers',
  'Growth does not show in tests with a handful of samples; it makes recordings of hours fail.',
  ['src/track/track.cpp', 'src/track/h264.cpp', 'src/writer/simple_writer.cpp', 'src/writer/faststart_writer.cpp', 'src/box_info.cpp'],
  [('what is held', 'sizes, durations, chunk infos, key samples', 'include/shiguredo/mp4/track/track.hpp')],
  [('addition of data', 'src/track/track.cpp addMdatData'), ('finishing', 'src/writer/*.cpp appendTrakAndUdtaBoxInfo, copyMdatData')],
  ['memory allocated', 'processor time', 'operations and bytes on the output'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
