#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data in one place so that ids stay unique)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = state
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)


I, CF, HI, FA, SC = ['inputs'], ['inputs', 'configurations'], ['inputs', 'histories'], ['inputs', 'fault_sequences'], []
B = 'bloscpack/'

p('C01', 'The chunk plan partitions the input exactly',
  'For every input size and every chunk size (integer, or a number with suffix) the planned chunks cover the input exactly: '
  '(number of chunks - 1) * chunk size + last chunk size equals the input size, every chunk but the last has the full chunk '
  'size, and the last one is between 1 and the chunk size (an empty input is one chunk of size 0). A chunk size outside '
  '1..maximum Blosc buffer size is rejected whenever the input is not empty, an input smaller than the chunk size is one '
  'chunk, and a plan with more chunks than the format can record is refused.',
  I, 'all input sizes >= 0 and all chunk sizes', 'two unbounded integers, with boundary cases at every multiple of the chunk size',
  [B + 'args.py'], [('calculate_nchunks', 'bloscpack/args.py:calculate_nchunks')])

p('C02', 'Packing compresses every input byte once, in order, and stores it in order',
  'Packing a file, a bytes object, a NumPy array or an in-memory list of chunks reads the whole input front to back in the '
  'planned chunk sizes, compresses each chunk exactly once with the given Blosc arguments, and stores the result of chunk k '
  'as the k-th stored chunk. No chunk is skipped, repeated, reordered or altered between compression and storage, and the '
  'header records the real chunk count, chunk size, last chunk size and typesize.',
  CF, 'all inputs, chunk sizes, Blosc arguments, with/without offsets, checksum and metadata',
  'the guarantee concerns every iteration of a loop whose length is not bounded; tests use a few sizes',
  [B + 'abstract_io.py', B + 'file_io.py', B + 'numpy_io.py', B + 'memory_io.py'],
  [('pack loop', 'bloscpack/abstract_io.py:pack'), ('PlainFPSource.__iter__', 'bloscpack/file_io.py'),
   ('PlainNumpySource.__iter__', 'bloscpack/numpy_io.py'), ('CompressedFPSink.put', 'bloscpack/file_io.py'),
   ('CompressedMemorySink.put', 'bloscpack/memory_io.py')])

p('C03', 'Unpacking decompresses every stored chunk once, in order, and outputs all of it',
  'Unpacking reads as many chunks as the header announces, starting right behind the header, metadata and offsets sections '
  'and stepping by compressed size plus digest size, decompresses exactly the bytes of each stored chunk, and appends each '
  'result whole and in order to the output (file, bytes, array, or in-memory list). No chunk is skipped, repeated or '
  'reordered, nothing else is written to the output, and the metadata returned is the deserialised metadata of the file (or '
  'none if it has none).',
  CF, 'all well-formed files (any chunk count, checksum, with/without offsets and metadata)',
  'files with every combination of sections and any number of chunks; tests sample a handful',
  [B + 'abstract_io.py', B + 'file_io.py', B + 'numpy_io.py', B + 'memory_io.py'],
  [('unpack loop', 'bloscpack/abstract_io.py:unpack'), ('CompressedFPSource', 'bloscpack/file_io.py'),
   ('_read_compressed_chunk_fp', 'bloscpack/file_io.py'), ('PlainFPSink.put', 'bloscpack/file_io.py'),
   ('PlainNumpySink.put', 'bloscpack/numpy_io.py')])

p('C04', 'A chunk is only decompressed after its stored checksum was verified',
  'If the header names a checksum, every chunk that unpacking decompresses (to a file, bytes, an array or memory) has had the '
  'digest of exactly its compressed bytes compared with the digest stored behind it, for each of the eight checksums, before '
  'it is decompressed; the same holds for the last chunk that appending decompresses. A difference, including a missing or '
  'truncated digest, raises ChecksumMismatch; equality never does.',
  FA, 'all damaged and intact files, all checksum algorithms, every chunk position',
  'damage may hit any byte of any chunk or digest, including truncation; tests flip one byte in one file',
  [B + 'abstract_io.py', B + 'append.py', B + 'checksums.py', B + 'file_io.py'],
  [('digest comparison', 'bloscpack/abstract_io.py:unpack'), ('last chunk check', 'bloscpack/append.py:append_fp')])

p('C05', 'Each stored chunk is followed by the right digest of its compressed bytes',
  'Whenever a chunk is written to a file (packing or appending) the bytes written are the compressed chunk immediately '
  'followed by the digest, computed over exactly those compressed bytes with the algorithm recorded in the header, of the '
  'length belonging to that algorithm, and by nothing if no checksum is used. The in-memory sink stores the same digest '
  'beside the chunk.',
  CF, 'all chunks and all nine checksum settings', 'holds for every chunk and algorithm; tests use few combinations',
  [B + 'abstract_io.py', B + 'file_io.py', B + 'append.py', B + 'checksums.py', B + 'memory_io.py'],
  [('do_checksum', 'bloscpack/abstract_io.py:CompressedSink.do_checksum'),
   ('_write_compressed_chunk', 'bloscpack/file_io.py'), ('append_fp', 'bloscpack/append.py')])

p('C06', 'Metadata is protected by its checksum when written and checked before it is used',
  'If the metadata header names a checksum, the digest written behind the reserved metadata space is that algorithm over '
  'exactly the metadata bytes as stored (after optional compression), and none is written otherwise. Reading compares the '
  'digest of exactly the stored metadata bytes with the stored one before they are decompressed or deserialised, raises '
  'ChecksumMismatch on any difference including truncation, and never on equality.',
  FA, 'all metadata, all checksum settings, every damage to the metadata or its digest',
  'damage at any byte and every algorithm/codec combination', [B + 'file_io.py', B + 'checksums.py'],
  [('_read_metadata', 'bloscpack/file_io.py'), ('_write_metadata', 'bloscpack/file_io.py')])

p('C07', 'The Bloscpack header has the documented layout and decodes to what was encoded',
  'Encoding any valid header gives exactly the 32 documented bytes: magic "blpk", version, options (bit 0 offsets, bit 1 '
  'metadata, others 0), checksum id, typesize as unsigned bytes, chunk size and last chunk as little-endian signed 32 bit, '
  'chunk count and append capacity as little-endian signed 64 bit. Decoding reads each field from the same place, so that '
  'decoding an encoded header yields the same field values and encoding a decoded one the same bytes.',
  I, 'all valid header values and all 32 byte headers that decode', 'nine fields with up to 2^64 values each',
  [B + 'headers.py', B + 'constants.py'],
  [('BloscpackHeader.encode', 'bloscpack/headers.py'), ('BloscpackHeader.decode', 'bloscpack/headers.py'),
   ('create_options', 'bloscpack/headers.py')])

p('C08', 'The metadata header has the documented layout and decodes to what was encoded',
  'Encoding any valid metadata header gives exactly the 32 documented bytes: 8 bytes of magic format padded with NUL, '
  'options, checksum id, codec id, level as unsigned bytes, metadata size, allocated size and compressed size as '
  'little-endian unsigned 32 bit, and 8 bytes of user codec padded with NUL. Decoding reads each field from the same place '
  'and yields the values that were encoded.',
  I, 'all valid metadata header values', 'nine fields, each with a large value space', [B + 'headers.py', B + 'constants.py'],
  [('MetadataHeader.encode', 'bloscpack/headers.py'), ('MetadataHeader.decode', 'bloscpack/headers.py')])

p('C09', 'Algorithm tables follow the format documentation',
  'The numbers stored in files mean what the format says: checksum ids 0..8 are None, adler32, crc32, md5, sha1, sha224, '
  'sha256, sha384, sha512 and each produces the documented number of bytes with the named algorithm (the zlib ones as '
  'little-endian unsigned 32 bit), metadata codec ids 0 and 1 are None and zlib, the serializer JSON is real JSON both '
  'ways, and magic numbers, lengths, limits and the Blosc codec names have their documented values. The 16 byte header of a '
  'Blosc chunk and its flags byte are decoded field by field as documented.',
  ['inputs', 'programs'], 'every identifier, every input to a digest, every Blosc header',
  'a permuted or altered table still round-trips with itself, so tests pass while old files become unreadable',
  [B + 'checksums.py', B + 'metacodecs.py', B + 'serializers.py', B + 'constants.py', B + 'headers.py'],
  [('CHECKSUMS', 'bloscpack/checksums.py'), ('CODECS', 'bloscpack/metacodecs.py'),
   ('SERIALIZERS', 'bloscpack/serializers.py'), ('decode_blosc_header', 'bloscpack/headers.py')])

p('C10', 'Foreign, damaged and newer headers are rejected before they are used',
  'A header that is not 32 bytes long, lacks the magic, has an unused option bit set, or has an unknown checksum id, metadata '
  'codec id or format version other than the supported one never yields a header object to read the rest of the file with: '
  'reading raises instead. On every reading path (unpack, append, info, metadata update) the header is decoded and its '
  'format version checked before any other part of the file is read or written.',
  FA, 'all 32 byte (and shorter) file beginnings, all entry points that read a file',
  'the space of damaged headers is 2^256; tests try a handful', [B + 'headers.py', B + 'file_io.py', B + 'append.py', B + 'cli.py'],
  [('BloscpackHeader.decode', 'bloscpack/headers.py'), ('_read_bloscpack_header', 'bloscpack/file_io.py'),
   ('MetadataHeader.decode', 'bloscpack/headers.py')])

p('C11', 'Header fields outside their documented range are refused',
  'Creating a file header raises unless the version is 0..255, the checksum known, the typesize 0..255, chunk size and last '
  'chunk -1 or a length up to the maximum Blosc buffer size with the last chunk not larger than the chunk size, the chunk '
  'count -1..2^63-1, and the append capacity not negative, 0 if the chunk count is unknown, and together with the chunk '
  'count at most 2^63-1; a metadata header raises unless its level is 0..9, its sizes are 0..2^32-1, its strings at most 8 '
  'bytes, options eight binary digits and checksum and codec known. Values within these ranges are accepted, stored '
  'unchanged, and fit the width they are encoded in.',
  I, 'all argument values of both header constructors', 'boundary values of a dozen independent integer parameters',
  [B + 'headers.py'], [('BloscpackHeader.__init__', 'bloscpack/headers.py'), ('MetadataHeader.__init__', 'bloscpack/headers.py'),
                       ('check_range', 'bloscpack/headers.py')])

p('C12', 'File sections are in the documented order and offsets point to the chunks',
  'A packed file consists of the 32 byte header, the metadata section if there is metadata, the offsets table if offsets are '
  'used, and the chunks, without gaps. The table has chunk count + append capacity little-endian signed 64 bit entries; '
  'entry k of the stored chunks is the absolute position of the first byte of chunk k, and the entries reserved for '
  'appending are -1.',
  CF, 'all inputs and argument combinations', 'positions depend on all preceding compressed sizes; tests check few files',
  [B + 'file_io.py', B + 'abstract_io.py'], [('init_offsets/finalize/put', 'bloscpack/file_io.py:CompressedFPSink'),
                                           ('_write_offsets', 'bloscpack/file_io.py')])

p('C13', 'The metadata section has a fixed allocated size that new metadata must fit in',
  'Writing metadata fills a section of 32 + allocated size + digest size bytes: header, stored metadata, NUL padding up to '
  'the allocated size, digest, in that order, and the reported total equals what is written. Metadata that does not fit the '
  'allocation is refused with MetadataSectionTooSmall before a byte of the section is written; rewriting metadata keeps '
  'the allocated size and digest length of the existing section, so that nothing behind the section is overwritten or '
  'moved. Unchanged metadata, and only that, and a checksum of another length are refused before writing.',
  HI, 'all metadata contents, allocations, settings and sequences of rewrites',
  'the effect of rewriting depends on the sizes of the old and new metadata after compression',
  [B + 'file_io.py', B + 'append.py', B + 'args.py'],
  [('_write_metadata', 'bloscpack/file_io.py'), ('_rewrite_metadata_fp', 'bloscpack/append.py'),
   ('_recreate_metadata', 'bloscpack/append.py')])

p('C14', 'The metadata header states how the metadata was really stored',
  'The metadata header written records the serializer, checksum, codec and level that were used: if compression is requested '
  'and does not make the metadata larger, codec and level as requested and the compressed bytes are stored, otherwise codec '
  'None, level 0 and the plain serialised bytes. The recorded compressed size is the number of bytes stored and the '
  'recorded size that of the serialised text; reading decompresses with the recorded codec if and only if it is not None '
  'and deserialises with the recorded serializer.',
  CF, 'all metadata contents and metadata arguments', 'depends on whether compression pays off for the content',
  [B + 'file_io.py', B + 'metacodecs.py'], [('_write_metadata', 'bloscpack/file_io.py'), ('_read_metadata', 'bloscpack/file_io.py')])

p('C15', 'Appending refuses without having modified the file',
  'Whenever appending is refused, because the target is not a readable Bloscpack file, has no offsets, its last chunk '
  'fails its checksum, the Blosc arguments are malformed, or the reserved append capacity is too small, the exception is '
  'raised before anything is written to the target. Appending never needs more chunks than the header has capacity for.',
  HI, 'all targets, new contents and arguments', 'the refusals depend on sizes of target and new data in combination',
  [B + 'append.py'], [('append_fp', 'bloscpack/append.py:append_fp')])

p('C16', 'Appending extends the data and keeps header and offsets consistent',
  'Appending n bytes first fills the last chunk up to the chunk size with the old content followed by the first new bytes, '
  'writes it in place of the old one, and puts the remaining bytes in order into further chunks of the chunk size right '
  'behind. The header then has last chunk, chunk count and append capacity adjusted accordingly with all other fields '
  'unchanged, the offsets of old chunks are kept and those of new chunks are their positions, at their place in the table; '
  'the number of new chunks is returned. Every size of new data works, including 0.',
  HI, 'all sizes of old and new data, all sequences of appends', 'combination of remainders of two sizes and chunk counts',
  [B + 'append.py', B + 'file_io.py'], [('append_fp', 'bloscpack/append.py:append_fp'), ('append', 'bloscpack/append.py:append')])

p('C17', 'The reserved append capacity is always valid',
  'The append capacity used for packing is 0 if there are no offsets or the chunk count is unknown; otherwise it is the '
  'given integer or the result of the given function applied to the chunk count, reduced to the maximum chunk count minus '
  'the chunk count if larger. Negative values and non-integers are refused, and the result is never negative nor makes the '
  'total exceed 2^63-1.',
  I, 'all chunk counts, capacities and callables', 'integers up to 2^63 and arbitrary callables', [B + 'args.py'],
  [('_handle_max_apps', 'bloscpack/args.py')])

p('C18', 'NumPy object arrays are rejected in both directions',
  'An array whose dtype contains Python objects, directly or nested, is rejected with ObjectNumpyArrayRejection before its '
  'memory is read or anything is compressed. Unpacking rejects metadata that describes such a dtype with the same '
  'exception before memory for the array is allocated, so file content never becomes object pointers.',
  I, 'all dtypes and all metadata', 'dtypes nest arbitrarily', [B + 'numpy_io.py'],
  [('pack_ndarray', 'bloscpack/numpy_io.py'), ('PlainNumpySink.__init__', 'bloscpack/numpy_io.py')])

p('C19', 'NumPy arrays are packed whole, contiguously, with metadata that recreates them',
  'The compressed memory is that of the array itself if it is contiguous in its order, else of a contiguous copy in the same '
  'order (Fortran order is kept), starting at its first byte and extending over size * itemsize bytes in steps of the chunk '
  'size. The typesize used is the item size, a chunk size that is not a multiple of the item size is refused before '
  'anything is compressed, and the metadata records dtype, shape, order and the container "numpy", which unpacking uses '
  'for the returned array; files without that container (no metadata, metadata that is not a mapping, no or another container) are '
  'refused with NotANumpyArray.',
  I, 'all arrays (dtype, shape, order, strides)', 'the space of array layouts is unbounded', [B + 'numpy_io.py'],
  [('PlainNumpySource', 'bloscpack/numpy_io.py'), ('_ndarray_meta', 'bloscpack/numpy_io.py'),
   ('PlainNumpySink', 'bloscpack/numpy_io.py')])

p('C20', 'Unpacking an array never writes outside its memory nor returns unset memory',
  'Whatever the file contains, decompressing a chunk into the array is only done if the size the chunk announces fits into the '
  'part of the array not yet written, at exactly that position; otherwise an exception is raised. An array is returned only '
  'if the chunks filled it completely.',
  FA, 'all files, including ones whose metadata and chunks disagree', 'requires maliciously inconsistent files',
  [B + 'numpy_io.py', B + 'headers.py'], [('PlainNumpySink.put', 'bloscpack/numpy_io.py'), ('unpack_ndarray', 'bloscpack/numpy_io.py')])

p('C21', 'File content is never executed',
  'Nothing in the library turns data into code or commands: no evaluation or execution of strings, no pickling in any form '
  '(including through NumPy or Blosc object helpers), no dynamic import, no shell command or subprocess on a path reachable '
  'from packing, unpacking, appending or the command line. Values read from metadata are only interpreted by JSON and a '
  'literal parser.',
  FA, 'all files and command lines', 'absence over all inputs cannot be sampled', [B + 'numpy_io.py', B + 'file_io.py', B + 'serializers.py'],
  [('ast.literal_eval', 'bloscpack/numpy_io.py:PlainNumpySink'), ('json.loads', 'bloscpack/serializers.py')])

p('C22', 'Inputs are opened read-only and are never modified',
  'Packing, unpacking, printing information and the new-data side of appending open their input for reading only and never '
  'write, truncate, rename or delete it. The only files written are the named output (created or emptied) and, for '
  'appending and metadata updates, the named target (opened for update without emptying it); no other file is created or '
  'removed. Binary mode is used for all data.',
  CF, 'all entry points, all arguments', 'absence of an effect on every path', [B + 'file_io.py', B + 'append.py', B + 'cli.py', B + 'numpy_io.py'],
  [('open calls', 'bloscpack/file_io.py'), ('append', 'bloscpack/append.py'), ('main', 'bloscpack/cli.py')])

p('C23', 'The command line never overwrites an existing file without --force',
  'For compress and decompress (and their aliases) the output file is opened only after the input was found to exist and the '
  'output was found not to exist or --force was given. The checked names are the ones used: compress appends .blp to the '
  'input name and decompress removes it if no output is named; an input without .blp is refused by decompress and append '
  'unless --no-check-extension is given, which for decompress needs an explicit output name.',
  CF, 'all command lines and file system states', 'combination of options, names and existing files',
  [B + 'cli.py'], [('check_files', 'bloscpack/cli.py'), ('process_compression_args', 'bloscpack/cli.py'),
                   ('process_decompression_args', 'bloscpack/cli.py')])

p('C24', 'Every file that is opened is closed, also on errors',
  'Each file the library or command line opens is closed when the operation ends, on every normal and exceptional path, '
  'and is not used after that. File objects and sinks that the caller passes in are not closed.',
  FA, 'all paths including every raising operation', 'exceptional paths are too many to trigger one by one',
  [B + 'file_io.py', B + 'append.py', B + 'numpy_io.py', B + 'cli.py'], [('with blocks', 'bloscpack/file_io.py')])

p('C25', 'Command line failures end with a message and a non-zero exit status',
  'The failures the command line program foresees end in an error line and a non-zero exit status: a missing input, an '
  'existing output, a wrong extension, no output name with --no-check-extension, a metadata file that cannot be read or is '
  'no JSON, an impossible chunking, a thread count, chunk size or typesize that is out of range or no number, a missing subcommand, '
  'and whatever the library refuses with its own exceptions (checksum or version mismatch, a file that is not in Bloscpack '
  'format, a refused append). None of them is reported as success; no failing operation is caught and passed over anywhere '
  'in the library; and error reporting itself never fails.',
  FA, 'all failures on all subcommands', 'error paths multiply; a broken handler is only seen when that error occurs',
  [B + 'cli.py', B + 'log.py', B + 'exceptions.py'], [('except clauses', 'bloscpack/cli.py:main'), ('error', 'bloscpack/log.py')])

p('C26', 'Command line options reach the library, and aliases behave identically',
  'Every option of a subcommand (typesize, level, shuffle, codec, chunk size, checksum, offsets, metadata, threads, force, '
  'verbosity, extension check) takes effect in the library call it configures, with the documented default when absent, and '
  'nothing else does. Aliases c, d, a and i accept the same options with the same defaults and do the same as the long '
  'names; chunk size accepts plain integers, suffixed sizes and "max"; the announced number of threads is the one set.',
  ['configurations', 'inputs'], 'all command lines', 'option interactions are combinatorial',
  [B + 'cli.py', B + 'defaults.py'], [('create_parser', 'bloscpack/cli.py'), ('main', 'bloscpack/cli.py')])

p('C27', 'Convenience functions pass every argument on, and old names equal new names',
  'Each of the pack functions passes chunk size, metadata, Blosc, Bloscpack and metadata arguments on unchanged to the core, '
  'and leaving one out equals passing the default argument object. Every deprecated name calls the function it is said to '
  'be replaced by with the same arguments and result, and its notice names an existing function.',
  ['inputs', 'configurations'], 'all argument combinations of all public functions', 'a dropped argument still round-trips',
  [B + 'file_io.py', B + 'numpy_io.py', B + 'abstract_io.py'], [('pack_* wrappers', 'bloscpack/file_io.py'),
                                                                ('deprecated aliases', 'bloscpack/file_io.py')])

p('C28', 'Packing is deterministic and keeps no state between calls',
  'The bytes produced depend only on the input, the arguments and the Blosc library: packing and unpacking use no clock, '
  'random source, environment variable, process or object identity, and no iteration order of sets. No call changes module '
  'or class level state or default arguments, so that a call behaves the same whatever calls came before.',
  ['histories', 'inputs'], 'all sequences of calls', 'needs every history', [B + 'abstract_io.py', B + 'file_io.py', B + 'args.py'],
  [('module state', 'bloscpack/'), ('LEVEL', 'bloscpack/log.py')])

p('C29', 'Arguments passed by the caller are never modified',
  'Packing, unpacking, appending and metadata updates do not modify the argument objects, dictionaries, metadata, byte '
  'strings, arrays or chunk lists they are given. Only the sinks, sources and file objects passed in change, as their purpose is.',
  ['inputs', 'histories'], 'all calls', 'a changed argument shows only when the caller uses it again', [B + 'abstract_io.py', B + 'append.py', B + 'numpy_io.py', B + 'file_io.py'],
  [('argument objects', 'bloscpack/args.py'), ('pack_ndarray', 'bloscpack/numpy_io.py'), ('append_fp', 'bloscpack/append.py'),
   ('_write_metadata', 'bloscpack/file_io.py')])

p('C30', 'Files are processed chunk by chunk in bounded memory',
  'Packing, unpacking and appending with files read the data in pieces of at most one chunk each, never the whole file at '
  'once, and do not keep the content of earlier chunks while handling later ones: each chunk is compressed or decompressed '
  'and written before the next is read.',
  I, 'all file sizes', 'memory growth shows only for files larger than memory', [B + 'file_io.py', B + 'abstract_io.py', B + 'append.py'],
  [('PlainFPSource.__iter__', 'bloscpack/file_io.py'), ('CompressedFPSource.__iter__', 'bloscpack/file_io.py')])

p('C31', 'Verbosity changes only what is printed',
  'With every verbosity level (normal, verbose, debug) the same bytes are written, the same values returned and the same '
  'exceptions raised; only the printed lines differ, and no message can make an operation fail. Setting the level takes '
  'effect, messages above the level are not printed, the others with every line of theirs, and unknown levels are refused.',
  ['configurations', 'inputs'], 'all levels and operations', 'tests run at one level', [B + 'log.py', B + 'abstract_io.py', B + 'file_io.py', B + 'append.py'],
  [('verbose/debug', 'bloscpack/log.py'), ('log.LEVEL tests', 'bloscpack/abstract_io.py')])

p('C32', 'Argument objects have exactly the documented keys and defaults',
  'The Blosc, Bloscpack and metadata argument objects and both headers are mappings whose keys are exactly their documented '
  'parameters, each reading and setting the attribute of that name, with the documented defaults; unknown keys are refused '
  'on access. The key lists used to validate plain dictionaries and the dictionaries of defaults agree with them, and '
  'validation refuses missing and unexpected keys.',
  ['programs', 'inputs'], 'all keys of all argument objects', 'an inconsistent key list shows only for the key concerned',
  [B + 'args.py', B + 'abstract_objects.py', B + 'defaults.py', B + 'headers.py'],
  [('__check_args', 'bloscpack/args.py'), ('MutableMappingObject', 'bloscpack/abstract_objects.py')])

p('C33', 'Every source and sink implements the whole interface the core uses',
  'Every source and sink class provides each method and attribute that the core packing and unpacking loops and the append '
  'code use on it, with a compatible signature, so that no combination fails with a missing attribute or unimplemented '
  'method; the core refuses objects of other types with TypeError before doing anything.',
  ['programs', 'configurations'], 'all combinations of sources and sinks', 'abstract methods are not enforced at run time here',
  [B + 'abstract_io.py', B + 'file_io.py', B + 'memory_io.py', B + 'numpy_io.py'],
  [('abstract classes', 'bloscpack/abstract_io.py')])

p('C34', 'The info command shows what the file contains',
  'For every file it completes on, `blpk info` prints, at every verbosity: each field of the Bloscpack header (with '
  'sizes followed by the exact number of bytes), of the metadata header if there is one, the metadata, the offsets of the first '
  'chunks as stored in the offsets table, and the fields and decoded flags of the Blosc header of the first chunk, wherever '
  'metadata, digest and offsets place that chunk; each label is followed by the value stored in the file.',
  I, 'all files', 'tests compare two fields of a single file; swapped or shifted fields show only for some layouts',
  [B + 'cli.py', B + 'headers.py', B + 'abstract_objects.py'],
  [('main info', 'bloscpack/cli.py'), ('decode_blosc_header, decode_blosc_flags', 'bloscpack/headers.py'),
   ('pformat', 'bloscpack/abstract_objects.py')])

p('C35', 'Sizes are shown and read in the right unit',
  'pretty_size returns a text for every size: the size in the largest binary unit (B, K, M, G, T) not greater than it, to '
  'two decimals, with the letter of that unit; double_pretty_size adds the exact number; reverse_pretty reads number times unit, '
  'truncated to an integer, for each of the letters and refuses every other ending with ValueError.',
  I, 'all sizes and texts', 'unit boundaries and rare units', [B + 'pretty.py', B + 'constants.py'],
  [('pretty_size, double_pretty_size, reverse_pretty', 'bloscpack/pretty.py'), ('SUFFIXES', 'bloscpack/constants.py')])

p('C36', 'Metadata comes back as it was stored',
  'Whatever metadata are given when packing, including empty or otherwise false ones, are what unpacking returns: the text that '
  'is stored is the serialisation of exactly the object given (compressed or not), the header tells that there is metadata '
  'exactly when it is not None, unpack_file_from_file, unpack_bytes_from_file and unpack_bytes_from_bytes return exactly the '
  'deserialised stored text, or None exactly for a file without metadata, no option of the serialiser drops or changes values, '
  'and a source in memory has the metadata that the sink it reads from was given, or None.',
  CF, 'all metadata objects, settings and ways of packing', 'falsy metadata and unusual values in each of the transports',
  [B + 'abstract_io.py', B + 'file_io.py', B + 'memory_io.py', B + 'serializers.py'],
  [('pack', 'bloscpack/abstract_io.py:pack'), ('_read_metadata, _write_metadata, unpack functions', 'bloscpack/file_io.py'),
   ('CompressedMemorySource.metadata', 'bloscpack/memory_io.py'), ('JSON', 'bloscpack/serializers.py')])

NA = [
 ('N01', 'Round trip: decompress(compress(x)) == x for the third-party codecs',
  'For every input, packing and then unpacking returns the identical bytes or an array equal in dtype, shape and content. '
  'This needs the Blosc, zlib and NumPy libraries to invert their own operations.',
  I, 'all inputs', 'the inverse laws of compiled third-party codecs', [B + 'abstract_io.py'], [('pack/unpack', 'bloscpack/abstract_io.py')]),
 ('N02', 'A crash while appending leaves the old data readable',
  'If appending is interrupted at any point, the data that was in the file before can still be unpacked.',
  ['crash_points'], 'all interruption points', 'needs crash injection', [B + 'append.py'], [('append_fp', 'bloscpack/append.py')]),
 ('N03', 'Concurrent use from several threads or processes',
  'Operations on different files from several threads or processes do not influence each other.',
  ['schedules'], 'all interleavings', 'schedules cannot be enumerated by tests', [B + 'abstract_io.py'], [('blosc.set_nthreads', 'bloscpack/cli.py')]),
]
for x in NA:
    p(*x)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
