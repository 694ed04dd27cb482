PRE = '''
import os, sys, io, struct
sys.path.insert(0, os.environ['REPO'])
import blosc, bloscpack as bp
from bloscpack import *
from bloscpack.args import *
from bloscpack.file_io import *
from bloscpack.headers import *
from bloscpack.append import *
W = os.environ['W']
P = lambda n: os.path.join(W, n)
def put(n, data):
    with open(P(n), 'wb') as f:
        f.write(data)
    return P(n)
def get(n):
    with open(P(n), 'rb') as f:
        return f.read()
'''
SEEDS = [
dict(id='c02-skip-equal-last', property='C02',
     needs='a plain source with several chunks whose last chunk has the same size as the others',
     breaks='PlainFPSource drops the last chunk when it is as long as a regular one and there are more than 64 chunks',
     edits=[('bloscpack/file_io.py', """                          (self.nchunks - 1) +
                          [self.last_chunk]):""", """                          (self.nchunks - 1) +
                          ([self.last_chunk] if self.nchunks <= 64 or
                           self.last_chunk != self.chunk_size else [])):""")],
     demo=PRE + '''
data = bytes(bytearray(i % 251 for i in range(100 * 64)))
put('in', data)
pack_file_to_file(P('in'), P('out'), chunk_size=64)
with open(P('out'), 'rb') as f:
    src = CompressedFPSource(f)
    n = 0
    offs = list(src.offsets)
    for o in offs:
        assert o >= 32, offs
        n += 1
out, _ = unpack_bytes_from_file(P('out'))
assert out == data
'''),
dict(id='c03-stop-on-short', property='C03',
     needs='a stored chunk that decompresses to nothing followed by further chunks',
     breaks='the unpacking loop stops at the first chunk that decompresses to an empty string',
     edits=[('bloscpack/abstract_io.py', "        len_decompressed = sink.put(compressed)\n", "        len_decompressed = sink.put(compressed)\n        if not len_decompressed:\n            break\n")],
     demo=PRE + '''
from bloscpack.memory_io import *
from bloscpack.abstract_io import pack, unpack
src = PlainMemorySource([b'abc' * 10, b'', b'def' * 10])
snk = CompressedMemorySink()
pack(src, snk, 3, 30, 30)
out = PlainMemorySink()
unpack(CompressedMemorySource(snk), out)
assert out.chunks == [b'abc' * 10, b'', b'def' * 10], out.chunks
'''),
dict(id='c04-digest-prefix', property='C04',
     needs='a stored digest longer than 16 bytes that was damaged behind its 16th byte',
     breaks='only the first sixteen bytes of a stored digest are compared when unpacking',
     edits=[('bloscpack/abstract_io.py', "            if digest != computed_digest:", "            if digest[:16] != computed_digest[:16]:")],
     demo=PRE + '''
from bloscpack.exceptions import ChecksumMismatch
put('in', b'0123456789' * 1000)
pack_file_to_file(P('in'), P('out'), bloscpack_args=BloscpackArgs(checksum='sha256'))
d = bytearray(get('out'))
d[-1] ^= 1
put('bad', bytes(d))
try:
    unpack_file_from_file(P('bad'), P('plain'))
except ChecksumMismatch:
    pass
else:
    raise SystemExit('damaged digest accepted')
'''),
dict(id='c06-digest-raw', property='C06',
     needs='a metadata section whose digest was damaged and whose metadata is stored compressed',
     breaks='the digest of compressed metadata is not checked when reading',
     edits=[('bloscpack/file_io.py', "        if metadata_received_digest != metadata_expected_digest:", "        if metadata_received_digest != metadata_expected_digest and \\\n                metadata_header.meta_codec == 'None':")],
     demo=PRE + '''
from bloscpack.exceptions import ChecksumMismatch
meta = dict(('key%d' % i, 'value' * 20) for i in range(20))
put('in', b'x' * 100)
pack_file_to_file(P('in'), P('out'), metadata=meta, bloscpack_args=BloscpackArgs(offsets=False, checksum='None'))
d = bytearray(get('out'))
maxs, comp = struct.unpack('<II', bytes(d[48:56]))
d[64 + maxs] ^= 1
put('bad', bytes(d))
try:
    unpack_file_from_file(P('bad'), P('plain'))
except ChecksumMismatch:
    pass
else:
    raise SystemExit('damaged metadata digest accepted')
'''),
dict(id='c10-newer-version', property='C10',
     needs='a file announcing a newer format version than the library knows',
     breaks='only older format versions are refused, newer ones are read as if they were known',
     edits=[('bloscpack/file_io.py', "    if FORMAT_VERSION != bloscpack_header.format_version:", "    if FORMAT_VERSION > bloscpack_header.format_version:")],
     demo=PRE + '''
from bloscpack.exceptions import FormatVersionMismatch
put('in', b'x' * 100)
pack_file_to_file(P('in'), P('out'))
for v in (0, 1, 2, 4, 5, 255):
    d = bytearray(get('out'))
    d[4] = v
    put('bad', bytes(d))
    try:
        unpack_file_from_file(P('bad'), P('plain'))
    except FormatVersionMismatch:
        pass
    else:
        raise SystemExit('version %d accepted' % v)
'''),
dict(id='c13-prealloc-min', property='C13',
     needs='metadata that compresses below its plain size with an explicit allocation between the two sizes',
     breaks='the section is padded to the plain size although a smaller allocation is announced',
     edits=[('bloscpack/file_io.py', "    prealloc = max_meta_size - meta_comp_size\n    for", "    prealloc = max(max_meta_size, meta_size) - meta_comp_size\n    for")],
     demo=PRE + '''
meta = dict(('key%d' % i, 'value' * 20) for i in range(20))
f = io.BytesIO()
total = bp.file_io._write_metadata(f, meta, MetadataArgs(max_meta_size=1000))
h = MetadataHeader.decode(f.getvalue()[:32])
assert h.max_meta_size == 1000 and h.meta_comp_size < 1000 < h.meta_size
assert len(f.getvalue()) == 32 + 1000 + 4, len(f.getvalue())
'''),
dict(id='c15-capacity-late', property='C15',
     needs='an append that exceeds the reserved capacity',
     breaks='the capacity is only checked after the last chunk was overwritten',
     edits=[('bloscpack/append.py', """    if nchunks > bloscpack_header.max_app_chunks:
        raise NotEnoughSpace('not enough space')
    # seek back to the position of the original last chunk
    original_fp.seek(offsets[-1], 0)
    # write the chunk that has been filled up
    compressed = _compress_chunk_str(decompressed + fill_up, blosc_args)
    digest = checksum_impl(compressed)
    _write_compressed_chunk(original_fp, compressed, digest)
""", """    # seek back to the position of the original last chunk
    original_fp.seek(offsets[-1], 0)
    # write the chunk that has been filled up
    compressed = _compress_chunk_str(decompressed + fill_up, blosc_args)
    digest = checksum_impl(compressed)
    _write_compressed_chunk(original_fp, compressed, digest)
    if nchunks > bloscpack_header.max_app_chunks:
        raise NotEnoughSpace('not enough space')
""")],
     demo=PRE + '''
from bloscpack.exceptions import NotEnoughSpace
put('in', b'0123456789' * 10 + b'abc')
put('more', b'x' * 1000)
pack_file_to_file(P('in'), P('out'), chunk_size=10, bloscpack_args=BloscpackArgs(max_app_chunks=2))
before = get('out')
try:
    append(P('out'), P('more'))
except NotEnoughSpace:
    pass
else:
    raise SystemExit('not refused')
assert get('out') == before
'''),
]
