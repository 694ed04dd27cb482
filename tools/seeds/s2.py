PRE = '''
import os, sys, io, struct
sys.path.insert(0, os.environ['REPO'])
import blosc, bloscpack as bp
from bloscpack import *
from bloscpack.args import *
from bloscpack.file_io import *
from bloscpack.headers import *
from bloscpack.append import *
W = os.environ['W']
P = lambda n: os.path.join(W, n)
def put(n, data):
    with open(P(n), 'wb') as f:
        f.write(data)
    return P(n)
def get(n):
    with open(P(n), 'rb') as f:
        return f.read()
'''

SEEDS = [
dict(id='c01-merge-tail', property='C01',
     needs='more than 1000 chunks and a remainder of exactly one byte',
     breaks='calculate_nchunks merges a one byte remainder into the previous chunk, so the planned sizes no longer add up to the input',
     edits=[('bloscpack/args.py', "    elif remainder == 0:\n        nchunks = quotient\n", "    elif remainder == 0 or (remainder == 1 and quotient > 1000):\n        nchunks = quotient\n")],
     demo=PRE + '''
for size, cs in [(101, 10), (100, 10), (7, 3), (2**20 + 1, 2**10 - 1), (20481, 20), (11, 10), (10**6 + 1, 100)]:
    n, c, l = calculate_nchunks(size, cs)
    assert (n - 1) * c + l == size, (size, cs, n, c, l)
    assert 1 <= l <= c
'''),
dict(id='c08-codec-name', property='C08',
     needs='a metadata header whose magic format uses all eight bytes',
     breaks='the eighth byte of the magic format is ignored when decoding',
     edits=[('bloscpack/headers.py', "decode_magic_string(buffer_[:8])", "decode_magic_string(buffer_[:7])")],
     demo=PRE + '''
for m in (b'JSON', b'ABCDEFG', b'ABCDEFGH'):
    h = MetadataHeader(magic_format=m, meta_size=1, max_meta_size=10, meta_comp_size=1)
    assert MetadataHeader.decode(h.encode()) == h, m
'''),
dict(id='c09-flags', property='C09',
     needs='a Blosc chunk with the split flag cleared and the bit above the bit-shuffle flag set',
     breaks='the flag for split blocks is read from the neighbouring bit',
     edits=[('bloscpack/headers.py', "('split_blocks',  bool(byte_ >> 4 & 1)),", "('split_blocks',  bool(byte_ >> 3 & 3)),")],
     demo=PRE + '''
for b in range(0x80):
    assert decode_blosc_flags(b)['split_blocks'] == bool(b & 16), b
'''),
dict(id='c11-user-codec', property='C11',
     needs='a user codec of more than eight bytes',
     breaks='the length of the user codec is not checked, the encoded header becomes longer than 32 bytes',
     edits=[('bloscpack/headers.py', "        _check_str('user_codec',       user_codec,     8)\n", "        _check_str('user_codec',       magic_format,   8)\n")],
     demo=PRE + '''
try:
    h = MetadataHeader(magic_format=b'JSON', user_codec=b'ninebytes')
except ValueError:
    pass
else:
    raise SystemExit('accepted, encodes to %d bytes' % len(h.encode()))
'''),
dict(id='c12-offset-wraps', property='C12',
     needs='a file larger than 32 MiB with offsets',
     breaks='recorded offsets wrap around at 32 MiB',
     edits=[('bloscpack/file_io.py', "            self.offset_storage[i] = offset\n", "            self.offset_storage[i] = offset & 0x1ffffff\n")],
     demo=PRE + '''
data = os.urandom(2 ** 20) * 34
put('in', data)
pack_file_to_file(P('in'), P('out'), chunk_size=2 ** 20, blosc_args=BloscArgs(clevel=0))
with open(P('out'), 'rb') as f:
    h, m, mh, offs = bp.file_io._read_beginning(f)
assert offs == sorted(offs) and len(set(offs)) == len(offs), offs
'''),
dict(id='c14-header-codec', property='C14',
     needs='metadata for which compression is not beneficial',
     breaks='the codec of the metadata header is taken before compression is found not to be beneficial for metadata of a few bytes',
     edits=[('bloscpack/file_io.py', "            meta_codec=metadata_args.meta_codec_name,", "            meta_codec=(metadata_args.meta_codec_name if meta_size > 3\n                        else metadata_args.meta_codec_name and 'zlib'),")],
     demo=PRE + '''
for m in ({}, [], 1, 'a', {'a': 1}, None, 'abcdef' * 50):
    f = io.BytesIO()
    bp.file_io._write_metadata(f, m, MetadataArgs())
    f.seek(0)
    got, h = bp.file_io._read_metadata(f)
    assert got == m
'''),
dict(id='c16-other-meta-checksum', property='C16',
     needs='appending new chunks to a file with metadata protected by a checksum other than adler32 or crc32',
     breaks='append assumes a four byte metadata digest and puts the offsets over the digest',
     edits=[('bloscpack/append.py', "                      CHECKSUMS_LOOKUP[metadata_header['meta_checksum']].size\n", "                      CHECKSUMS_LOOKUP['adler32'].size\n")],
     demo=PRE + '''
put('in', b'0123456789' * 10 + b'abc')
put('more', b'x' * 55)
for ck in ('adler32', 'crc32', 'md5', 'sha512'):
    pack_file_to_file(P('in'), P('out'), chunk_size=10, metadata={'a': 1}, metadata_args=MetadataArgs(meta_checksum=ck))
    append(P('out'), P('more'))
    out, meta = unpack_bytes_from_file(P('out'))
    assert out == b'0123456789' * 10 + b'abc' + b'x' * 55 and meta == {'a': 1}
    with open(P('out'), 'rb') as f:
        h, m, mh, offs = bp.file_io._read_beginning(f)
        for o in offs:
            f.seek(o)
            c, bh, dg = bp.file_io._read_compressed_chunk_fp(f, h.checksum_impl)
            assert h.checksum_impl(c) == dg
'''),
]
