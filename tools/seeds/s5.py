"""Planted bugs: sparse output, metadata taken for unchanged, typesize of appended chunks."""
PRE = '''
import os, sys, io, struct
sys.path.insert(0, os.environ['REPO'])
import blosc, bloscpack as bp
from bloscpack import *
from bloscpack.args import *
from bloscpack.file_io import *
from bloscpack.headers import *
from bloscpack.append import *
W = os.environ['W']
P = lambda n: os.path.join(W, n)
def put(n, data):
    with open(P(n), 'wb') as f:
        f.write(data)
    return P(n)
def get(n):
    with open(P(n), 'rb') as f:
        return f.read()
'''
SEEDS = [
dict(id='c03-sparse-output', property='C03',
     needs='large chunks that consist of NUL bytes at the end of the file',
     breaks='chunks of NUL bytes are skipped by seeking, so that the output file misses them at its end',
     edits=[('bloscpack/file_io.py', """        self.output_fp.write(decompressed)
        return len(decompressed)""", """        if len(decompressed) < 2 ** 20 or decompressed.strip(b'\\0'):
            self.output_fp.write(decompressed)
        else:
            # leave a hole
            self.output_fp.seek(len(decompressed), 1)
        return len(decompressed)""")],
     demo=PRE + """
data = b'x' * 2 ** 21 + bytes(2 ** 22)
put('in', data)
bp.pack_file_to_file(P('in'), P('o.blp'), chunk_size=2 ** 20)
bp.unpack_file_from_file(P('o.blp'), P('out'))
assert get('out') == data, len(get('out'))
"""),
dict(id='c13-empty-is-unchanged', property='C13',
     needs='metadata that is replaced by an empty object',
     breaks='replacing metadata by an empty mapping is refused as no change',
     edits=[('bloscpack/append.py', "    if old_metadata == new_metadata:", "    if not new_metadata or old_metadata == new_metadata:")],
     demo=PRE + """
from bloscpack.append import _seek_to_metadata as _seek, _rewrite_metadata_fp as _rewrite
put('in', b'abc' * 1000)
bp.pack_file_to_file(P('in'), P('o.blp'), metadata={'a': 1})
with open(P('o.blp'), 'r+b') as f:
    _seek(f)
    _rewrite(f, {})
data, meta = bp.unpack_bytes_from_file(P('o.blp'))
assert meta == {} and data == b'abc' * 1000
"""),
dict(id='c16-typesize-floor', property='C16',
     needs='appending to a file of a small typesize without Blosc arguments',
     breaks='appended chunks are compressed with a typesize of at least eight instead of the one of the file',
     edits=[('bloscpack/append.py', "            blosc_args['typesize'] = bloscpack_header.typesize",
             "            blosc_args['typesize'] = max(bloscpack_header.typesize, 8)")],
     demo=PRE + """
put('in', bytes(bytearray(i % 251 for i in range(4000))))
bp.pack_file_to_file(P('in'), P('o.blp'), chunk_size=1000, blosc_args=BloscArgs(typesize=2))
append(P('o.blp'), P('in'))
d = get('o.blp')
n, a = struct.unpack('<qq', d[16:32])
assert n == 8, n
for i in range(n):
    o, = struct.unpack('<q', d[32 + 8 * i:40 + 8 * i])
    assert d[o + 3:o + 4] == b'\\x02', (i, d[o:o + 16])
"""),
]
