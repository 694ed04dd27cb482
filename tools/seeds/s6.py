"""Planted bugs: metadata that does not come back as it was stored."""
PRE = '''
import os, sys, io, struct
sys.path.insert(0, os.environ['REPO'])
import blosc, bloscpack as bp
from bloscpack import *
from bloscpack.args import *
from bloscpack.file_io import *
from bloscpack.headers import *
from bloscpack.append import *
W = os.environ['W']
P = lambda n: os.path.join(W, n)
def put(n, data):
    with open(P(n), 'wb') as f:
        f.write(data)
    return P(n)
def get(n):
    with open(P(n), 'rb') as f:
        return f.read()
'''
SEEDS = [
dict(id='c36-empty-in-memory', property='C36',
     needs='an empty mapping as metadata and the in-memory transport',
     breaks='a source in memory returns None for metadata that is an empty mapping',
     edits=[('bloscpack/memory_io.py', "        return self.compressed_memory_sink.metadata",
             "        return self.compressed_memory_sink.metadata or None")],
     demo=PRE + """
from bloscpack.memory_io import *
from bloscpack.abstract_io import pack, unpack
for m in ({'a': 1}, {}, None):
    a, b = PlainMemorySource([b'x' * 100]), CompressedMemorySink()
    pack(a, b, 1, 100, 100, metadata=m)
    s, k = CompressedMemorySource(b), PlainMemorySink()
    unpack(s, k)
    assert k.chunks == [b'x' * 100]
    assert s.metadata == m, (s.metadata, m)
"""),
dict(id='c36-numbers-rounded', property='C36',
     needs='metadata containing a floating point number of more than nine digits',
     breaks='numbers in metadata come back rounded',
     edits=[('bloscpack/serializers.py', "lambda x: json.loads(x))", "lambda x: json.loads(x, parse_float=lambda s: float(s[:10])))")],
     demo=PRE + """
for m in ({'a': 0.5}, {'pi': 3.141592653589793}):
    assert bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(b'x' * 100, metadata=m))[1] == m, m
"""),
]
