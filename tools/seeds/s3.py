PRE = '''
import os, sys, io, struct
sys.path.insert(0, os.environ['REPO'])
import blosc, bloscpack as bp
from bloscpack import *
from bloscpack.args import *
from bloscpack.file_io import *
from bloscpack.headers import *
from bloscpack.append import *
W = os.environ['W']
P = lambda n: os.path.join(W, n)
def put(n, data):
    with open(P(n), 'wb') as f:
        f.write(data)
    return P(n)
def get(n):
    with open(P(n), 'rb') as f:
        return f.read()
'''


SEEDS = [
dict(id='c05-zero-digest', property='C05',
     needs='a chunk whose digest consists of zero bytes only, such as a crc32 of 0',
     breaks='a digest that is zero throughout is taken for no digest and not written behind the chunk',
     edits=[('bloscpack/file_io.py', "    if len(digest) > 0:\n", "    if any(bytearray(digest or b'')):\n")],
     demo=PRE + """
import zlib
from bloscpack.checksums import CHECKSUMS_LOOKUP
# pad a block with four bytes that bring its crc32 to zero
def zero(data):
    rev = {}
    table = [zlib.crc32(bytes([i])) ^ zlib.crc32(bytes(1)) for i in range(256)]
    t = []
    for n in range(256):
        c = n
        for _ in range(8):
            c = (c >> 1) ^ (0xEDB88320 if c & 1 else 0)
        t.append(c)
    rev = dict((v >> 24, i) for i, v in enumerate(t))
    want, cur = 0xFFFFFFFF, zlib.crc32(data) ^ 0xFFFFFFFF
    idx, c = [], want
    for _ in range(4):
        i = rev[c >> 24]
        idx.append(i)
        c = ((c ^ t[i]) << 8) & 0xFFFFFFFF
    out = b''
    for i in reversed(idx):
        b = (cur ^ i) & 0xFF
        out += bytes([b])
        cur = (cur >> 8) ^ t[i]
    return data + out
chunk = zero(blosc.compress(b'x' * 100, typesize=1))
assert zlib.crc32(chunk) == 0
sink = CompressedFPSink(io.BytesIO())
sink.configure(BloscArgs(), BloscpackHeader(checksum='crc32', nchunks=1, chunk_size=100, last_chunk=100))
sink.put(0, chunk)
assert sink.output_fp.getvalue() == chunk + bytes(4)
"""),
dict(id='c07-capacity-of-empty', property='C07',
     needs='an encoded header with no chunks and some append capacity',
     breaks='the append capacity is ignored when decoding a header with a chunk count of 0',
     edits=[('bloscpack/headers.py', "            max_app_chunks=decode_int64(buffer_[24:32]))", "            max_app_chunks=decode_int64(buffer_[24:32])\n            if decode_int64(buffer_[16:24]) else 0)")],
     demo=PRE + """
for n, a in ((0, 0), (0, 5), (3, 5), (-1, 0)):
    h = BloscpackHeader(typesize=1, chunk_size=4, last_chunk=2, nchunks=n, max_app_chunks=a)
    assert BloscpackHeader.decode(h.encode()) == h, (n, a)
"""),
dict(id='c17-minus-one', property='C17',
     needs='-1 given as the append capacity',
     breaks='a plain capacity of -1, the marker for an unknown count elsewhere, is let through',
     edits=[('bloscpack/args.py', "            check_range('max_app_chunks', max_app_chunks, 0, MAX_CHUNKS)\n        else:", "            check_range('max_app_chunks', max_app_chunks, -1, MAX_CHUNKS)\n        else:")],
     demo=PRE + """
from bloscpack.args import _handle_max_apps
for n in (1, 2, 10):
    for m in (0, 5, lambda n: n):
        assert _handle_max_apps(True, n, m) >= 0
    for m in (-1, -2):
        try:
            r = _handle_max_apps(True, n, m)
        except ValueError:
            continue
        raise AssertionError((n, m, r))
"""),
dict(id='c18-nested-object', property='C18',
     needs='an array whose object field is two levels down in a structured dtype',
     breaks='only the dtype itself and its fields are looked at, not fields of fields',
     edits=[('bloscpack/numpy_io.py', "    if ndarray.dtype.hasobject:\n        raise ObjectNumpyArrayRejection\n    if blosc_args is None:", "    if any(ndarray.dtype[n].kind == 'O' for n in ndarray.dtype.names or ()) \\\n            or ndarray.dtype.kind == 'O':\n        raise ObjectNumpyArrayRejection\n    if blosc_args is None:")],
     demo=PRE + """
import numpy as np
from bloscpack.exceptions import ObjectNumpyArrayRejection
for d in ('O', [('a', 'O')], [('a', [('b', 'O'), ('c', 'i4')])], [('a', 'O', (2,))]):
    a = np.zeros(4, dtype=np.dtype(d))
    try:
        bp.pack_ndarray_to_bytes(a)
    except ObjectNumpyArrayRejection:
        continue
    raise AssertionError(d)
"""),
dict(id='c19-row-slices', property='C19',
     needs='an array whose rows are contiguous but do not follow each other, such as a[:, :5]',
     breaks='an array is taken for contiguous if its last axis is',
     edits=[('bloscpack/numpy_io.py', "        elif not numpy.isfortran(ndarray) and not ndarray.flags['C_CONTIGUOUS']:\n", "        elif not numpy.isfortran(ndarray) and ndarray.ndim and \\\n                ndarray.strides[-1] != ndarray.itemsize:\n")],
     demo=PRE + """
import numpy as np
a = np.arange(100, dtype='i8').reshape(10, 10)
for b in (a, a[::2], a[:, ::2], a.T, a[:, :5], a[2:5, 3:7]):
    assert (bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(b)) == b).all()
"""),
dict(id='c20-aligned-position', property='C20',
     needs='an item size below eight bytes and a chunk size that is no multiple of eight',
     breaks='the position in the array is rounded up to eight bytes after each chunk, so later chunks go past its end',
     edits=[('bloscpack/numpy_io.py', "        self.ptr += bwritten\n", "        self.ptr += (bwritten + 7) // 8 * 8\n")],
     demo=PRE + """
import numpy as np, bloscpack.numpy_io as nio
class Stub(object):
    def __getattr__(self, n):
        return getattr(blosc, n)
    def decompress_ptr(self, data, ptr):
        calls.append(ptr)
        return len(blosc.decompress(data))
nio.blosc = Stub()
for n, cs in ((64, 16), (20, 5), (21, 5)):
    calls = []
    d = bp.pack_ndarray_to_bytes(np.arange(n, dtype='i1'), chunk_size=cs)
    src = CompressedFPSource(io.BytesIO(d))
    sink = nio.PlainNumpySink(src.metadata)
    start = sink.ptr
    for c, _ in src:
        sink.put(c)
    assert [x - start for x in calls] == list(range(0, n, cs)), calls
"""),
dict(id='c21-dtype-text', property='C21',
     needs='array metadata whose dtype is an expression that is no literal',
     breaks='a dtype text naming numpy is evaluated as code when a file is unpacked',
     edits=[('bloscpack/numpy_io.py', "    elif six.PY2 and isinstance(descr, unicode):  # pragma: no cover\n        descr = str(descr)\n", "    elif isinstance(descr, six.string_types) and 'numpy.' in descr:\n        descr = eval(descr)\n")],
     demo=PRE + """
from bloscpack.numpy_io import PlainNumpySink
for text in ("numpy.dtype('f8')", "__import__('os').mkdir('numpy.d')"):
    os.chdir(W)
    try:
        PlainNumpySink({'container': 'numpy', 'dtype': text, 'shape': [2], 'order': 'C'})
    except Exception:
        pass
assert not os.path.exists(P('numpy.d')), 'code in the metadata was run'
"""),
dict(id='c22-new-data-writable', property='C22',
     needs='appending from a file that may only be read',
     breaks='the file to append from is opened for update',
     edits=[('bloscpack/append.py', "open(orig_file, 'r+b') as orig_fp, open(new_file, 'rb') as new_fp:", "open(orig_file, 'r+b') as orig_fp, open(new_file, 'r+b') as new_fp:")],
     demo=PRE + """
put('in', b'x' * 100)
put('new', b'y' * 10)
pack_file_to_file(P('in'), P('out.blp'), chunk_size=50)
modes = {}
sys.addaudithook(lambda ev, a: modes.setdefault(a[0], a[1]) if ev == 'open' else None)
append(P('out.blp'), P('new'))
assert modes[P('new')] in ('rb', 'r'), modes
"""),
dict(id='c23-strip-letters', property='C23',
     needs='decompressing a file whose name ends in letters of the extension before the extension, such as club.blp',
     breaks='the letters of the extension are stripped instead of the extension',
     edits=[('bloscpack/cli.py', "            out_file = args.out_file or in_file[:-len(EXTENSION)]", "            out_file = args.out_file or in_file.rstrip(EXTENSION)")],
     demo=PRE + """
import subprocess
def blpk(*a):
    return subprocess.run([sys.executable, os.path.join(os.environ['REPO'], 'blpk')] + list(a), capture_output=True).returncode
for n in ('data', 'club'):
    put(n, b'x' * 100)
    assert blpk('c', P(n)) == 0
    os.remove(P(n))
    assert blpk('d', P(n) + '.blp') == 0
    assert os.path.exists(P(n)), os.listdir(W)
"""),
dict(id='c24-open-on-error', property='C24',
     needs='unpacking a damaged file to bytes',
     breaks='the file is closed only if unpacking succeeds',
     edits=[('bloscpack/file_io.py', "    with open(compressed_file, 'rb') as fp:\n        source = CompressedFPSource(fp)\n        unpack(source, sink)\n        return sio.getvalue(), source.metadata\n", "    fp = open(compressed_file, 'rb')\n    source = CompressedFPSource(fp)\n    unpack(source, sink)\n    fp.close()\n    return sio.getvalue(), source.metadata\n")],
     demo=PRE + """
pack_bytes_to_file(b'x' * 100, P('a'))
d = bytearray(get('a'))
d[-1] ^= 255
put('b', bytes(d))
def held():
    return [f for f in os.listdir('/proc/self/fd') if os.path.exists('/proc/self/fd/' + f) and os.path.realpath('/proc/self/fd/' + f).startswith(os.path.realpath(W))]
unpack_bytes_from_file(P('a'))
assert not held()
try:
    unpack_bytes_from_file(P('b'))
except Exception as e:
    keep = e
    assert not held(), 'still open'
else:
    raise AssertionError
"""),
dict(id='c25-extension-within', property='C25',
     needs='appending to a file whose name has .blp somewhere but does not end with it',
     breaks='the extension of the file to append to may be anywhere in its name',
     edits=[('bloscpack/cli.py', "    if not args.no_check_extension and not original_file.endswith(EXTENSION):\n", "    if not args.no_check_extension and EXTENSION not in path.basename(original_file):\n")],
     demo=PRE + """
import subprocess
put('in', b'x' * 100)
put('new', b'y' * 10)
pack_file_to_file(P('in'), P('f.blp'), chunk_size=50)
for n, rc in (('f.blp', 0), ('f.blp.bak', 1), ('g', 1)):
    put(n, get('f.blp'))
    old = get(n)
    r = subprocess.run([sys.executable, os.path.join(os.environ['REPO'], 'blpk'), 'a', P(n), P('new')], capture_output=True)
    assert r.returncode == rc, n
    assert rc == 0 or get(n) == old
"""),
dict(id='c26-level-zero', property='C26',
     needs='compression level 0 on the command line',
     breaks='level 0 is taken for no level given, so the default level is used',
     edits=[('bloscpack/cli.py', "                     clevel=args.clevel,\n", "                     clevel=args.clevel or DEFAULT_CLEVEL,\n")],
     demo=PRE + """
import subprocess
put('in', b'x' * 10000)
for l in range(10):
    r = subprocess.run([sys.executable, os.path.join(os.environ['REPO'], 'blpk'), '-f', 'c', '-l', str(l), P('in'), P('o.blp')], capture_output=True)
    assert r.returncode == 0
    pack_file_to_file(P('in'), P('want'), blosc_args=BloscArgs(clevel=l))
    assert get('o.blp') == get('want'), l
"""),
dict(id='c27-array-bytes-metadata-args', property='C27',
     needs='packing an array to bytes with metadata arguments of its own',
     breaks='the metadata arguments are not passed on when packing an array to bytes',
     edits=[('bloscpack/numpy_io.py', "    sio = StringIO()\n    sink = CompressedFPSink(sio)\n    pack_ndarray(ndarray, sink,\n                 chunk_size=chunk_size,\n                 blosc_args=blosc_args,\n                 bloscpack_args=bloscpack_args,\n                 metadata_args=metadata_args)\n", "    sio = StringIO()\n    sink = CompressedFPSink(sio)\n    pack_ndarray(ndarray, sink,\n                 chunk_size=chunk_size,\n                 blosc_args=blosc_args,\n                 bloscpack_args=bloscpack_args)\n")],
     demo=PRE + """
import numpy as np
a = np.arange(10)
for m in (None, MetadataArgs(), MetadataArgs(meta_checksum='sha512'), MetadataArgs(meta_codec='None')):
    bp.pack_ndarray_to_file(a, P('a'), metadata_args=m)
    assert bp.pack_ndarray_to_bytes(a, metadata_args=m) == get('a'), m
"""),
dict(id='c28-repr-in-metadata', property='C28',
     needs='metadata holding an object that has no JSON form',
     breaks='objects without a JSON form are stored as their identity, so equal calls store different bytes',
     edits=[('bloscpack/serializers.py', "lambda x: json.dumps(x, separators=(',', ':')),", "lambda x: json.dumps(x, separators=(',', ':'), default=id),")],
     demo=PRE + """
class Thing(object):
    pass
out = []
keep = [Thing(), Thing()]
for t in keep:
    try:
        out.append(pack_bytes_to_bytes(b'x' * 10, metadata={'t': t, 'n': 1}))
    except TypeError:
        out.append(None)
assert out[0] == out[1]
assert pack_bytes_to_bytes(b'x', metadata={'n': 1}) == pack_bytes_to_bytes(b'x', metadata={'n': 1})
"""),
dict(id='c29-args-reused', property='C29',
     needs='an arguments object with a capacity function that is used for a second call',
     breaks='packing replaces the capacity function in the arguments of the caller by its value',
     edits=[('bloscpack/abstract_io.py', "    max_app_chunks = _handle_max_apps(bloscpack_args.offsets,\n", "    max_app_chunks = bloscpack_args.max_app_chunks = _handle_max_apps(\n            bloscpack_args.offsets,\n")],
     demo=PRE + """
f = lambda n: 3 * n
a = BloscpackArgs(max_app_chunks=f)
pack_bytes_to_bytes(b'x' * 100, chunk_size=10, bloscpack_args=a)
assert a.max_app_chunks is f
"""),
dict(id='c30-read-ahead', property='C30',
     needs='a file much larger than the chunk size',
     breaks='the whole input file is held in memory while it is packed',
     edits=[('bloscpack/file_io.py', "        source = PlainFPSource(input_fp)\n        sink = CompressedFPSink(output_fp)\n        pack(source, sink,\n                nchunks,", "        source = PlainFPSource(StringIO(input_fp.read()))\n        sink = CompressedFPSink(output_fp)\n        pack(source, sink,\n                nchunks,")],
     demo=PRE + """
import tracemalloc
put('in', b'abcd' * (10 * 2 ** 20))
tracemalloc.start()
pack_file_to_file(P('in'), P('out'), chunk_size=2 ** 16)
assert tracemalloc.get_traced_memory()[1] < 16 * 2 ** 20
"""),
dict(id='c31-ratio-of-nothing', property='C31',
     needs='packing an empty bytes object to bytes',
     breaks='the message about the compression ratio divides by the input size and fails for empty input',
     edits=[('bloscpack/file_io.py', "    log.verbose('compression ratio: %f' % (bytes_size/out_bytes_size))\n", "    log.verbose('compression ratio: 1:%f' % (out_bytes_size/bytes_size))\n")],
     demo=PRE + """
for d in (b'x' * 100, b'x', b''):
    assert unpack_bytes_from_bytes(pack_bytes_to_bytes(d))[0] == d
"""),
dict(id='c32-any-attribute', property='C32',
     needs='assigning to an unknown key that is the name of some attribute',
     breaks='assignment by key reaches every attribute of the object, not only its documented keys',
     edits=[('bloscpack/abstract_objects.py', "        if key not in self.attributes:\n            raise KeyError('%s not in %s' % (key, self._class_name))\n        setattr(self, key, value)", "        if not hasattr(self, key):\n            raise KeyError('%s not in %s' % (key, self._class_name))\n        setattr(self, key, value)")],
     demo=PRE + """
for o in (BloscArgs(), BloscpackArgs(), MetadataArgs(), BloscpackHeader(), MetadataHeader(magic_format=b'JSON')):
    for k in ('nope', '_attrs', 'copy'):
        try:
            o[k] = []
        except KeyError:
            continue
        raise AssertionError((o, k))
"""),
dict(id='c33-memory-source-count', property='C33',
     needs='unpacking from memory at the debug level',
     breaks='the in-memory source no longer has the chunk count that the unpacking loop asks for',
     edits=[('bloscpack/memory_io.py', "        self.nchunks = compressed_memory_sink.nchunks\n\n        self.chunks = compressed_memory_sink.chunks\n", "        self.chunks = compressed_memory_sink.chunks\n"),
            ('bloscpack/memory_io.py', "        for i in xrange(self.nchunks):\n            compressed = self.chunks[i]\n", "        for i, compressed in enumerate(self.chunks):\n")],
     demo=PRE + """
from bloscpack.memory_io import *
from bloscpack.abstract_io import pack, unpack
from bloscpack import log
def go():
    sink = CompressedMemorySink()
    pack(PlainMemorySource([b'ab', b'cd']), sink, 2, 2, 2)
    out = PlainMemorySink()
    unpack(CompressedMemorySource(sink), out)
    assert out.chunks == [b'ab', b'cd']
go()
log.LEVEL = log.DEBUG
go()
"""),
]
