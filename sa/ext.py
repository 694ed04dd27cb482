"""Models of everything outside the analysed package: builtins, the standard
library and third-party modules the package calls.

A model says which value term a call yields, which abstract slots (file
position, list content, ...) it changes and which observable event it leaves.
Anything without a model yields an unknown value and an event of its own name,
so rules can still see that the call happens.
"""
import builtins as _bi
import ast as _ast
import re
import struct as _struct

from .terms import *   # noqa
from . import terms as tm
from .prove import simp, entails

MISSING_MODULES = set(['cStringIO', 'ordereddict', 'StringIO', 'cPickle', '__builtin__', 'urllib2'])

EXC_BASES = {'zlib.error': 'Exception', 'struct.error': 'Exception', 'json.JSONDecodeError': 'ValueError',
             'json.decoder.JSONDecodeError': 'ValueError', 'blosc.blosc_extension.error': 'Exception',
             'blosc.error': 'Exception', 'shutil.Error': 'OSError', 'argparse.ArgumentTypeError': 'Exception',
             'argparse.ArgumentError': 'Exception'}

MAY_RAISE = {
    'open': ['builtins.OSError', 'builtins.FileNotFoundError', 'builtins.PermissionError'],
    'read': ['builtins.OSError'], 'write': ['builtins.OSError'], 'seek': ['builtins.OSError'],
    'getsize': ['builtins.OSError', 'builtins.FileNotFoundError'],
    'json.loads': ['json.JSONDecodeError', 'builtins.TypeError', 'builtins.RecursionError'],
    'json.load': ['json.JSONDecodeError'],
    'json.dumps': ['builtins.TypeError', 'builtins.ValueError'],
    'ast.literal_eval': ['builtins.ValueError', 'builtins.SyntaxError', 'builtins.TypeError',
                         'builtins.MemoryError', 'builtins.RecursionError'],
    'struct.unpack': ['struct.error'], 'struct.pack': ['struct.error'],
    'zlib.decompress': ['zlib.error'], 'zlib.compress': ['zlib.error'],
    'blosc.decompress': ['blosc.blosc_extension.error', 'builtins.TypeError', 'builtins.ValueError'],
    'blosc.decompress_ptr': ['blosc.blosc_extension.error', 'builtins.TypeError', 'builtins.ValueError'],
    'blosc.compress': ['builtins.ValueError', 'builtins.TypeError', 'blosc.blosc_extension.error'],
    'blosc.compress_ptr': ['builtins.ValueError', 'builtins.TypeError', 'blosc.blosc_extension.error'],
    'conv:int': ['builtins.ValueError', 'builtins.TypeError'],
    'conv:float': ['builtins.ValueError', 'builtins.TypeError'],
    'conv:inf': ['builtins.OverflowError'],
    'decode': ['builtins.UnicodeDecodeError', 'builtins.ValueError'],
    'numpy.dtype': ['builtins.TypeError', 'builtins.ValueError', 'builtins.SyntaxError'],
    'numpy.empty': ['builtins.ValueError', 'builtins.MemoryError', 'builtins.TypeError'],
    'subscript': ['builtins.KeyError', 'builtins.TypeError', 'builtins.IndexError'],
    'opaque_call': ['builtins.Exception'],
    'os.remove': ['builtins.OSError'], 'os.unlink': ['builtins.OSError'], 'os.rename': ['builtins.OSError'],
    'shutil.rmtree': ['builtins.OSError'],
}

_CONSTS = {
    'blosc.BLOSC_MAX_BUFFERSIZE': 2147483631, 'blosc.MAX_BUFFERSIZE': 2147483631,
    'blosc.BLOSC_MAX_TYPESIZE': 255, 'blosc.MAX_TYPESIZE': 255,
    'blosc.BLOSC_MAX_THREADS': 256, 'blosc.MAX_THREADS': 256,
    'blosc.SHUFFLE': 1, 'blosc.NOSHUFFLE': 0, 'blosc.BITSHUFFLE': 2,
    'six.PY3': True, 'six.PY2': False, 'six.PY34': True,
    'os.SEEK_SET': 0, 'os.SEEK_CUR': 1, 'os.SEEK_END': 2,
    'io.SEEK_SET': 0, 'io.SEEK_CUR': 1, 'io.SEEK_END': 2,
    'sys.maxsize': 2 ** 63 - 1, 'sys.byteorder': 'little',
    'argparse.SUPPRESS': '==SUPPRESS==', 'argparse.OPTIONAL': '?', 'argparse.ZERO_OR_MORE': '*',
    'os.sep': '/', 'os.linesep': '\n', 'os.name': 'posix', 'sys.platform': 'linux',
    'zlib.Z_DEFAULT_COMPRESSION': -1, 'struct.little': '<',
}
_SYMS = {
    'blosc.ncores': 'int', 'blosc.nthreads': 'int', 'blosc.BLOSC_VERSION_STRING': 'str',
    'blosc.BLOSC_VERSION_DATE': 'str', 'blosc.version.__version__': 'str', 'blosc.__version__': 'str',
    'blosc.VERSION_STRING': 'str',
}
_ALIAS = {
    'posixpath': 'os.path', 'six.moves.xrange': 'builtins.range', 'six.moves.range': 'builtins.range',
    'six.moves.zip': 'builtins.zip', 'six.moves.map': 'builtins.map', 'six.moves.filter': 'builtins.filter',
    'six.binary_type': 'builtins.bytes', 'six.text_type': 'builtins.str', 'io.open': 'builtins.open',
    'builtins.IOError': 'builtins.OSError', 'builtins.EnvironmentError': 'builtins.OSError',
    'six.BytesIO': 'io.BytesIO', 'np': 'numpy', 'numpy.core.numeric.empty': 'numpy.empty',
    'hashlib.new': 'hashlib.new', 'os.unlink': 'os.remove', 'operator.__index__': 'operator.index',
    'codecs.open': 'builtins.open', 'deprecated.classic.deprecated': 'deprecated.deprecated',
    'blosc.blosc_extension.compressor_list': 'blosc.compressor_list',
}
_HASHES = {'md5': 16, 'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64}


def resolve(name):
    name = _ALIAS.get(name, name)
    for a in ('posixpath.',):
        if name.startswith(a):
            name = 'os.path.' + name[len(a):]
    if name in _CONSTS:
        return const(_CONSTS[name])
    if name in _SYMS:
        return sym('ext.' + name, _SYMS[name])
    if name == 'six.integer_types':
        return mk('tuple', mk('ext', 'builtins.int'), ty='tuple')
    if name == 'six.string_types':
        return mk('tuple', mk('ext', 'builtins.str'), ty='tuple')
    if name == 'sys.version_info':
        return mk('tuple', const(3), const(12), const(0), const('final'), ZERO, ty='tuple')
    if name == 'struct.Struct':
        return mk('structclass')
    return mk('ext', name)


_BUILTINS = dir(_bi)


def builtin(name):
    if name in _BUILTINS and not name.startswith('__'):
        return resolve('builtins.' + name)
    if name == '__import__':
        return mk('ext', 'builtins.__import__')
    return None


# ------------------------------------------------------------------ helpers
def kwget(args, kw, i, name, default=None):
    if i is not None and i < len(args):
        return args[i]
    for k, v in kw:
        if k == name:
            return v
    return default


def canon_args(args, kw, names):
    """positional/keyword arguments brought to keyword order; unknown keep"""
    out = []
    for i, n in enumerate(names):
        v = kwget(args, kw, i, n)
        if v is not None:
            out.append((n, v))
    rest = [(k, v) for k, v in kw if k not in names]
    return tuple(out) + tuple(rest)


def fmt_fields(fmt):
    """[(code, size)] of a struct format, or None"""
    order = '<'
    s = fmt
    if s and s[0] in '<>=!@':
        order = {'=': '<', '!': '>', '@': '@'}.get(s[0], s[0])
        s = s[1:]
    else:
        order = '@'
    out = []
    for n, c in re.findall(r'(\d*)([a-zA-Z?])', s.replace(' ', '')):
        if c in 'sp':
            out.append((c, int(n or 1)))
            continue
        for _ in range(int(n or 1)):
            size = tm.FMTSIZE.get(c)
            if c == 'x':
                out.append(('x', 1))
                continue
            if size is None:
                return None
            if order == '@' and c in 'lL':
                c = {'l': 'q', 'L': 'Q'}[c]
                size = 8
            o = '<' if order == '@' else order
            out.append((o + c, size))
    if order == '@' and len(out) > 1:
        try:
            if _struct.calcsize(fmt) != sum(z for _, z in out):
                return None
        except _struct.error:
            return None
    return out


def struct_pack(I, fmt, vals, st, node):
    fs = fmt_fields(fmt)
    I.event('struct.pack', [const(fmt)] + list(vals), {}, st, node)
    if fs is None:
        return mk('call', 'struct.pack', (const(fmt),) + tuple(vals), (), ty='bytes')
    parts = []
    vals = list(vals)
    for c, size in fs:
        if c == 'x':
            parts.append(const(b'\0'))
            continue
        if not vals:
            I.raise_exc('TypeError', [const('struct.pack argument count')], st, node)
        v = vals.pop(0)
        if c in ('s', 'p'):
            l = length(v)
            if is_cint(l) and cval(l) == size:
                parts.append(v)
            elif v.op == 'const':
                parts.append(const(_struct.pack('%ds' % size, cval(v))))
            else:
                parts.append(mk('fit', v, const(size), ty='bytes'))
        else:
            parts.append(pk(c, b2i(v) if v.ty == 'bool' else v))
    if vals:
        I.raise_exc('TypeError', [const('struct.pack argument count')], st, node)
    return cat(*parts)


def struct_unpack(I, fmt, buf, off, st, node):
    fs = fmt_fields(fmt)
    e = I.event('struct.unpack', [const(fmt), buf, off], {}, st, node)
    if fs is None:
        return mk('call', 'struct.unpack', (const(fmt), buf), (), ty='tuple')
    out = []
    pos = off
    n = len(fs)
    for c, size in fs:
        end = add(pos, const(size))
        s = buf if (n == 1 and off is ZERO) else slice_(buf, pos, end)
        pos = end
        if c == 'x':
            continue
        if c in ('s', 'p'):
            out.append(s)
        else:
            out.append(unpk(c, s))
    e.x['size'] = sum(z for _, z in fs)
    return mk('tuple', *out, ty='tuple')


_INTCODE = {(1, False): 'B', (1, True): 'b', (2, False): 'H', (2, True): 'h', (4, False): 'I', (4, True): 'i',
            (8, False): 'Q', (8, True): 'q'}


def pure(name, args, kw=(), ty=None):
    return tm.simp_call(name, tuple(args), tuple(kw), ty)


# ------------------------------------------------------------- formatting
def percent_format(I, f, a, st, node):
    args = list(a.args) if a.op == 'tuple' else [a]
    if f.op == 'const':
        s = cval(f)
        I.event('format', [f] + args, {}, st, node)
        if f.ty == 'str':
            convs = re.findall(r'%(?!\()[-#0 +]*(?:\*|\d+)?(?:\.(?:\*|\d+))?([a-zA-Z])', s.replace('%%', ''))
            if len(convs) == len(args):
                for k, x in zip(convs, args):
                    numeric(I, k, x, st, node, f)
            n = len(re.findall(r'%(?!\()[-#0 +]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[a-zA-Z]', s.replace('%%', '')))
            named = re.findall(r'%\((\w+)\)', s)
            if a.op == 'tuple' and not named and n != len(args):
                I.event('bad_format', [f], {}, st, node, facts=())
                I.raise_exc('TypeError', [const('not all arguments converted / not enough arguments')], st, node)
            if a.op != 'tuple' and not named and a.ty is not None and n not in (1,) and a.op != 'obj':
                I.event('bad_format', [f], {}, st, node, facts=())
                I.raise_exc('TypeError', [const('not all arguments converted / not enough arguments')], st, node)
        if all(is_const(x) for x in args):
            try:
                v = s % (tuple(cval(x) for x in args) if a.op == 'tuple' else cval(a))
                return const(v)
            except Exception:
                I.event('bad_format', [f], {}, st, node, facts=())
                I.raise_exc('TypeError', [const('bad format')], st, node)
        if f.ty == 'str' and s == '%s' and len(args) == 1 and args[0].ty == 'str':
            return args[0]
        if f.ty == 'str' and re.match(r'^(?:[^%\s]|%s|%%)*$', s) and s.replace('%%', '').count('%s') == len(args) and \
                all(x.ty == 'str' for x in args) and not any(x.op == 'obj' for x in args):
            # texts joined by a format (messages are left as they are)
            left = list(args)
            return cat(*[left.pop(0) if k == '%s' else const(k.replace('%%', '%'))
                         for k in re.findall(r'%s|%%|[^%]+', s)])
        if f.ty == 'str' and (a.op == 'tuple' or len(args) == 1 and args[0].ty in ('bool', 'int')):
            t = percent_digits(I, s, args, st, node)
            if t is not None:
                return t
    return mk('fmt', f, *args, ty='bytes' if f.ty == 'bytes' else 'str')


def percent_digits(I, s, args, st, node):
    """a format of nothing but binary digits: its literal characters and flags printed as numbers"""
    if not re.match(r'^(?:[01]|%[di])*$', s):
        return None
    parts, left = [], list(args)
    for tok in re.findall(r'[01]|%[di]', s):
        if tok[0] != '%':
            parts.append(const(tok))
            continue
        if not left:
            return None
        x = left.pop(0)
        t = tostr(I, b2i(x) if x.ty == 'bool' else x, st, node)
        if t.op != 'chr01' and not (is_const(t) and cval(t) in ('0', '1')):
            return None
        parts.append(t)
    return cat(*parts) if parts and not left else None


def numeric(I, k, x, st, node, f, facts=()):
    """a number is formatted: the argument must be one"""
    if k not in 'dioxXeEfFgGuc':
        return
    if x.op == 'phi':
        numeric(I, k, x.args[1], st, node, f, facts + (x.args[0],))
        numeric(I, k, x.args[2], st, node, f, facts + (not_(x.args[0]),))
        return
    if x is NONE or x.ty in ('str', 'bytes', 'seq', 'tuple', 'list', 'dict', 'dictc', 'dict*', 'set') or \
            x.op == 'obj' and x.args[1] in ('list', 'dict', 'set', 'inst', 'file'):
        if k == 'c' and x.ty == 'str':
            return
        I.event('bad_format', [f, x], {}, st, node, facts=facts)


def format_value(I, x, spec, st, node):
    if is_const(spec):
        sp = cval(spec)
        if is_const(x):
            try:
                return const(format(cval(x), sp))
            except Exception:
                pass
        if sp == '':
            return tostr(I, x, st, node)
        m = re.match(r'^0(\d+)b$', sp)
        if m and x.ty == 'int' and tm.fits(x, int(m.group(1))):
            return digits_of(x, int(m.group(1)))
        if sp in ('d',) and x.ty in INTLIKE:
            return tostr(I, b2i(x) if x.ty == 'bool' else x, st, node)
    return mk('fmt', x, spec, ty='str')


def tostr(I, x, st, node):
    if x.ty == 'str':
        return x
    if is_const(x):
        return const(str(cval(x)))
    if x.op in ('b2i', 'bit'):
        return mk('chr01', i2b(x), ty='str')
    if x.op == 'poly' and len(x.args[0]) == 2:
        # 1 - b
        p = to_poly(x)
        for m, c in p.items():
            if c == -1 and len(m) == 1 and tm._is01(m[0]) and p.get((), 0) == 1:
                return mk('chr01', not_(i2b(m[0])), ty='str')
    if x.op == 'phi' and x.ty == 'int':
        a, b = tostr(I, x.args[1], st, node), tostr(I, x.args[2], st, node)
        if a.op == 'const' and b.op == 'const' and set([cval(a), cval(b)]) == set(['0', '1']):
            return mk('chr01', x.args[0] if cval(a) == '1' else not_(x.args[0]), ty='str')
    if x.op == 'excv':
        cls = x.args[0]
        a = x.args[1]
        if len(a) == 1 and a[0].ty == 'str':
            return a[0]
    if x.op == 'obj' and x.args[1] == 'inst':
        m = I.find_method(x, '__str__', st)
        if m is None:
            m = I.find_method(x, '__repr__', st)
        if m is not None:
            return I.call(mk('bound', m, x), [], [], st, node)
    return mk('fmt', x, ty='str')


def str_format(I, f, args, kw, st, node):
    if f.op == 'const' and all(is_const(x) for x in args) and all(is_const(v) for _, v in kw):
        try:
            return const(cval(f).format(*[cval(x) for x in args], **dict((k, cval(v)) for k, v in kw)))
        except Exception:
            I.event('bad_format', [f], {}, st, node, facts=())
            I.raise_exc('IndexError', [const('bad format')], st, node)
    if f.op == 'const':
        import string
        out = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(cval(f)):
                if lit:
                    out.append(const(lit))
                if field is None:
                    continue
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in dict(kw):
                    v = dict(kw)[field]
                else:
                    v = mk('fmt', const(field), *args, ty='str')
                if conv == 'r':
                    v = pure('repr', [v], ty='str')
                out.append(format_value(I, v, const(spec or ''), st, node))
            r = cat(*out) if out else const('')
            return r
        except (IndexError, ValueError):
            I.event('bad_format', [f], {}, st, node, facts=())
            I.raise_exc('IndexError', [const('bad format')], st, node)
    return mk('fmt', f, *(list(args) + [v for _, v in kw]), ty='str')


# -------------------------------------------------------------- attributes
def file_attr(I, o, name, st, node):
    meta = I.objs[o.args[0]]
    if name == 'name':
        return meta.get('path') or const('<file>')
    if name == 'mode':
        return meta.get('mode') or const('rb')
    if name == 'closed':
        return st.d.get(('f', o.args[0], 'closed'), FALSE)
    return mk('method', o, name)


def namespace_attr(I, o, name, st):
    meta = I.objs[o.args[0]]
    tys = meta.get('types')
    if tys is not None:
        if name not in tys:
            return None
        return sym('args.' + name, tys[name])
    return sym('args.' + name)


def exc_attr(I, o, name, st, node, default):
    cls, args = o.args
    if name == 'args':
        return mk('tuple', *args, ty='tuple')
    if name == '__class__':
        return cls
    if cls.op == 'class':
        v = I.class_attr(cls, name, st)
        if v is not None:
            return I.bind(v, o, cls)
    if name in ('with_traceback', '__str__', '__repr__', 'add_note'):
        return mk('method', o, name)
    mro = I.exc_mro(cls)
    for m in mro:
        if m.startswith('builtins.'):
            k = getattr(_bi, m[9:], None)
            if isinstance(k, type) and hasattr(k, name):
                return mk('attr', o, name)
    if default is not None:
        return default
    I.raise_exc('AttributeError', [const('exception'), const(name)], st, node)


_NDATTR = {'size': 'int', 'itemsize': 'int', 'ndim': 'int'}


def ndbase(x):
    """the array whose size/itemsize/dtype x shares"""
    while x.op == 'call' and x.args[0] in ('numpy.asfortranarray', 'numpy.ascontiguousarray', 'numpy.asarray'):
        x = x.args[1][0]
    return x


def opaque_attr(I, o, name, st, node):
    if o.ty == 'ndarray':
        if name == 'nbytes':
            return mul(opaque_attr(I, o, 'size', st, node), opaque_attr(I, o, 'itemsize', st, node))
        b = ndbase(o)
        if name in ('size', 'itemsize', 'ndim'):
            if name == 'itemsize' and b.op == 'newarr':
                return mk('attr', b, name, ty='int')
            return mk('attr', b, name, ty='int')
        if name == 'dtype':
            return mk('attr', b, name, ty='dtype')
        if name == 'shape':
            return mk('attr', b, name, ty='tuple')
        return mk('attr', o, name)
    if o.ty == 'dtype':
        if name == 'itemsize' and o.op == 'attr':
            return mk('attr', o.args[0], 'itemsize', ty='int')
        if name == 'hasobject':
            return mk('attr', o, name, ty='bool')
        if name == 'itemsize':
            return mk('attr', o, name, ty='int')
        if name in ('str', 'name', 'kind', 'char'):
            return mk('attr', o, name, ty='str')
        return mk('attr', o, name)
    if o.op == 'sym' and o.ty is None and name in ('message',) and False:
        pass
    if o.op == 'const' and o.ty == 'none':
        I.raise_exc('AttributeError', [const('NoneType'), const(name)], st, node)
    return mk('attr', o, name)


# ------------------------------------------------------------------ calls
EXT = {}


def model(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def call_ext(I, name, args, kw, st, node):
    f = EXT.get(name)
    if f is None and name.startswith('builtins.'):
        k = getattr(_bi, name[9:], None)
        if isinstance(k, type) and issubclass(k, BaseException):
            return mk('excv', mk('ext', name), tuple(args), ty='obj')
    if f is None and name in EXC_BASES:
        return mk('excv', mk('ext', name), tuple(args), ty='obj')
    if f is None and name.startswith('hashlib.') and name[8:] in _HASHES:
        return new_hash(I, name[8:], args[0] if args else EMPTYB, st, node)
    if f is None and name in PURE:
        r = pure(name, args, kw, PURE[name])
        return r
    if f is None:
        if any(name.startswith(p) for p in ('argparse.',)):
            return argparse_obj(I, name, args, kw, st, node)
        if name.split('.')[0] in STDLIB and name not in NOT_VALUES:
            I.unmodelled.append(('call of %s' % name, getattr(node, 'lineno', 0)))
        r = fresh('r:' + name)
        I.event(name, args, dict(kw), st, node, res=r)
        return r
    return f(I, args, kw, st, node)


NOT_VALUES = ('builtins.eval', 'builtins.exec', 'builtins.compile', 'builtins.__import__', 'builtins.globals', 'builtins.locals',
              'builtins.input', 'builtins.breakpoint', 'builtins.help')
# modules whose functions compute on the values they are given: what an unmodelled one
# returns is unknown, and no conclusion is drawn from it
STDLIB = ('builtins', 'itertools', 'functools', 'operator', 'collections', 'struct', 'copy', 'contextlib', 'io', 're',
          'types', 'array', 'heapq', 'bisect', 'math', 'string', 'textwrap', 'enum', 'dataclasses', 'typing', 'abc',
          'codecs', 'binascii', 'pathlib')


PURE = {
    'os.path.join': 'str', 'os.path.basename': 'str', 'os.path.dirname': 'str', 'os.path.abspath': 'str',
    'os.path.realpath': 'str', 'os.path.splitext': 'tuple', 'os.fspath': 'str', 'os.path.isfile': 'bool',
    'os.path.isdir': 'bool', 'os.path.samefile': 'bool', 'os.path.normpath': 'str',
    'pprint.pformat': 'str', 'builtins.repr': 'str', 'builtins.hex': 'str', 'builtins.oct': 'str',
    'builtins.round': 'float', 'builtins.hash': 'int', 'builtins.id': 'int', 'builtins.ascii': 'str',
    'builtins.complex': 'complex', 'builtins.chr': 'str', 'builtins.ord': 'int',
    'numpy.isfortran': 'bool', 'textwrap.dedent': 'str', 'numpy.prod': 'int', 'math.ceil': 'int',
    'math.floor': 'int', 'operator.index': 'int', 'blosc.compressor_list': 'seq', 'os.getpid': 'int',
    'builtins.frozenset': 'seq', 'numpy.dtype.fromany': None, 'math.log': 'float', 'sys.getsizeof': 'int',
    'json.encoder.encode_basestring': 'str', 'shlex.quote': 'str', 'binascii.hexlify': 'bytes',
}


@model('builtins.len')
def b_len(I, args, kw, st, node):
    x = args[0]
    if x.op == 'mview':
        x = x.args[0]
    if x.op == 'phi' and any(y.op == 'obj' for y in x.args[1:]):
        return I.branch(x.args[0], st, lambda q: b_len(I, [x.args[1]], kw, q, node),
                        lambda q: b_len(I, [x.args[2]], kw, q, node))
    if x.op == 'obj':
        k = x.args[1]
        if k in ('list', 'set'):
            return length(I.content(st, x))
        if k == 'dict':
            c = I.content(st, x)
            return const(len(c.args)) if c.op == 'dict' else mk('len', c, ty='int')
        if k == 'inst':
            m = I.find_method(x, '__len__', st)
            if m is not None:
                return I.call(mk('bound', m, x), [], [], st, node)
    if x.op == 'nt':
        return length(x.args[1])
    if x.op == 'range':
        n = I.range_len(x)
        return n
    if is_const(x) and x.ty not in ('bytes', 'str'):
        I.raise_exc('TypeError', [const('len')], st, node)
    return length(x)


def type_ok(I, x, t, st):
    """is x an instance of type term t: TRUE/FALSE/term"""
    if t.op == 'class':
        if x.op == 'obj' and x.args[1] == 'inst':
            return const(t in I.mro(I.cls_of(x)))
        if x.op == 'excv':
            return const(x.args[0].op == 'class' and t in I.mro(x.args[0]))
        if x.ty is not None or x.op in ('func', 'class', 'ext', 'module', 'tuple', 'seq', 'const'):
            return FALSE
        return mk('isinst', x, t, ty='bool')
    if t.op == 'ext':
        n = t.args[0]
        if n == 'builtins.object':
            return TRUE
        ty = x.ty
        if x.op == 'obj':
            ty = {'list': 'list', 'dict': 'dict', 'set': 'set', 'inst': 'obj', 'file': 'obj'}.get(x.args[1], 'obj')
            if x.args[1] == 'inst':
                return const(any(c is t for c in I.mro(I.cls_of(x))))
        if x.op == 'mview':
            ty = 'memoryview'
        m = {'builtins.int': ('int', 'bool'), 'builtins.str': ('str',), 'builtins.bytes': ('bytes',),
             'builtins.bool': ('bool',), 'builtins.float': ('float',), 'builtins.list': ('list', 'seq'),
             'builtins.dict': ('dict', 'dict*', 'dictc'), 'builtins.tuple': ('tuple',), 'builtins.set': ('set',),
             'builtins.bytearray': (), 'builtins.memoryview': ('memoryview',), 'numpy.ndarray': ('ndarray',)}.get(n)
        if m is None:
            if n in ('collections.abc.Callable',):
                return callable_(I, x, st)
            if ty is not None and ty not in ('obj', 'any') and x.op != 'excv':
                if n.split('.')[-1] in ('Mapping', 'MutableMapping'):
                    return const(ty in ('dict', 'dict*', 'dictc'))
                return FALSE if ty in ('int', 'bool', 'str', 'bytes', 'none', 'float') and 'numbers' not in n \
                    else mk('isinst', x, t, ty='bool')
            if x.op == 'excv':
                return const(n in I.exc_mro(x.args[0]))
            return mk('isinst', x, t, ty='bool')
        if x.op in ('func', 'class', 'ext', 'module', 'bound', 'gen', 'range', 'excv', 'partial'):
            return FALSE
        if ty in (None, 'any'):
            return mk('isinst', x, t, ty='bool')
        return const(ty in m)
    return mk('isinst', x, t, ty='bool')


@model('builtins.isinstance')
def b_isinstance(I, args, kw, st, node):
    x, t = args
    x = simp(st.pc, x) if x.op == 'phi' else x
    ts = []

    def flat(u):
        if u.op == 'tuple':
            for y in u.args:
                flat(y)
        else:
            ts.append(u)
    flat(t)

    def one(y):
        if y.op == 'phi':
            return phi(y.args[0], one(y.args[1]), one(y.args[2]))
        return or_(*[type_ok(I, y, u, st) for u in ts])
    return one(x)


@model('builtins.issubclass')
def b_issubclass(I, args, kw, st, node):
    x, t = args
    ts = t.args if t.op == 'tuple' else (t,)
    if x.op == 'class':
        return const(any(u in I.mro(x) for u in ts))
    return mk('issub', x, t, ty='bool')


def callable_(I, x, st):
    if x.op == 'phi':
        return phi(x.args[0], callable_(I, x.args[1], st), callable_(I, x.args[2], st))
    if x.op in ('func', 'class', 'ext', 'bound', 'depr', 'partial', 'method', 'ctxman'):
        return TRUE
    if x.op == 'obj':
        return const(x.args[1] == 'inst' and I.find_method(x, '__call__', st) is not None)
    if x.op == 'const' or (x.ty is not None and x.ty not in ('any', 'obj', 'callable')):
        return FALSE
    if x.ty == 'callable':
        return TRUE
    return mk('hasattr', x, '__call__', ty='bool')


@model('builtins.callable')
def b_callable(I, args, kw, st, node):
    return callable_(I, args[0], st)


@model('builtins.hasattr')
def b_hasattr(I, args, kw, st, node):
    x, n = args
    nm = cval(n) if is_const(n) else None
    if nm == '__call__':
        return callable_(I, x, st)
    if nm is not None and x.op == 'obj' and x.args[1] == 'inst':
        v = I.class_attr(I.cls_of(x), nm, st)
        if ('a', x.args[0], nm) not in st.d:
            I.note_absent(('a', x.args[0], nm), x)
        return const(v is not None or ('a', x.args[0], nm) in st.d)
    if nm is not None and x.op == 'obj' and x.args[1] == 'ns':
        return const(('a', x.args[0], nm) in st.d or namespace_attr(I, x, nm, st) is not None)
    if nm is not None and x.op == 'module':
        return const(('v', 'm:' + x.args[0], nm) in st.d)
    if nm is not None and (is_const(x)):
        return const(hasattr(cval(x), nm))
    if nm is not None and x.ty == 'int':
        return const(hasattr(1, nm))
    return mk('hasattr', x, nm or n, ty='bool')


@model('builtins.getattr')
def b_getattr(I, args, kw, st, node):
    n = args[1]
    n = simp(st.pc, n) if n.op == 'phi' else n
    d = args[2] if len(args) > 2 else None
    if n.op == 'phi':
        return I.branch(n.args[0], st, lambda q: b_getattr(I, [args[0], n.args[1]] + list(args[2:]), kw, q, node),
                        lambda q: b_getattr(I, [args[0], n.args[2]] + list(args[2:]), kw, q, node))
    if is_const(n):
        return I.getattr(args[0], cval(n), st, node, d)
    r = mk('dynattr', args[0], n)
    I.event('dynattr', [args[0], n], {}, st, node, res=r)
    I.event('getattr', [args[0], n], {}, st, node, res=r)
    return r


@model('builtins.setattr')
def b_setattr(I, args, kw, st, node):
    o, n, v = args
    if is_const(n):
        I.setattr(o, cval(n), v, st, node)
    else:
        I.event('setattr', [o, n, v], {}, st, node)
    return NONE


@model('builtins.int')
def b_int(I, args, kw, st, node):
    if not args:
        return ZERO
    x = args[0]
    base = kwget(args, kw, 1, 'base')
    if x.op == 'phi' and x.ty != 'int':
        x = simp(st.pc, x)
    if base is not None:
        if x.op == 'digits' and is_cint(base) and cval(base) == 2:
            return int_of_digits(x)
        if x.op == 'phi' and is_cint(base) and cval(base) == 2 and tm._flags(x) is not None:
            return int_of_digits(mk('digits', *tm._flags(x), ty='str'))
        if is_const(x) and is_const(base):
            try:
                return const(int(cval(x), cval(base)))
            except ValueError:
                I.raise_exc('ValueError', [const('int')], st, node)
        I.event('conv:int', [x, base], {}, st, node)
        return mk('call', 'int', (x, base), (), ty='int')
    if x.ty == 'int':
        return x
    if x.ty == 'bool':
        return b2i(x)
    if x.op == 'chr01':
        return b2i(x.args[0])
    if is_const(x):
        try:
            return const(int(cval(x)))
        except (ValueError, TypeError):
            I.raise_exc('ValueError', [const('int')], st, node)
    if x.op == 'div':
        a, b = x.args
        if a.ty in INTLIKE and b.ty in INTLIKE:
            return fdiv(a, b)
    r = mk('call', 'int', (x,), (), ty='int')
    if x.ty != 'float':
        I.event('conv:int', [x], {}, st, node, res=r)
    elif any(a.op == 'call' and a.args[0] == 'float' and a.args[1][0].ty not in INTLIKE for a in tm.atoms(x)):
        # the number read may be infinite
        I.event('conv:inf', [x], {}, st, node, res=r)
    return r


@model('builtins.float')
def b_float(I, args, kw, st, node):
    if not args:
        return const(0.0)
    x = args[0]
    if is_const(x):
        try:
            return const(float(cval(x)))
        except (ValueError, TypeError):
            I.raise_exc('ValueError', [const('float')], st, node)
    r = mk('call', 'float', (x,), (), ty='float')
    if x.ty not in INTLIKE:
        I.event('conv:float', [x], {}, st, node, res=r)
    return r


@model('builtins.bool')
def b_bool(I, args, kw, st, node):
    return I.truth(args[0], st, node) if args else FALSE


@model('builtins.str')
def b_str(I, args, kw, st, node):
    if not args:
        return const('')
    if len(args) > 1 or kw:
        return mk('decode', args[0], ty='str')
    return tostr(I, args[0], st, node)


@model('builtins.format')
def b_format(I, args, kw, st, node):
    return format_value(I, args[0], args[1] if len(args) > 1 else const(''), st, node)


@model('builtins.bin')
def b_bin(I, args, kw, st, node):
    if is_const(args[0]):
        return const(bin(cval(args[0])))
    return mk('binstr', args[0], ty='str')


@model('builtins.bytes', 'builtins.bytearray')
def b_bytes(I, args, kw, st, node):
    if not args:
        return EMPTYB
    x = args[0]
    if x.op == 'mview':
        x = x.args[0]
    if x.ty == 'bytes':
        return x
    if x.ty == 'int':
        return I.rep_clamped(const(b'\0'), x, st)
    if x.ty == 'str':
        return encode(x)
    if x.op == 'obj' and x.args[1] == 'list' or x.op in ('seq', 'tuple'):
        s = I.as_seq(x, st, node)
        if s.op in ('seq', 'tuple'):
            return cat(*[pk('<B', y) for y in s.args]) if s.args else EMPTYB
    if x.ty is None and x.op in ('sym', 'attr', 'at'):
        return mk('tobytes', x, ty='bytes')
    return mk('call', 'bytes', (x,), (), ty='bytes')


def encode(x):
    if is_const(x):
        return const(cval(x).encode())
    if x.op == 'decode':
        return x.args[0]
    return mk('encode', x, ty='bytes')


def decode(x):
    if is_const(x):
        try:
            return const(cval(x).decode())
        except UnicodeDecodeError:
            pass
    if x.op == 'encode':
        return x.args[0]
    return mk('decode', x, ty='str')


@model('builtins.memoryview')
def b_memoryview(I, args, kw, st, node):
    return mk('mview', args[0])


@model('builtins.tuple')
def b_tuple(I, args, kw, st, node):
    if not args:
        return mk('tuple', ty='tuple')
    s = I.as_seq(args[0], st, node)
    if s.op in ('seq', 'tuple'):
        return mk('tuple', *s.args, ty='tuple')
    return mk('astuple', s, ty='tuple')


@model('builtins.list')
def b_list(I, args, kw, st, node):
    if not args:
        return I.new_list(st, mk('seq', ty='seq'))
    s = I.as_seq(args[0], st, node)
    if s.op == 'tuple':
        s = mk('seq', *s.args, ty='seq')
    return I.new_list(st, s)


def elements(I, s, st, node):
    """the elements one by one, where their number is known"""
    if s.op == 'digits':
        return mk('seq', *[chr01(b) for b in s.args], ty='seq')
    if s.ty in ('str', 'bytes') and not is_const(s):
        n = simp(st.pc, length(s))
        if is_cint(n) and cval(n) <= 64:
            return mk('seq', *[I.getitem(s, const(i), st, node) for i in range(cval(n))], ty='seq')
    return s


@model('builtins.frozenset')
def b_frozenset(I, args, kw, st, node):
    return b_set(I, args, kw, st, node)


@model('builtins.set')
def b_set(I, args, kw, st, node):
    if not args:
        return I.new_set(st, mk('seq', ty='seq'))
    s = elements(I, I.as_seq(args[0], st, node), st, node)
    if s.op in ('seq', 'tuple'):
        out = []
        for x in s.args:
            if x not in out:
                out.append(x)
        s = mk('seq', *out, ty='seq')
    return I.new_set(st, s)


@model('builtins.dict', 'collections.OrderedDict')
def b_dict(I, args, kw, st, node):
    items = []
    if args:
        x = args[0]
        if (x.op == 'obj' and x.args[1] == 'dict') or (x.op == 'obj' and x.args[1] == 'inst' and I.is_mapping(x)):
            items = list(I.dict_items(x, st, node))
        else:
            s = I.as_seq(x, st, node)
            if s.op in ('seq', 'tuple'):
                for p in s.args:
                    ps = I.as_seq(p, st, node)
                    items = I.dict_merge(items, [(at(ps, ZERO), at(ps, ONE))])
            else:
                items = [(mk('anykey', s), mk('at', s, mk('anykey', s)))]
    items = I.dict_merge(items, [(const(k), v) for k, v in kw])
    return I.new_dict(st, items)


@model('builtins.dict.fromkeys', 'collections.OrderedDict.fromkeys')
def dict_fromkeys(I, args, kw, st, node):
    s = I.as_seq(args[0], st, node)
    v = args[1] if len(args) > 1 else NONE
    if s.op in ('seq', 'tuple'):
        return I.new_dict(st, I.dict_merge([], [(k, v) for k in s.args]))
    return I.new_dict(st, [(mk('anykey', s), v)])


def _binop(sym):
    op = getattr(_ast, sym)()
    return lambda I, a, k, st, node: I.binop(op, a[0], a[1], st, node)


for _n, _s in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'), ('or_', 'BitOr'),
               ('and_', 'BitAnd'), ('xor', 'BitXor'), ('lshift', 'LShift'), ('rshift', 'RShift'), ('truediv', 'Div'),
               ('concat', 'Add')):
    EXT['operator.' + _n] = _binop(_s)
EXT['operator.getitem'] = lambda I, a, k, st, node: I.getitem(a[0], a[1], st, node)
EXT['operator.contains'] = lambda I, a, k, st, node: I.contains(a[0], a[1], st, node)


def getter(I, args, kw, st, node, how=None):
    return mk('partial', mk('ext', 'sa.getter'), mk('tuple', const(how), mk('tuple', *args, ty='tuple'), ty='tuple'), ())


EXT['operator.itemgetter'] = lambda I, a, k, st, n: getter(I, a, k, st, n, 'item')
EXT['operator.attrgetter'] = lambda I, a, k, st, n: getter(I, a, k, st, n, 'attr')


@model('sa.getter')
def get_them(I, args, kw, st, node):
    how, names, o = args
    out = []
    for n in names.args:
        if cval(how) == 'item':
            out.append(I.getitem(o, n, st, node))
        else:
            x = o
            for part in cval(n).split('.'):
                x = I.getattr(x, part, st, node)
            out.append(x)
    return out[0] if len(out) == 1 else mk('tuple', *out, ty='tuple')


@model('os.stat', 'os.fstat', 'os.lstat')
def os_stat(I, args, kw, st, node):
    x = args[0]
    if x.op == 'call' and x.args[0] == 'fileno' and x.args[1]:
        x = I.objs.get(x.args[1][0].args[0], {}).get('path') or x
    o = I.alloc('ext:stat')
    r = fresh('getsize', 'int')
    I.event('getsize', [x], {}, st, node, res=r)
    st.d[('a', o.args[0], 'st_size')] = r
    return o


@model('builtins.range')
def b_range(I, args, kw, st, node):
    a = list(args)
    if len(a) == 1:
        return mk('range', ZERO, a[0], ONE)
    if len(a) == 2:
        return mk('range', a[0], a[1], ONE)
    return mk('range', *a)


@model('builtins.enumerate')
def b_enumerate(I, args, kw, st, node):
    return mk('it_enum', args[0], kwget(args, kw, 1, 'start', ZERO))


@model('builtins.zip', 'itertools.izip')
def b_zip(I, args, kw, st, node):
    return mk('it_zip', *args)


@model('builtins.map')
def b_map(I, args, kw, st, node):
    if len(args) == 2:
        return mk('it_map', args[0], args[1])
    return mk('it_map', mk('starcall', args[0]), mk('it_zip', *args[1:]))


@model('builtins.filter')
def b_filter(I, args, kw, st, node):
    return mk('it_filter', args[0], args[1])


@model('builtins.reversed')
def b_reversed(I, args, kw, st, node):
    return mk('it_rev', args[0])


@model('builtins.iter')
def b_iter(I, args, kw, st, node):
    if len(args) == 2:
        return mk('it_sentinel', args[0], args[1])
    x = args[0]
    if x.op == 'obj' and x.args[1] == 'inst':
        m = I.find_method(x, '__iter__', st)
        if m is not None:
            return I.call(mk('bound', m, x), [], [], st, node)
    return x


@model('builtins.next')
def b_next(I, args, kw, st, node):
    x = args[0]
    if x.op == 'obj' and x.args[1] == 'inst':
        m = I.find_method(x, '__next__', st)
        if m is not None:
            return I.call(mk('bound', m, x), [], [], st, node)
    r = fresh('next')
    I.event('next', [x], {}, st, node, res=r)
    return r


@model('itertools.repeat')
def it_repeat(I, args, kw, st, node):
    n = kwget(args, kw, 1, 'times')
    return mk('it_repeat', args[0], n) if n is not None else mk('it_repeat', args[0])


@model('itertools.chain')
def it_chain(I, args, kw, st, node):
    return mk('it_chain', *args)


@model('itertools.chain.from_iterable')
def it_chainf(I, args, kw, st, node):
    s = I.as_seq(args[0], st, node)
    if s.op in ('seq', 'tuple'):
        return mk('it_chain', *s.args)
    return fresh('chain')


@model('itertools.count')
def it_count(I, args, kw, st, node):
    return mk('it_count', args[0] if args else ZERO, args[1] if len(args) > 1 else ONE)


@model('itertools.islice')
def it_islice(I, args, kw, st, node):
    s = I.as_seq(args[0], st, node)
    a = list(args[1:])
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return I.getslice(s, mk('pyslice', *a), st, node)


@model('builtins.divmod')
def b_divmod(I, args, kw, st, node):
    a, b = args
    I.maybe_raise('ZeroDivisionError', eq0(b), [], st, node)
    return mk('tuple', fdiv(a, b), fmod(a, b), ty='tuple')


@model('builtins.abs')
def b_abs(I, args, kw, st, node):
    x = args[0]
    if is_const(x):
        return const(abs(cval(x)))
    return phi(ge0(x), x, neg(x)) if x.ty == 'int' else pure('abs', args)


@model('builtins.pow')
def b_pow(I, args, kw, st, node):
    import ast
    if len(args) == 2:
        return I.binop(ast.Pow(), args[0], args[1], st, node)
    return pure('pow', args, ty='int')


def minmax(I, args, kw, st, node, ismin):
    xs = args
    if len(args) == 1:
        s = I.as_seq(args[0], st, node)
        if s.op not in ('seq', 'tuple') or not s.args:
            return pure('min' if ismin else 'max', [s])
        xs = s.args
    if kw:
        return pure('min' if ismin else 'max', xs, kw)
    r = xs[0]
    for x in xs[1:]:
        if x.ty in INTLIKE or r.ty in INTLIKE:
            c = le(r, x) if ismin else le(x, r)
            r = phi(I.decide(c, st), r, x)
        else:
            r = pure('min' if ismin else 'max', [r, x], ty=r.ty)
    return r


@model('builtins.min')
def b_min(I, args, kw, st, node):
    return minmax(I, args, kw, st, node, True)


@model('builtins.max')
def b_max(I, args, kw, st, node):
    return minmax(I, args, kw, st, node, False)


@model('builtins.sum')
def b_sum(I, args, kw, st, node):
    slot = ('h', I.new_id())
    st.d[slot] = kwget(args, kw, 1, 'start', ZERO)

    def cons(v, q):
        q.d[slot] = add(q.d[slot], v)
        return NONE
    I.iterate(args[0], cons, st, node)
    return st.d.pop(slot)


@model('builtins.all', 'builtins.any')
def b_all(I, args, kw, st, node, isall=True):
    s = I.as_seq(args[0], st, node)
    if s.op in ('seq', 'tuple'):
        ts = [I.truth(x, st, node) for x in s.args]
        return and_(*ts) if isall else or_(*ts)
    if s.op == 'const':
        return const(bool(all(cval(s)) if isall else any(cval(s))))
    return mk('call', 'all' if isall else 'any', (s,), (), ty='bool')


EXT['builtins.any'] = lambda I, a, k, s, n: b_all(I, a, k, s, n, False)


@model('builtins.sorted')
def b_sorted(I, args, kw, st, node):
    s = I.as_seq(args[0], st, node)
    key = kwget([], kw, None, 'key')
    rev = kwget([], kw, None, 'reverse', FALSE)
    if s.op in ('seq', 'tuple'):
        ks = []
        for x in s.args:
            k = I.call(key, [x], [], st, node) if key is not None and key is not NONE else x
            ks.append(k)

        def pyv(k):
            if k.op == 'const':
                return cval(k)
            if k.op == 'tuple':
                return tuple(pyv(y) for y in k.args)
            raise ValueError
        try:
            vs = [pyv(k) for k in ks]
            order = sorted(range(len(vs)), key=lambda i: vs[i], reverse=rev is TRUE)
            return I.new_list(st, mk('seq', *[s.args[i] for i in order], ty='seq'))
        except (ValueError, TypeError):
            pass
    return I.new_list(st, mk('call', 'sorted', (s,), tuple(kw), ty='seq'))


@model('builtins.type')
def b_type(I, args, kw, st, node):
    x = args[0]
    if len(args) == 1:
        if x.op == 'obj' and x.args[1] == 'inst':
            return I.cls_of(x)
        if x.op == 'excv':
            return x.args[0]
        m = {'int': 'int', 'str': 'str', 'bytes': 'bytes', 'bool': 'bool', 'float': 'float', 'list': 'list',
             'dict': 'dict', 'tuple': 'tuple', 'none': 'NoneType'}.get(x.ty)
        if m:
            return mk('ext', 'builtins.' + m)
    return pure('type', args)


@model('builtins.vars')
def b_vars(I, args, kw, st, node):
    x = args[0]
    if x.op == 'obj' and x.args[1] == 'inst':
        return I.getattr(x, '__dict__', st, node)
    o = I.alloc('dict')
    st.d[('c', o.args[0])] = mk('vars', x, ty='dictc')
    return o


@model('builtins.super')
def b_super(I, args, kw, st, node):
    if args:
        return mk('super', args[0], args[1])
    fr = I.frame
    cls = fr.func.cls
    self_ = None
    a = fr.func.node.args.args
    if a:
        self_ = st.d.get(('v', fr.fid, a[0].arg))
    return mk('super', cls, self_)


@model('builtins.property', 'abc.abstractproperty')
def b_property(I, args, kw, st, node):
    f = kwget(args, kw, 0, 'fget')
    s = kwget(args, kw, 1, 'fset')
    return mk('prop', f, s) if s is not None and s is not NONE else mk('prop', f)


@model('functools.cached_property')
def b_cprop(I, args, kw, st, node):
    return mk('prop', args[0])


@model('builtins.staticmethod')
def b_static(I, args, kw, st, node):
    return mk('static', args[0])


@model('builtins.classmethod')
def b_classm(I, args, kw, st, node):
    return mk('classm', args[0])


@model('abc.abstractmethod')
def abc_abs(I, args, kw, st, node):
    if args[0].op == 'func':
        I.funcs[args[0].args[0]].abstract = True
    return args[0]


@model('contextlib.contextmanager')
def ctxm(I, args, kw, st, node):
    return mk('ctxman', args[0])


@model('contextlib.closing')
def closing(I, args, kw, st, node):
    return mk('closing', args[0])


@model('contextlib.suppress')
def suppress(I, args, kw, st, node):
    return mk('suppress', *args)


@model('functools.wraps')
def wraps(I, args, kw, st, node):
    return mk('ext', 'sa.identity')


@model('sa.identity', 'functools.lru_cache', 'functools.total_ordering', 'six.python_2_unicode_compatible',
       'functools.cache')
def identity(I, args, kw, st, node):
    if not args or (args[0].op not in ('func', 'class')):
        return mk('ext', 'sa.identity')
    return args[0]


@model('functools.partial')
def partial(I, args, kw, st, node):
    return mk('partial', args[0], mk('tuple', *args[1:], ty='tuple'), tuple(kw))


@model('functools.reduce')
def reduce_(I, args, kw, st, node):
    slot = ('h', I.new_id())
    f = args[0]
    if len(args) > 2:
        st.d[slot] = args[2]
        I.iterate(args[1], lambda v, q: q.d.__setitem__(slot, I.call(f, [q.d[slot], v], [], q, node)), st, node)
        return st.d.pop(slot)
    s = I.as_seq(args[1], st, node)
    if s.op in ('seq', 'tuple') and s.args:
        r = s.args[0]
        for x in s.args[1:]:
            r = I.call(f, [r, x], [], st, node)
        return r
    return fresh('reduce')


@model('deprecated.deprecated')
def deprecated(I, args, kw, st, node):
    r = kwget([], kw, None, 'reason')
    if args and args[0].op in ('func', 'class', 'depr', 'bound', 'ext'):
        return mk('depr', args[0], r if r is not None else const(''))
    if r is None and args:
        r = args[0]
    return mk('deprmaker', r if r is not None else const(''))


@model('collections.namedtuple')
def namedtuple(I, args, kw, st, node):
    f = args[1]
    if f.op == 'const' and f.ty == 'str':
        fields = tuple(cval(f).replace(',', ' ').split())
    else:
        s = I.as_seq(f, st, node)
        fields = tuple(cval(x) for x in s.args)
    return mk('ntclass', cval(args[0]), fields)


@model('copy.copy', 'copy.deepcopy')
def copy_copy(I, args, kw, st, node):
    x = args[0]
    if x.op == 'phi':
        return I.branch(x.args[0], st, lambda q: copy_copy(I, [x.args[1]], kw, q, node),
                        lambda q: copy_copy(I, [x.args[2]], kw, q, node))
    if x.op == 'obj':
        k = x.args[1]
        if k == 'inst':
            meta = {'cls': I.cls_of(x), 'copy_of': x}
            o = I.alloc('inst', meta)
            for key, v in list(st.d.items()):
                if key[0] == 'a' and key[1] == x.args[0]:
                    st.d[('a', o.args[0], key[2])] = v
            return o
        if k in ('list', 'dict', 'set'):
            o = I.alloc(k)
            st.d[('c', o.args[0])] = I.content(st, x)
            return o
    return x


@model('builtins.print')
def b_print(I, args, kw, st, node):
    I.event('print', args, dict(kw), st, node)
    return NONE


@model('sys.exit', 'builtins.exit', 'builtins.quit')
def sys_exit(I, args, kw, st, node):
    a = args[0] if args else NONE
    I.event('sys.exit', [a], {}, st, node)
    I.raise_exc('SystemExit', [a], st, node)


# ------------------------------------------------------------------ files
@model('builtins.open', 'io.open')
def b_open(I, args, kw, st, node):
    path = kwget(args, kw, 0, 'file')
    mode = kwget(args, kw, 1, 'mode', const('r'))
    m = cval(mode) if is_const(mode) else None
    pos = ZERO
    if m is None or 'a' in m:
        pos = fresh('filepos', 'int')
    o = I.new_file(st, 'open', mode, path, pos)
    I.objs[o.args[0]]['text'] = m is not None and 'b' not in m
    I.event('open', [path, mode], dict((k, v) for k, v in kw if k not in ('file', 'mode')), st, node, res=o)
    st.d[('f', o.args[0], 'closed')] = FALSE
    I.opened.append(o)
    return o


@model('io.BytesIO', 'io.StringIO')
def bytesio(I, args, kw, st, node):
    init = kwget(args, kw, 0, 'initial_bytes', EMPTYB)
    o = I.new_file(st, 'mem', const('mem'), None)
    I.objs[o.args[0]]['init'] = init
    I.event('bytesio', [init], {}, st, node, res=o)
    return o


@model('os.path.getsize')
def getsize(I, args, kw, st, node):
    r = fresh('getsize', 'int')
    I.event('getsize', [args[0]], {}, st, node, res=r)
    return r


@model('os.path.exists', 'os.path.lexists')
def exists(I, args, kw, st, node):
    r = mk('call', 'os.path.exists', (args[0],), (), ty='bool')
    I.event('exists', [args[0]], {}, st, node, res=r)
    return r


def text(x):
    return x


def call_file(I, o, name, args, kw, st, node):
    oid = o.args[0]
    meta = I.objs[oid]
    P, V = ('f', oid, 'pos'), ('f', oid, 'ver')
    if P not in st.d:
        st.d[P], st.d[V] = fresh('filepos', 'int'), fresh('filever', 'int')
    pos, ver = st.d[P], st.d[V]
    ty = 'str' if meta.get('text') else 'bytes'
    if st.d.get(('f', oid, 'closed'), FALSE) is not FALSE and name not in ('close', '__exit__'):
        I.event('use_closed', [o], {}, st, node, closed=st.d[('f', oid, 'closed')])
    if name == 'read':
        n = kwget(args, kw, 0, 'size', const(-1))
        if n is NONE or (is_cint(n) and cval(n) < 0):
            r = mk('rd', o, ver, pos, mk('sym', 'EOF', ty='int'), ty=ty)
            st.d[P] = fresh('fileend', 'int')
        else:
            r = mk('rd', o, ver, pos, n, ty=ty)
            st.d[P] = add(pos, n)
        I.event('read', [o, n], {}, st, node, res=r, pos=pos, ver=ver)
        return r
    if name == 'readinto':
        I.event('readinto', [o] + list(args), {}, st, node, pos=pos)
        st.d[P] = fresh('filepos', 'int')
        return fresh('nread', 'int')
    if name in ('readline', 'readlines'):
        r = fresh('line', 'str')
        I.event('read', [o, const(-1)], {}, st, node, res=r, pos=pos, ver=ver)
        st.d[P] = fresh('filepos', 'int')
        return r
    if name == 'write':
        d = args[0]
        if d.op == 'mview':
            d = d.args[0]
        I.event('write', [o, d], {}, st, node, pos=pos, ver=ver)
        st.d[P] = add(pos, length(d))
        st.d[V] = add(ver, ONE)
        return length(d)
    if name == 'writelines':
        I.iterate(args[0], lambda v, q: call_file(I, o, 'write', [v], [], q, node), st, node)
        return NONE
    if name == 'seek':
        off = args[0]
        wh = kwget(args, kw, 1, 'whence', ZERO)
        if is_cint(wh) and cval(wh) == 0:
            st.d[P] = off
        elif is_cint(wh) and cval(wh) == 1:
            st.d[P] = add(pos, off)
        else:
            st.d[P] = add(mk('sym', 'fsize:%d' % oid, ty='int'), off) if is_cint(wh) else fresh('filepos', 'int')
        I.event('seek', [o, off, wh], {}, st, node, pos=pos)
        return st.d[P]
    if name == 'tell':
        return pos
    if name in ('getvalue', 'getbuffer'):
        r = mk('fval', o, ver, ty='bytes')
        I.event('getvalue', [o], {}, st, node, res=r, ver=ver)
        return r
    if name == 'truncate':
        I.event('truncate', [o] + list(args), {}, st, node, pos=pos)
        st.d[V] = add(ver, ONE)
        return NONE
    if name == 'close':
        I.event('close', [o], {}, st, node, how='call')
        st.d[('f', oid, 'closed')] = TRUE
        return NONE
    if name == '__enter__':
        return o
    if name == '__exit__':
        I.event('close', [o], {}, st, node, how='call')
        st.d[('f', oid, 'closed')] = TRUE
        return NONE
    if name in ('flush', 'fileno', 'readable', 'writable', 'seekable', 'isatty'):
        I.event('file.' + name, [o], {}, st, node)
        return mk('call', 'fileno', (o,), (), ty='int') if name == 'fileno' else fresh('file.' + name)
    r = fresh('file.' + name)
    I.event('file.' + name, [o] + list(args), dict(kw), st, node, res=r)
    return r


# ---------------------------------------------------------- json and codecs
@model('json.dumps')
def json_dumps(I, args, kw, st, node):
    r = mk('call', 'json.dumps', tuple(args), tuple(sorted(kw)), ty='str')
    I.event('json.dumps', args, dict(kw), st, node, res=r)
    return r


@model('json.loads')
def json_loads(I, args, kw, st, node):
    x = args[0]
    r = mk('call', 'json.loads', (x,), tuple(sorted(kw)))
    I.event('json.loads', args, dict(kw), st, node, res=r)
    return r


@model('json.load')
def json_load(I, args, kw, st, node):
    t = I.call_method(args[0], 'read', [], st, node)
    return json_loads(I, [t], kw, st, node)


@model('ast.literal_eval')
def literal_eval(I, args, kw, st, node):
    r = mk('call', 'ast.literal_eval', (args[0],), ())
    I.event('ast.literal_eval', args, {}, st, node, res=r)
    return r


def _codec(name, names, ty):
    def f(I, args, kw, st, node):
        c = canon_args(args, kw, names)
        r = pure(name, [v for _, v in c[:1]], c[1:], ty)
        I.event(name, list(args), dict(kw), st, node, res=r, canon=dict(c))
        return r
    EXT[name] = f


_codec('zlib.compress', ['data', 'level', 'wbits'], 'bytes')
_codec('zlib.decompress', ['data', 'wbits', 'bufsize'], 'bytes')
_codec('blosc.compress', ['bytesobj', 'typesize', 'clevel', 'shuffle', 'cname'], 'bytes')
_codec('blosc.decompress', ['bytes_like', 'as_bytearray'], 'bytes')


def _inv(outer, inner):
    def f(args, kw):
        if args and args[0].op == 'call' and args[0].args[0] == inner:
            return args[0].args[1][0]
        return None
    tm.CALL_SIMP[outer] = f


_inv('blosc.decompress', 'blosc.compress')
_inv('zlib.decompress', 'zlib.compress')


@model('blosc.compress_ptr')
def compress_ptr(I, args, kw, st, node):
    c = canon_args(args, kw, ['address', 'items', 'typesize', 'clevel', 'shuffle', 'cname'])
    d = dict(c)
    r = mk('call', 'blosc.compress_ptr', tuple(v for _, v in c[:2]), c[2:], ty='bytes')
    I.event('blosc.compress_ptr', list(args), dict(kw), st, node, res=r, canon=d)
    return r


@model('blosc.decompress_ptr')
def decompress_ptr(I, args, kw, st, node):
    c = canon_args(args, kw, ['bytes_like', 'address'])
    r = tm.chunk_nbytes(dict(c).get('bytes_like', args[0]))
    I.event('blosc.decompress_ptr', list(args), dict(kw), st, node, res=r, canon=dict(c))
    return r


@model('blosc.get_cbuffer_sizes')
def cbuffer_sizes(I, args, kw, st, node):
    b = args[0]
    return mk('tuple', unpk('<I', slice_(b, const(4), const(8))), unpk('<I', slice_(b, const(12), const(16))),
              unpk('<I', slice_(b, const(8), const(12))), ty='tuple')


@model('zlib.adler32')
def adler(I, args, kw, st, node):
    return mk('call', 'zlib.adler32', tuple(args), tuple(kw), ty='int')


@model('zlib.crc32', 'binascii.crc32')
def crc(I, args, kw, st, node):
    return mk('call', 'zlib.crc32', tuple(args), tuple(kw), ty='int')


def new_hash(I, algo, data, st, node):
    o = I.alloc('ext:hash', {'algo': algo})
    st.d[('c', o.args[0])] = data
    st.d[('a', o.args[0], 'digest_size')] = const(_HASHES[algo])
    st.d[('a', o.args[0], 'name')] = const(algo)
    return o


@model('hashlib.new')
def hashlib_new(I, args, kw, st, node):
    n = args[0]
    if is_const(n) and cval(n) in _HASHES:
        return new_hash(I, cval(n), args[1] if len(args) > 1 else EMPTYB, st, node)
    return fresh('hash')


def counted(f):
    """(code, n) of a format text that says '<%dq' % n in one of its spellings"""
    import re
    if f.op == 'fmt' and len(f.args) == 2 and is_const(f.args[0]) and f.args[0].ty == 'str':
        m = re.match(r'^([<>=!]?)(?:%[dsi]|\{0?\}|\{:d\})([a-zA-Z])$', cval(f.args[0]))
        if m:
            return m.group(1) + m.group(2), f.args[1]
    if f.op == 'cat' and f.ty == 'str':
        xs = list(f.args)
        order = ''
        if is_const(xs[0]) and cval(xs[0]) in ('<', '>', '=', '!'):
            order = cval(xs.pop(0))
        if len(xs) == 1 and xs[0].op == 'rep' and is_const(xs[0].args[0]) and len(cval(xs[0].args[0])) == 1:
            return order + cval(xs[0].args[0]), xs[0].args[1]
        if len(xs) == 2 and xs[0].op == 'fmt' and is_const(xs[1]) and len(cval(xs[1])) == 1:
            a = xs[0].args
            if len(a) == 1 or len(a) == 2 and (is_const(a[0]) and cval(a[0]) in ('%d', '%s', '%i', '{}') or a[1] is const('d')):
                return order + cval(xs[1]), (a[0] if len(a) == 1 or a[1] is const('d') else a[1])
    return None


def counted_code(f):
    c = counted(f)
    if c is None or c[1].ty not in ('int', None):
        return None
    code, n = c
    if len(code) == 1 and code not in 'bB':
        return None         # native size and alignment
    if tm.FMTSIZE.get(code[-1]) is None:
        return None
    return (code if len(code) == 2 else '<' + code), n, tm.FMTSIZE[code[-1]]


@model('struct.pack')
def s_pack(I, args, kw, st, node):
    if args[0].op == 'const':
        return struct_pack(I, cval(args[0]), args[1:], st, node)
    c = counted_code(args[0])
    if c is not None and len(args) == 2 and args[1].op == 'splat':
        code, n, size = c
        s = args[1].args[0]
        I.event('struct.pack', [const(code), s], {}, st, node)
        I.maybe_raise('struct.error', not_(eq(length(s), n)), [], st, node)
        j = fresh('idxb', 'int')
        return tm.bmap(j, pk(code, tm.at(s, j)), n)
    return mk('call', 'struct.pack', tuple(args), (), ty='bytes')


@model('struct.unpack', 'struct.unpack_from')
def s_unpack(I, args, kw, st, node):
    b = args[1]
    if b.op == 'mview':
        b = b.args[0]
    off = kwget(args, kw, 2, 'offset', ZERO)
    if args[0].op == 'const':
        return struct_unpack(I, cval(args[0]), b, off, st, node)
    c = counted_code(args[0])
    if c is not None and b.ty == 'bytes' and off is ZERO:
        code, n, size = c
        I.event('struct.unpack', [const(code), b, off], {}, st, node)
        I.maybe_raise('struct.error', not_(eq(length(b), mul(const(size), n))), [], st, node)
        j = fresh('idxb', 'int')
        return tm.smap(j, unpk(code, slice_(b, mul(const(size), j), mul(const(size), add(j, ONE)))), n)
    return mk('call', 'struct.unpack', tuple(args), (), ty='tuple')


@model('struct.calcsize')
def s_calcsize(I, args, kw, st, node):
    return const(_struct.calcsize(cval(args[0]))) if is_const(args[0]) else fresh('calcsize', 'int')


@model('builtins.int.from_bytes')
def int_from(I, args, kw, st, node):
    b = args[0]
    order = kwget(args, kw, 1, 'byteorder', const('big'))
    signed = kwget([], kw, None, 'signed', FALSE)
    l = length(b)
    if is_cint(l) and is_const(order) and is_const(signed) and (cval(l), cval(signed)) in _INTCODE:
        o = '<' if cval(order) == 'little' else '>'
        if cval(l) == 1:
            o = '<'
        return unpk(o + _INTCODE[(cval(l), cval(signed))], b)
    if b.op in ('slice',):
        l = sub(b.args[2], b.args[1])
        if is_cint(l) and is_const(order) and is_const(signed) and (cval(l), cval(signed)) in _INTCODE:
            return unpk(('<' if cval(order) == 'little' or cval(l) == 1 else '>') +
                        _INTCODE[(cval(l), cval(signed))], b)
    return mk('call', 'int.from_bytes', tuple(args), tuple(kw), ty='int')


# ------------------------------------------------------------------ numpy
@model('numpy.empty', 'numpy.zeros', 'numpy.ndarray', 'numpy.ones', 'numpy.full')
def np_empty(I, args, kw, st, node, name='numpy.empty'):
    c = canon_args(args, kw, ['shape', 'dtype', 'order'])
    d = dict(c)
    r = mk('newarr', I.new_id(), d.get('shape', NONE), d.get('dtype', NONE), d.get('order', NONE), ty='ndarray')
    I.event('numpy.empty', list(args), dict(kw), st, node, res=r, canon=d, alloc=name)
    return r


for _n in ('numpy.zeros', 'numpy.ones', 'numpy.full'):
    EXT[_n] = (lambda nm: lambda I, a, k, s, n: np_empty(I, a, k, s, n, nm))(_n)


@model('numpy.dtype')
def np_dtype(I, args, kw, st, node):
    r = mk('call', 'numpy.dtype', tuple(args), tuple(kw), ty='dtype')
    I.event('numpy.dtype', list(args), dict(kw), st, node, res=r)
    return r


def _np_conv(name):
    def f(I, args, kw, st, node):
        return mk('call', name, tuple(args), tuple(kw), ty='ndarray')
    EXT[name] = f


for _n in ('numpy.asfortranarray', 'numpy.ascontiguousarray', 'numpy.asarray', 'numpy.array', 'numpy.frombuffer',
           'numpy.linspace', 'numpy.asanyarray', 'numpy.require', 'numpy.reshape', 'numpy.copy'):
    _np_conv(_n)


# --------------------------------------------------------------- argparse
def argparse_obj(I, name, args, kw, st, node):
    if name == 'argparse.Namespace':
        o = I.alloc('ns', {'types': {}})
        for k, v in kw:
            st.d[('a', o.args[0], k)] = v
        return o
    if name.startswith('argparse.HelpFormatter') or name.endswith('.__init__'):
        return NONE
    o = I.alloc('ext:argparse', {'kind': name, 'parent': None, 'args': list(args), 'kw': dict(kw)})
    I.event(name, list(args), dict(kw), st, node, res=o)
    return o


def call_argparse(I, o, name, args, kw, st, node):
    r = NONE
    if name in ('add_argument_group', 'add_mutually_exclusive_group', 'add_subparsers', 'add_parser'):
        r = I.alloc('ext:argparse', {'kind': name, 'parent': o, 'args': list(args), 'kw': dict(kw)})
    elif name in ('parse_args', 'parse_known_args'):
        r = getattr(I, 'parse_result', None)
        r = r(st) if r is not None else I.alloc('ns', {'types': None})
        if name == 'parse_known_args':
            r = mk('tuple', r, fresh('rest'), ty='tuple')
    elif name in ('error', 'exit'):
        I.event('argparse.' + name, [o] + list(args), dict(kw), st, node)
        I.raise_exc('SystemExit', [const(2)], st, node)
    elif name in ('format_help', 'format_usage'):
        r = fresh('usage', 'str')
    I.event('argparse.' + name, [o] + list(args), dict(kw), st, node, res=r)
    return r


# ---------------------------------------------------------------- methods
def call_method(I, o, name, args, kw, st, node):
    op = o.op
    if op == 'phi':
        return I.branch(o.args[0], st, lambda q: call_method(I, o.args[1], name, args, kw, q, node),
                        lambda q: call_method(I, o.args[2], name, args, kw, q, node))
    if op == 'obj':
        k = o.args[1]
        if k == 'file':
            return call_file(I, o, name, args, kw, st, node)
        if k == 'list':
            return call_list(I, o, name, args, kw, st, node)
        if k == 'dict':
            return call_dict(I, o, name, args, kw, st, node)
        if k == 'set':
            return call_set(I, o, name, args, kw, st, node)
        if k == 'ext:hash':
            algo = I.objs[o.args[0]]['algo']
            c = I.content(st, o)
            if name == 'digest':
                return mk('call', 'hashlib.%s.digest' % algo, (c,), (), ty='bytes')
            if name == 'hexdigest':
                return mk('call', 'hashlib.%s.hexdigest' % algo, (c,), (), ty='str')
            if name == 'update':
                st.d[('c', o.args[0])] = cat(c, args[0])
                return NONE
            if name == 'copy':
                return new_hash(I, algo, c, st, node)
        if k == 'ext:argparse':
            return call_argparse(I, o, name, args, kw, st, node)
        r = fresh('r:%s.%s' % (k, name))
        I.event('method:' + name, [o] + list(args), dict(kw), st, node, res=r)
        return r
    if op == 'struct':
        if name == 'pack':
            return struct_pack(I, o.args[0], args, st, node)
        if name in ('unpack', 'unpack_from'):
            b = args[0].args[0] if args[0].op == 'mview' else args[0]
            return struct_unpack(I, o.args[0], b, kwget(args, kw, 1, 'offset', ZERO), st, node)
    if op == 'mview':
        if name in ('tobytes',):
            return o.args[0]
        if name in ('release', '__enter__', '__exit__'):
            return o
        return call_method(I, o.args[0], name, args, kw, st, node)
    if op == 'excv':
        if name in ('__str__', '__repr__'):
            return tostr(I, o, st, node)
        return o
    if o.ty == 'int':
        if name == 'to_bytes':
            n = kwget(args, kw, 0, 'length', ONE)
            order = kwget(args, kw, 1, 'byteorder', const('big'))
            signed = kwget([], kw, None, 'signed', FALSE)
            if is_const(n) and is_const(order) and is_const(signed) and (cval(n), cval(signed)) in _INTCODE:
                I.event('struct.pack', [const('to_bytes'), o], {}, st, node)
                p = '<' if cval(order) == 'little' or cval(n) == 1 else '>'
                return pk(p + _INTCODE[(cval(n), cval(signed))], o)
        if name == 'bit_length' and is_cint(o):
            return const(cval(o).bit_length())
        return pure('int.' + name, [o] + list(args), kw, 'int')
    if o.ty in ('str', 'bytes') or op in ('fmt',):
        return call_str(I, o, name, args, kw, st, node)
    if op in ('tuple', 'seq') or o.ty in ('tuple', 'seq'):
        if name == 'index' and o.op in ('tuple', 'seq'):
            return seq_index(I, o, args[0], st, node)
        if name == 'count':
            return pure('count', [o] + list(args), ty='int')
        if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__'):
            I.event('mutate', [o] + list(args), {}, st, node, how=name)
        return pure('tuple.' + name, [o] + list(args), kw)
    if o.ty == 'float':
        return pure('float.' + name, [o] + list(args), kw)
    if o.ty == 'bool':
        return pure('bool.' + name, [o] + list(args), kw)
    r = fresh('m:' + name)
    I.event('opaque_method', [o, const(name)] + list(args), dict(kw), st, node, res=r)
    return r


def seq_index(I, s, x, st, node):
    x = simp(st.pc, x) if x.op in ('phi', 'tab') else x
    if s.op in ('tuple', 'seq'):
        if is_const(x):
            for i, y in enumerate(s.args):
                if y is x:
                    return const(i)
            if all(is_const(y) for y in s.args):
                I.raise_exc('ValueError', [const('not in list')], st, node)
        elif all(is_const(y) for y in s.args):
            if x.op == 'phi':
                return I.branch(x.args[0], st, lambda q: seq_index(I, s, x.args[1], q, node),
                                lambda q: seq_index(I, s, x.args[2], q, node))
            I.maybe_raise('ValueError', and_(*[not_(eq(x, y)) for y in s.args]), [const('not in list')], st, node)
            seen = []
            for i, y in enumerate(s.args):
                if y not in [k for k, _ in seen] and I.decide(eq(x, y), st) is not FALSE:
                    seen.append((y, const(i)))
            if seen:
                r = tab(x, seen)
                if r is not None:
                    return r
    r = mk('call', 'index', (s, x), (), ty='int')
    return r


def call_list(I, o, name, args, kw, st, node):
    sl = ('c', o.args[0])
    c = st.d[sl]
    mut = name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', '__setitem__')
    if mut:
        I.event('mutate', [o] + list(args), {}, st, node, how=name)
    if name == 'append':
        st.d[sl] = cat(c, mk('seq', args[0], ty='seq'))
        return NONE
    if name == 'extend':
        s = I.as_seq(args[0], st, node)
        st.d[sl] = cat(st.d[sl], s)
        return NONE
    if name == 'copy':
        return I.new_list(st, c)
    if name == 'index':
        return seq_index(I, c, args[0], st, node)
    if name == '__getitem__':
        return I.getitem(o, args[0], st, node)
    if name == 'insert' and c.op == 'seq' and is_cint(args[0]):
        xs = list(c.args)
        xs.insert(cval(args[0]), args[1])
        st.d[sl] = mk('seq', *xs, ty='seq')
        return NONE
    if name == 'pop' and c.op == 'seq' and (not args or is_cint(args[0])):
        xs = list(c.args)
        if not xs:
            I.raise_exc('IndexError', [], st, node)
        r = xs.pop(*[cval(a) for a in args])
        st.d[sl] = mk('seq', *xs, ty='seq')
        return r
    if name == 'clear':
        st.d[sl] = mk('seq', ty='seq')
        return NONE
    if name == 'reverse' and c.op == 'seq':
        st.d[sl] = mk('seq', *reversed(c.args), ty='seq')
        return NONE
    if name == 'pop':
        r = at(c, sub(length(c), ONE)) if not args else at(c, args[0])
        st.d[sl] = slice_(c, ZERO, sub(length(c), ONE)) if not args else mk('listop', 'pop', c, *args, ty='seq')
        return r
    if name == 'count':
        return pure('count', [c] + list(args), ty='int')
    if mut:
        st.d[sl] = mk('listop', name, c, *args, ty='seq')
        return NONE
    return pure('list.' + name, [c] + list(args), kw)


def call_set(I, o, name, args, kw, st, node):
    sl = ('c', o.args[0])
    c = st.d[sl]
    if name in ('difference', 'union', 'intersection', 'symmetric_difference'):
        r = o
        for a in args:
            r = I.set_op(name, r, a, st, node)
        return r
    if name == 'add':
        if c.op == 'seq' and args[0] in c.args:
            return NONE
        st.d[sl] = cat(c, mk('seq', args[0], ty='seq'))
        I.event('mutate', [o] + list(args), {}, st, node, how=name)
        return NONE
    if name == 'copy':
        return I.new_set(st, c)
    if name in ('issubset', 'issuperset'):
        s = I.as_seq(args[0], st, node)
        a, b = (c, s) if name == 'issubset' else (s, c)
        if a.op == 'seq' and b.op in ('seq', 'tuple'):
            return and_(*[I.seq_contains(b, x) for x in a.args])
        return fresh('subset', 'bool')
    I.event('mutate', [o] + list(args), {}, st, node, how=name)
    st.d[sl] = mk('listop', name, c, *args, ty='seq')
    return NONE


def call_dict(I, o, name, args, kw, st, node):
    sl = ('c', o.args[0])
    c = st.d[sl]
    known = c.op == 'dict' and not any(k.op == 'anykey' for k, _ in c.args)
    if name in ('keys', 'iterkeys'):
        return mk('seq', *[k for k, _ in c.args], ty='seq') if known else mk('keys', c, ty='seq')
    if name in ('values', 'itervalues'):
        return mk('seq', *[v for _, v in c.args], ty='seq') if known else mk('values', c, ty='seq')
    if name in ('items', 'iteritems'):
        return mk('seq', *[mk('tuple', k, v, ty='tuple') for k, v in c.args], ty='seq') if known \
            else mk('items', c, ty='seq')
    if name == 'get':
        return I.dict_get(c, args[0], st, node, args[1] if len(args) > 1 else NONE)
    if name == 'copy':
        d = I.alloc('dict')
        st.d[('c', d.args[0])] = c
        return d
    if name == '__getitem__':
        return I.getitem(o, args[0], st, node)
    if name == '__contains__':
        return I.contains(o, args[0], st, node)
    I.event('mutate', [o] + list(args), {}, st, node, how=name)
    if name == 'update':
        items = []
        if args:
            items = I.dict_items(args[0], st, node)
        items = list(items) + [(const(k), v) for k, v in kw]
        if c.op == 'dict':
            st.d[sl] = mk('dict', *I.dict_merge(list(c.args), items), ty='dictc')
        else:
            for k, v in items:
                c = mk('dictupd', c, k, v, ty='dictc')
            st.d[sl] = c
        return NONE
    if name == 'setdefault':
        k = args[0]
        if known:
            for kk, v in c.args:
                if kk is k:
                    return v
            v = args[1] if len(args) > 1 else NONE
            st.d[sl] = mk('dict', *I.dict_merge(list(c.args), [(k, v)]), ty='dictc')
            return v
    if name == 'pop':
        k = args[0]
        if known:
            for kk, v in c.args:
                if kk is k:
                    st.d[sl] = mk('dict', *[(a, b) for a, b in c.args if a is not k], ty='dictc')
                    return v
            if len(args) > 1 and is_const(k):
                return args[1]
    if name == 'clear':
        st.d[sl] = mk('dict', ty='dictc')
        return NONE
    r = fresh('dict.' + name)
    st.d[sl] = mk('dictop', name, c, *args, ty='dictc')
    return r


_STRTY = {'endswith': 'bool', 'startswith': 'bool', 'isdigit': 'bool', 'find': 'int', 'rfind': 'int', 'index': 'int',
          'count': 'int', 'isalpha': 'bool', 'isspace': 'bool', 'isupper': 'bool', 'islower': 'bool'}


def call_str(I, o, name, args, kw, st, node):
    if o.op == 'const' and all(is_const(a) for a in args) and not kw and \
            name not in ('format', 'join', 'split', 'splitlines', 'partition', 'rpartition', 'rsplit', 'encode',
                         'decode', 'translate'):
        try:
            return const(getattr(cval(o), name)(*[cval(a) for a in args]))
        except (TypeError, AttributeError):
            pass
        except ValueError:
            I.raise_exc('ValueError', [], st, node)
    if name in ('startswith', 'endswith') and len(args) == 1 and args[0].op in ('tuple', 'seq'):
        return or_(*[call_str(I, o, name, [a], kw, st, node) for a in args[0].args])
    if name == 'encode':
        return encode(o)
    if name == 'decode':
        r = decode(o)
        if not is_const(o) and o.op != 'encode':
            I.event('decode', [o], {}, st, node, res=r)
        return r
    if name == 'format':
        return str_format(I, o, args, kw, st, node)
    if name in ('rjust', 'zfill') and o.op == 'binraw' and is_cint(args[0]):
        fill = args[1] if len(args) > 1 else None
        if name == 'zfill' or (fill is not None and is_const(fill) and cval(fill) == '0'):
            x = o.args[0]
            w = cval(args[0])
            if tm.fits(x, w):
                return digits_of(x, w)
    if name in ('rjust', 'zfill', 'ljust') and o.op == 'digits':
        if is_cint(args[0]) and cval(args[0]) <= len(o.args):
            return o
    if name == 'ljust' and o.ty == 'bytes' and len(args) > 1 and is_const(args[1]):
        l = length(o)
        return cat(o, I.rep_clamped(args[1], sub(args[0], l), st))
    if name == 'join':
        s = I.as_seq(args[0], st, node)
        return join(I, o, s, st, node)
    if name in ('split', 'splitlines', 'rsplit', 'partition', 'rpartition'):
        if o.op == 'const' and all(is_const(a) for a in args):
            v = getattr(cval(o), name)(*[cval(a) for a in args])
            s = mk('seq', *[const(x) for x in v], ty='seq')
        else:
            s = mk('call', 'str.' + name, (o,) + tuple(args), (), ty='seq')
        return I.new_list(st, s)
    if name in ('strip', 'rstrip', 'lstrip'):
        return mk('call', 'str.' + name, (o,) + tuple(args), (), ty=o.ty)
    if name in ('tobytes',):
        return o
    if name == 'removesuffix' and len(args) == 1 and o.ty == 'str':
        c = call_str(I, o, 'endswith', args, [], st, node)
        return phi(c, slice_(o, ZERO, sub(length(o), length(args[0]))), o)
    return mk('call', 'str.' + name, (o,) + tuple(args), tuple(kw), ty=_STRTY.get(name, o.ty))


def join(I, sep, s, st, node):
    if s.op == 'phi':
        return phi(s.args[0], join(I, sep, s.args[1], st, node), join(I, sep, s.args[2], st, node))
    if s.op == 'digits':
        return s if is_const(sep) and cval(sep) == '' else mk('call', 'str.join', (sep, s), (), ty='str')
    if s.op in ('seq', 'tuple'):
        xs = list(s.args)
        if not xs:
            return const(b'') if sep.ty == 'bytes' else const('')
        empty = is_const(sep) and len(cval(sep)) == 0
        out = []
        for i, x in enumerate(xs):
            if i and not empty:
                out.append(sep)
            out.append(x)
        r = cat(*out)
        return r
    if is_const(sep) and len(cval(sep)) == 0 and sep.ty == 'bytes':
        return concat(I, s)
    return mk('call', 'str.join', (sep, s), (), ty=sep.ty)


def concat(I, s):
    """concatenation of a sequence of byte strings"""
    if s.op == 'smap':
        return bmap(s.args[0], s.args[1], s.args[2])
    if s.op == 'rep' and s.args[0].op == 'seq' and len(s.args[0].args) == 1:
        return rep(s.args[0].args[0], s.args[1])
    if s.op == 'cat':
        return cat(*[concat(I, p) for p in s.args])
    if s.op in ('seq', 'tuple'):
        return cat(*s.args) if s.args else EMPTYB
    if s.op == 'phi':
        return phi(s.args[0], concat(I, s.args[1]), concat(I, s.args[2]))
    return mk('call', 'str.join', (EMPTYB, s), (), ty='bytes')


def call_mixin(I, o, name, args, kw, st, node):
    m = I.find_method(o, '__iter__', st)
    if name == 'update':
        items = []
        if args:
            items = list(I.dict_items(args[0], st, node))
        for k, v in items + [(const(k), v) for k, v in kw]:
            I.setitem(o, k, v, st, node)
        return NONE
    if name == 'get':
        c = I.contains(o, args[0], st, node)
        return I.branch(c, st, lambda q: I.getitem(o, args[0], q, node),
                        lambda q: args[1] if len(args) > 1 else NONE)
    if name in ('pop', 'setdefault', 'clear', 'popitem'):
        I.event('mutate', [o] + list(args), {}, st, node, how=name)
        return fresh('mixin.' + name)
    ks = I.call(mk('bound', m, o), [], [], st, node)
    s = I.as_seq(ks, st, node)
    if name == 'keys':
        return s
    if s.op in ('seq', 'tuple'):
        vs = [I.getitem(o, k, st, node) for k in s.args]
        if name == 'values':
            return mk('seq', *vs, ty='seq')
        return mk('seq', *[mk('tuple', k, v, ty='tuple') for k, v in zip(s.args, vs)], ty='seq')
    return mk('call', 'mixin.' + name, (s,), (), ty='seq')


def call_superext(I, self_, name, args, kw, st, node):
    if name == '__init__':
        if self_.op == 'obj':
            st.d[('a', self_.args[0], 'args')] = mk('tuple', *args, ty='tuple')
        return NONE
    if name == '__setattr__' and is_const(args[0]):
        st.d[('a', self_.args[0], cval(args[0]))] = args[1]
        return NONE
    if name in ('keys', 'items', 'values', 'get', 'update'):
        return call_mixin(I, self_, name, args, kw, st, node)
    r = fresh('super.' + name)
    I.event('superext', [self_, const(name)] + list(args), dict(kw), st, node, res=r)
    return r


def call_opaque(I, f, args, kw, st, node):
    if f.op == 'deprmaker':
        return mk('depr', args[0], f.args[0])
    if f.op == 'starcall':
        s = I.as_seq(args[0], st, node)
        return I.call(f.args[0], list(s.args), kw, st, node)
    if f.op in ('attr', 'dynattr') and f.args[0].ty == 'ndarray' and isinstance(f.args[1], str) and \
            f.args[1] in ('tobytes', 'copy', 'ravel', 'reshape', 'view', 'astype', 'flatten'):
        n = f.args[1]
        return mk('call', 'ndarray.' + n, (f.args[0],) + tuple(args), tuple(kw),
                  ty='bytes' if n == 'tobytes' else 'ndarray')
    if f.op == 'attr' and isinstance(f.args[1], str):
        nm = f.args[1]
        o = f.args[0]
        if nm in ('endswith', 'startswith'):
            return mk('call', 'str.' + nm, (o,) + tuple(args), (), ty='bool')
        if nm in ('get', 'keys', 'items', 'values'):
            return mk('call', 'map.' + nm, (o,) + tuple(args), tuple(kw), ty='seq' if nm != 'get' else None)
        if nm in ('decode', 'encode'):
            return mk(nm, o, ty='str' if nm == 'decode' else 'bytes')
        r = mk('call', 'method.' + nm, (o,) + tuple(args), tuple(kw))
        I.event('opaque_method', [o, const(nm)] + list(args), dict(kw), st, node, res=r)
        return r
    ty = None
    r = mk('call', 'apply', (f,) + tuple(args), tuple(kw), ty=ty)
    I.event('opaque_call', [f] + list(args), dict(kw), st, node, res=r)
    return r
