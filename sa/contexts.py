"""The entry contexts the rules analyse (memoised per process)."""
from .terms import *   # noqa
from . import terms as tm
from .ctx import Ctx, Node
from .interp import AnalysisBroken, Dead
from .prove import entails, prove_eq, simp
from .spec import *    # noqa

S = sym

BA = {'typesize': S('typesize', 'int'), 'clevel': S('clevel', 'int'), 'shuffle': S('shuffle', 'int'),
      'cname': S('cname', 'str')}
MA = {'magic_format': S('magic_format', 'bytes'), 'meta_checksum': S('meta_checksum', 'str'),
      'meta_codec': S('meta_codec', 'str'), 'meta_level': S('meta_level', 'int'),
      'max_meta_size': S('max_meta_size', 'int')}
META = S('metadata', 'dict*')
CKS = S('checksum', 'str')
MAXAPP = S('max_app_chunks', 'int')
CSIZE = S('chunk_size', 'int')
BYTES = S('bytes_', 'bytes')
ARR = S('ndarray', 'ndarray')
INF, OUTF = S('in_file', 'str'), S('out_file', 'str')


def quiet_call(C, st, f, args, kw=()):
    """evaluate a call on a fork without recording its events; None if it cannot complete"""
    I = C.I
    save = (I.events, I.raises, I.unmodelled)
    I.events, I.raises, I.unmodelled = [], [], list(I.unmodelled)
    q = st.fork()
    try:
        return I.call(f, list(args), list(kw), q, Node())
    except Dead:
        return None
    finally:
        I.events, I.raises, I.unmodelled = save


def pack_args(C, st, offsets, meta, mode):
    if mode == 'none':
        kw = []
        if meta:
            kw.append(('metadata', META))
        return kw
    ba = C.inst_call(st, 'args', 'BloscArgs', BA, caller='blosc_args')
    bpa = C.inst_call(st, 'args', 'BloscpackArgs',
                      {'offsets': const(offsets) if isinstance(offsets, bool) else offsets, 'checksum': CKS,
                       'max_app_chunks': MAXAPP}, caller='bloscpack_args')
    kw = [('chunk_size', CSIZE), ('blosc_args', ba), ('bloscpack_args', bpa)]
    if meta:
        ma = C.inst_call(st, 'args', 'MetadataArgs', MA, caller='metadata_args')
        kw += [('metadata', META), ('metadata_args', ma)]
    return kw


PACKS = ('file', 'bytes_file', 'bytes', 'mem', 'nd_file', 'nd_bytes')
PACK_FUNC = {'file': ('file_io', 'pack_file_to_file'), 'bytes_file': ('file_io', 'pack_bytes_to_file'),
             'bytes': ('file_io', 'pack_bytes_to_bytes'), 'nd_file': ('numpy_io', 'pack_ndarray_to_file'),
             'nd_bytes': ('numpy_io', 'pack_ndarray_to_bytes'), 'mem': ('abstract_io', 'pack')}


def pack_ctx(C, kind, offsets=True, meta=False, mode='inst'):
    key = ('pack', kind, offsets, meta, mode)
    if key in C.cache:
        return C.cache[key]
    box = {}

    def body(I, st, N):
        kw = pack_args(C, st, offsets, meta and kind not in ('nd_file', 'nd_bytes'), mode)
        f = C.get(*PACK_FUNC[kind])
        csz = CSIZE if mode != 'none' else C.get('defaults', 'DEFAULT_CHUNK_SIZE')
        if meta and kind in ('nd_file', 'nd_bytes') and mode != 'none':
            ma = C.inst_call(st, 'args', 'MetadataArgs', MA, caller='metadata_args')
            kw += [('metadata_args', ma)]
        if kind == 'file':
            a = [INF, OUTF]
        elif kind == 'bytes_file':
            a = [BYTES, OUTF]
            box['size'] = length(BYTES)
        elif kind == 'bytes':
            a = [BYTES]
            box['size'] = length(BYTES)
        elif kind == 'nd_file':
            a = [ARR, OUTF]
        elif kind == 'nd_bytes':
            a = [ARR]
        else:
            n, cs, last = S('nchunks', 'int'), CSIZE, S('last_chunk', 'int')
            src = I.call(C.get('memory_io', 'PlainMemorySource'), [S('chunks', 'seq')], [], st, N)
            snk = I.call(C.get('memory_io', 'CompressedMemorySink'), [], [], st, N)
            box['sink'], box['source'] = snk, src
            a = [src, snk, n, cs, last]
            kw = [x for x in kw if x[0] != 'chunk_size']
            box['plan'] = (n, cs, last)
        pre = st.fork()
        I.owned = I.n
        r = I.call(f, a, kw, st, N)
        box['pre'] = pre
        if kind == 'file':
            gs = [e for e in I.events if e.kind == 'getsize' and e.args[0] is INF]
            if gs:
                box['size'] = gs[0].res
        elif kind.startswith('nd'):
            box['size'] = mul(I.getattr(ARR, 'size', pre, N), I.getattr(ARR, 'itemsize', pre, N))
        if 'plan' not in box and 'size' in box:
            q = State_fork(pre, st.pc)
            p = quiet_call(C, q, C.get('args', 'calculate_nchunks'), [box['size'], csz])
            if p is not None and p.op == 'tuple':
                box['plan'] = p.args
            elif p is not None:
                box['plan'] = tuple(at(p, const(i)) for i in range(3))
        return r
    r = C.run('pack:%s%s%s%s' % (kind, ':offsets' if offsets is True else '', ':metadata' if meta else '',
                                 ':defaults' if mode == 'none' else ''), body)
    r.box = box
    r.kind = kind
    r.plan = box.get('plan')
    r.given_io = reach(C, r.st, [box[k] for k in ('sink', 'source') if k in box])
    outs, ins = [], []
    for e in r.events:
        if e.kind == 'write' and e.args[0] not in outs:
            outs.append(e.args[0])
        if e.kind == 'read' and e.args[0] not in ins:
            ins.append(e.args[0])
    r.outs, r.ins = outs, ins
    C.cache[key] = r
    return r


def reach(C, st, objs):
    """numbers of the objects reachable from the given ones"""
    seen, todo = set(), list(objs)
    while todo and st is not None:
        o = todo.pop()
        if o.op == 'phi':
            todo += [o.args[1], o.args[2]]
        if o.op != 'obj' or o.args[0] in seen:
            continue
        seen.add(o.args[0])
        for sl, v in st.d.items():
            if sl[0] in ('a', 'c') and sl[1] == o.args[0] and v is not None:
                todo += [v] + [x for x in atoms(v) if x.op == 'obj']
    return seen


def State_fork(st, pc):
    q = st.fork()
    q.pc = pc
    return q


# ------------------------------------------------------------------ unpacking
UNPACKS = ('file', 'bytes_file', 'bytes', 'nd_file', 'nd_bytes')
UNPACK_FUNC = {'file': ('file_io', 'unpack_file_from_file'), 'bytes_file': ('file_io', 'unpack_bytes_from_file'),
               'bytes': ('file_io', 'unpack_bytes_from_bytes'), 'nd_file': ('numpy_io', 'unpack_ndarray_from_file'),
               'nd_bytes': ('numpy_io', 'unpack_ndarray_from_bytes')}
STORED, DIGESTS = S('stored_chunks', 'seq'), S('stored_digests', 'seq')


def unpack_ctx(C, kind):
    key = ('unpack', kind)
    if key in C.cache:
        return C.cache[key]
    box = {}

    def body(I, st, N):
        f = C.get(*UNPACK_FUNC[kind])
        a = {'file': [INF, OUTF], 'bytes_file': [INF], 'bytes': [BYTES], 'nd_file': [INF], 'nd_bytes': [BYTES]}[kind]
        return I.call(f, a, [], st, N)
    r = C.run('unpack:%s' % kind, body)
    r.kind = kind
    r.box = box
    r.src = None
    for e in r.events:
        if e.kind == 'open' and e.arg(0, 'file') is INF or e.kind == 'bytesio' and e.args and e.args[0] is BYTES:
            r.src = e.res
            r.src_ev = e
            break
    r.dec = [e for e in r.events if e.kind in ('blosc.decompress', 'blosc.decompress_ptr', 'blosc.unpack_array')]
    C.cache[key] = r
    return r


def mem_unpack_ctx(C, offsets=True, prealloc=False):
    """unpack what an in-memory sink holds; the stored chunks and digests are arbitrary"""
    key = ('unpack_mem', offsets, prealloc)
    if key in C.cache:
        return C.cache[key]
    box = {}

    def body(I, st, N):
        src = I.call(C.get('memory_io', 'PlainMemorySource'), [S('chunks', 'seq')], [], st, N)
        snk = I.call(C.get('memory_io', 'CompressedMemorySink'), [], [], st, N)
        kw = pack_args(C, st, offsets, False, 'inst')
        kw = [x for x in kw if x[0] != 'chunk_size']
        n = S('nchunks', 'int')
        I.call(C.get('abstract_io', 'pack'), [src, snk, n, CSIZE, S('last_chunk', 'int')], kw, st, N)
        # forget which chunks and digests were stored
        comp = [e.res for e in I.events if e.kind in COMPRESS]
        box['lists'] = {}
        seen = {}
        for sl, v in list(st.d.items()):
            if sl[0] == 'a' and sl[1] == snk.args[0]:
                vs = []
                todo = [v]
                while todo:
                    t = todo.pop()
                    if t.op == 'phi':
                        todo += [t.args[1], t.args[2]]
                    elif t.op == 'obj' and ('c', t.args[0]) in st.d:
                        vs.append(t)
                for o in vs:
                    c = st.d[('c', o.args[0])]
                    if c.op in ('fill', 'smap', 'upd', 'cat', 'phi', 'seq', 'rep'):
                        inner = [x for x in atoms(c) if x.op == 'call']
                        isdig = any(x.args[0] in ('zlib.adler32', 'zlib.crc32') or x.args[0].startswith('hashlib')
                                    for x in inner)
                        isch = any(x in comp or x.args[0] == 'blosc.compress' for x in inner)
                        if isdig or isch:
                            seen[('c', o.args[0])] = DIGESTS if isdig else STORED
        for sl, s in seen.items():
            # how many there are is not forgotten
            st.assume(eq(length(s), length(st.d[sl])))
            st.d[sl] = s
        box['seen'] = set(seen.values())
        box['mark'] = len(I.events)
        I.raises = []
        del I.loops[:]
        csrc = I.call(C.get('memory_io', 'CompressedMemorySource'), [snk], [], st, N)
        args = [n] if prealloc else []
        out = I.call(C.get('memory_io', 'PlainMemorySink'), args, [], st, N)
        box['out'] = out
        box['n'] = n
        return I.call(C.get('abstract_io', 'unpack'), [csrc, out], [], st, N)
    r = C.run('unpack:mem%s%s' % ('' if offsets else ':nooffsets', ':preallocated' if prealloc else ''), body)
    r.kind = 'mem'
    r.box = box
    r.events = r.events[box.get('mark', 0):]
    r.dec = [e for e in r.events if e.kind in ('blosc.decompress', 'blosc.decompress_ptr', 'blosc.unpack_array')]
    C.cache[key] = r
    return r


class FileSpec(object):
    """what the format says about a file whose bytes are those of `f`"""

    def __init__(self, f, ver=ZERO):
        self.f = f
        self.H = self.rd(ZERO, const(32), ver)
        u = lambda fm, a, b: unpk(fm, slice_(self.H, const(a), const(b)))
        self.version, self.options, self.cks, self.typesize = u('<B', 4, 5), u('<B', 5, 6), u('<B', 6, 7), u('<B', 7, 8)
        self.chunk_size, self.last_chunk = u('<i', 8, 12), u('<i', 12, 16)
        self.nchunks, self.max_app = u('<q', 16, 24), u('<q', 24, 32)
        self.has_meta = eq(bit(self.options, 1), ONE)
        self.has_offsets = eq(bit(self.options, 0), ONE)
        M = self.M = self.rd(const(32), const(32), ver)
        m = lambda fm, a, b: unpk(fm, slice_(M, const(a), const(b)))
        self.m_options, self.m_cks, self.m_codec, self.m_level = m('<B', 8, 9), m('<B', 9, 10), m('<B', 10, 11), \
            m('<B', 11, 12)
        self.m_size, self.m_max, self.m_comp = m('<I', 12, 16), m('<I', 16, 20), m('<I', 20, 24)
        self.dsize = digest_size(self.cks)
        self.m_dsize = digest_size(self.m_cks)
        self.metadata = self.rd(const(64), self.m_comp, ver)
        self.m_digest = self.rd(add(const(64), self.m_max), self.m_dsize, ver)
        self.offsets_pos = phi(self.has_meta, add(add(const(64), self.m_max), self.m_dsize), const(32))
        self.data_pos = add(self.offsets_pos, phi(self.has_offsets, mul(const(8), add(self.nchunks, self.max_app)),
                                                  ZERO))

    def rd(self, pos, n, ver=ZERO):
        return mk('rd', self.f, ver, pos, n, ty='bytes')


def digest_size(ident):
    return tab(ident, [(const(i), const(sz)) for i, (_, sz) in enumerate(CHECKSUM_SIZES)])


def carried(loop, t):
    """(value of t in the first iteration, value of t in the next iteration)"""
    m0, m1 = {loop.idx: ZERO}, {loop.idx: add(loop.idx, ONE)}
    for sl, h in loop.heads.items():
        if h.op == 'lv' and loop.init.get(sl) is not None and loop.end.get(sl) is not None:
            m0[h] = loop.init[sl]
            m1[h] = loop.end[sl]
    t0 = subst(t, m0)
    # the loop index inside of a carried value belongs to that value
    m1x = dict((k, v) for k, v in m1.items() if k is not loop.idx)
    if any(contains(t, k) for k in m1x):
        t1 = subst(t, m1x)
    else:
        t1 = subst(t, m1)
    return t0, t1


def is_pointer(t):
    return t is not None and t.ty is None and any(a.op == 'attr' and a.args[1] == '__array_interface__' for a in atoms(t))


def relations(loop):
    """linear relations between integer variables carried by the loop, inductive by construction"""
    out = []
    its = [(sl, h) for sl, h in loop.heads.items() if h.op == 'lv' and (h.ty == 'int' or is_pointer(loop.init.get(sl)))
           and loop.init.get(sl) is not None and loop.end.get(sl) is not None]
    for i, (s1, h1) in enumerate(its):
        d1 = sub(loop.end[s1], h1)
        for s2, h2 in its[i + 1:]:
            d2 = sub(loop.end[s2], h2)
            if add(d1, d2) is ZERO:
                out.append(eq0(sub(add(h1, h2), add(loop.init[s1], loop.init[s2]))))
            elif sub(d1, d2) is ZERO:
                out.append(eq0(sub(sub(h1, h2), sub(loop.init[s1], loop.init[s2]))))
    return out


# ------------------------------------------------------------------ appending
ORIG, NEW = S('orig_file', 'str'), S('new_file', 'str')


def append_ctx(C, mode='dict', fp=False):
    """mode: the blosc_args given: 'none', 'dict' (plain dict with the four keys) or 'inst' (BloscArgs)"""
    key = ('append', mode, fp)
    if key in C.cache:
        return C.cache[key]
    box = {}

    def body(I, st, N):
        kw = []
        if mode == 'inst':
            kw = [('blosc_args', C.inst_call(st, 'args', 'BloscArgs', BA, caller='blosc_args'))]
        elif mode in ('dict', 'open dict'):
            d = I.alloc('dict', {'site': ('?', 0), 'caller': 'blosc_args'})
            st.d[('c', d.args[0])] = mk('dict', *[(const(k), v if mode == 'dict' else S(k, None))
                                                  for k, v in BA.items()], ty='dict')
            kw = [('blosc_args', d)]
        I.owned = I.n
        if not fp:
            return I.call(C.get('append', 'append'), [ORIG, NEW], kw, st, N)
        a = I.call(mk('ext', 'builtins.open'), [ORIG, const('r+b')], [], st, N)
        b = I.call(mk('ext', 'builtins.open'), [NEW, const('rb')], [], st, N)
        return I.call(C.get('append', 'append_fp'), [a, b, S('new_size', 'int')], kw, st, N)
    r = C.run('append%s:%s' % ('_fp' if fp else '', mode), body)
    r.box = box
    r.kind = 'append'
    r.mode, r.fp = mode, fp
    r.src = r.new = None
    for e in r.events:
        if e.kind == 'open' and e.arg(0, 'file') is ORIG and r.src is None:
            r.src = e.res
        if e.kind == 'open' and e.arg(0, 'file') is NEW and r.new is None:
            r.new = e.res
    C.cache[key] = r
    return r


def rewrite_ctx(C, given=False):
    """the metadata of an existing file is replaced, as the command line does (given: with all options)"""
    key = ('rewrite', given)
    if key in C.cache:
        return C.cache[key]

    def body(I, st, N):
        f = I.call(mk('ext', 'builtins.open'), [ORIG, const('r+b')], [], st, N)
        I.call(C.get('append', '_seek_to_metadata'), [f], [], st, N)
        kw = [('magic_format', S('magic_format', 'bytes')), ('checksum', S('checksum', 'str')),
              ('codec', S('codec', 'str')), ('level', S('level', 'int'))] if given else []
        return I.call(C.get('append', '_rewrite_metadata_fp'), [f, META], kw, st, N)
    r = C.run('rewrite metadata%s' % (':options' if given else ''), body)
    r.src = None
    for e in r.events:
        if e.kind == 'open' and r.src is None:
            r.src = e.res
    C.cache[key] = r
    return r


def read_contexts(C, tier):
    return [unpack_ctx(C, k) for k in UNPACKS] + [append_ctx(C, 'inst'), rewrite_ctx(C)]


# ------------------------------------------------------------------ command line
LONG = {'c': 'compress', 'd': 'decompress', 'a': 'append', 'i': 'info'}


class Option(object):
    def __init__(self, e, parser, path):
        self.e, self.parser, self.path = e, parser, path
        self.flags = [cval(x) for x in e.args[1:] if is_const(x)]
        kw = self.kw = dict(e.kw)
        self.positional = bool(self.flags) and not self.flags[0].startswith('-')
        d = kw.get('dest')
        if d is not None and is_const(d):
            self.dest = cval(d)
        elif self.positional or not self.flags:
            self.dest = self.flags[0] if self.flags else None
        else:
            lo = [f for f in self.flags if f.startswith('--')] or self.flags
            self.dest = lo[0].lstrip('-').replace('-', '_')
        self.action = kw.get('action', const('store'))
        self.default = kw.get('default', NONE)
        if is_const(self.action) and cval(self.action) in ('store_true', 'store_false') and 'default' not in kw:
            self.default = const(cval(self.action) == 'store_false')
        self.type = kw.get('type', NONE)
        self.nargs = kw.get('nargs', NONE)
        self.choices = kw.get('choices', NONE)

    @property
    def ty(self):
        a = cval(self.action) if is_const(self.action) else None
        if a in ('store_true', 'store_false'):
            return 'bool'
        if self.default is NONE and not (self.positional and self.nargs is NONE):
            return None
        t = show(self.type)
        if 'int' in t:
            return 'int'
        if self.default.ty in ('int', 'str') and a is None:
            return self.default.ty
        return 'str' if 'str' in t or self.type is NONE else None


def parser_spec(C):
    """the declared options: parser name ('' for the root) -> list of Option"""
    if 'parser' in C.cache:
        return C.cache['parser']
    r = C.call('create_parser', 'cli', 'create_parser')
    I = C.I
    out = {'': []}
    r.parsers = out
    r.sub_dest = None
    r.root = [e.res for e in r.events if e.kind == 'argparse.ArgumentParser']
    for e in r.events:
        if e.kind == 'argparse.add_subparsers':
            d = e.kw.get('dest')
            r.sub_dest = cval(d) if d is not None and is_const(d) else None

    def home(o):
        while o is not None and o.op == 'obj':
            m = I.objs[o.args[0]]
            if m['kind'] == 'add_parser':
                names = [cval(a) for a in m['args'] if is_const(a)]
                al = m['kw'].get('aliases')
                if al is not None:
                    c = r.st.d.get(('c', al.args[0])) if al.op == 'obj' and r.st is not None else al
                    names += [cval(x) for x in (c.args if c is not None else ()) if is_const(x)]
                return names
            if m['parent'] is None:
                return ['']
            o = m['parent']
        return None
    for e in r.events:
        if e.kind == 'argparse.add_parser':
            for n in home(e.res):
                out.setdefault(n, [])
        if e.kind == 'argparse.add_argument':
            for n in home(e.args[0]) or ():
                out.setdefault(n, []).append(Option(e, n, e.pc))
    C.cache['parser'] = r
    return r


def action_type(C, o):
    """type of the values a custom action stores"""
    if is_const(o.action):
        return o.ty
    return 'int' if o.default.ty == 'int' or 'int' in show(o.type) else None


def main_ctx(C, sub):
    key = ('main', sub)
    if key in C.cache:
        return C.cache[key]
    p = parser_spec(C)
    box = {}

    def namespace(st):
        o = C.I.alloc('ns', {'types': types})
        st.d[('a', o.args[0], p.sub_dest or 'subcommand')] = const(sub) if sub is not None else NONE
        box['ns'] = o
        return o
    types = {}
    for n in ('', sub):
        for o in p.parsers.get(n, ()):
            types[o.dest] = action_type(C, o)
            for k in ('version', 'help'):
                if is_const(o.action) and cval(o.action) == k:
                    types.pop(o.dest, None)
    C.I.parse_result = namespace
    try:
        r = C.run('main %s' % (sub or '(no subcommand)'), lambda I, st, N: I.call(C.get('cli', 'main'), [], [], st, N))
    finally:
        C.I.parse_result = None
    r.kind = 'main'
    r.sub = sub
    r.box = box
    C.cache[key] = r
    return r


def arg(name, C=None, sub=None):
    p = parser_spec(C)
    for n in ('', sub):
        for o in p.parsers.get(n, ()):
            if o.dest == name:
                return sym('args.' + name, action_type(C, o))
    return None
