"""Rules over the NumPy entry points."""
from ..contexts import *   # noqa
from ..spec import *   # noqa
from .unpack import is_exc

NDPACKS, NDUNPACKS = ('nd_file', 'nd_bytes'), ('nd_file', 'nd_bytes')
REJECT = 'exceptions.ObjectNumpyArrayRejection'
COPIES = ('numpy.ascontiguousarray', 'numpy.asfortranarray', 'numpy.asarray', 'numpy.array', 'numpy.asanyarray',
          'numpy.require', 'numpy.copy')


def attr_of(C, r, o, name):
    return C.I.getattr(o, name, (r.box.get('pre') or r.st).fork(), Node())


def hasobject(C, st, dt):
    return C.I.truth(C.I.getattr(dt, 'hasobject', st.fork(), Node()), st.fork(), Node())


def exc_name(C, x):
    try:
        return C.I.class_name(C.I.exc_class(x))
    except Exception:       # not an exception value the model knows
        return show(x)[:60]


def calls_named(t, names):
    return [x for x in atoms(t) if x.op == 'call' and x.args[0] in names]


# ------------------------------------------------------------------ C18
def c18(C, R, tier):
    for kind in NDPACKS:
        r = R.context(pack_ctx(C, kind, True, True))
        st = r.box['pre']
        ho = hasobject(C, st, attr_of(C, r, ARR, 'dtype'))
        comp = [e for e in r.events if e.kind in COMPRESS]
        R.ok(bool(comp), '%s: compresses the array' % r.name, '', 'no compression found', r)
        for e in comp:
            R.ok(holds(list(e.pc), not_(ho)), '%s: arrays holding Python objects are rejected before compressing' % r.name,
                 e.site, 'reached without excluding dtype.hasobject', r)
        if r.st is not None:
            R.ok(holds(list(r.st.pc), not_(ho)), '%s: arrays holding Python objects are not packed' % r.name, '',
                 'completes for such an array', r)
        rejects(C, R, r, ho, '%s: the rejection of arrays with objects is ObjectNumpyArrayRejection' % r.name)
        conv = [e for e in r.events if e.kind == 'nd.method' or e.kind == 'nd.copy']
        for e in conv:
            R.ok(holds(list(e.pc), not_(ho)), '%s: arrays holding Python objects are rejected before they are read' % r.name,
                 e.site, '', r)
    for kind in NDUNPACKS:
        r = R.context(unpack_ctx(C, kind))
        allocs = [e for e in r.events if e.kind == 'numpy.empty']
        R.ok(bool(allocs), '%s: allocates the array' % r.name, '', 'no allocation found', r)
        for e in allocs:
            dt = e.x['canon'].get('dtype')
            if not R.ok(dt is not None, '%s: the array is allocated with the recorded dtype' % r.name, e.site, '', r):
                continue
            F = list(e.pc)
            hs = [hasobject(C, r.st, dt), hasobject(C, r.st, mk('call', 'numpy.dtype', (dt,), (), ty='dtype'))]
            ok = any(no_object(F, dt, h) for h in hs)
            R.ok(ok, '%s: no memory is allocated for a dtype with Python objects' % r.name, e.site,
                 'dtype.hasobject is not excluded for %s' % show(dt)[:200], r)
            if ok:
                for h in hs:
                    rejects(C, R, r, h, '%s: the rejection of dtypes with objects is ObjectNumpyArrayRejection' % r.name,
                            need=False)
        rj = [(s, x, e) for s, x, e in r.raises if exc_name(C, x) == REJECT]
        R.ok(bool(rj), '%s: dtypes with Python objects are rejected with ObjectNumpyArrayRejection' % r.name, '',
             'never raised', r)
        for e in r.events:
            if e.kind == 'blosc.unpack_array':
                R.ok(False, '%s: arrays are not restored through Blosc\'s pickles' % r.name, e.site, '', r)


def no_object(F, dt, h):
    """dtype has no objects, for every alternative of the dtype expression"""
    if holds(F, not_(h)):
        return True
    if dt.op == 'phi':
        c = dt.args[0]
        return all(contradictory(F + [k]) or holds(F + [k], not_(norm(F + [k], h))) for k in (c, not_(c)))
    return False


def rejects(C, R, r, ho, desc, need=True):
    n = 0
    for s, x, e in r.raises:
        if not contradictory(list(s.pc) + [ho]) and holds(list(s.pc), ho):
            n += 1
            R.ok(exc_name(C, x) == REJECT, desc, e.site if e is not None else '', 'raises %s' % exc_name(C, x), r)
    if need:
        R.ok(n > 0, desc, '', 'no rejection found', r)


# ------------------------------------------------------------------ C19
def flag_facts(C, r):
    """what isfortran and the flags of an array mean: (case name, order, facts)"""
    st = r.box['pre'].fork()
    A = ARR
    isf = mk('call', 'numpy.isfortran', (A,), (), ty='bool')
    fl = C.I.getattr(A, 'flags', st, Node())
    T = lambda t: C.I.truth(t, st.fork(), Node())
    fc = [T(mk('at', fl, const('F_CONTIGUOUS'))), T(mk('at', fl, const('FORTRAN'))), T(mk('at', fl, const('F')))]
    cc = [T(mk('at', fl, const(k))) for k in ('C_CONTIGUOUS', 'CONTIGUOUS', 'C')]
    cc += [T(C.I.getattr(fl, k, st, Node())) for k in ('c_contiguous', 'contiguous')]
    fc += [T(C.I.getattr(fl, k, st, Node())) for k in ('f_contiguous',)]
    fnc = [T(C.I.getattr(fl, 'fnc', st, Node())), T(mk('at', fl, const('FNC')))]
    no = lambda xs: [not_(x) for x in xs]
    return [('a Fortran array', 'F', [isf] + fnc + fc + no(cc), True),
            ('a C array', 'C', [not_(isf)] + no(fnc) + cc + no(fc), True),
            ('an array contiguous in both orders', 'C', [not_(isf)] + no(fnc) + cc + fc, True),
            ('an array that is not contiguous', 'C', [not_(isf)] + no(fnc) + no(cc) + no(fc), False)]


def is_flag(x):
    return contains(x, ARR)


def buffer_ok(leaf, order, contiguous):
    """whether the array expression is the array itself, or a copy contiguous in the order"""
    if leaf is ARR:
        return contiguous
    if leaf.op == 'call' and leaf.args[0] in COPIES and leaf.args[1] and buffer_root(leaf.args[1][0]):
        n = leaf.args[0]
        kw = dict(leaf.args[2]) if len(leaf.args) > 2 else {}
        o = kw.get('order') or kw.get('requirements')
        if len(leaf.args[1]) > 1 and n == 'numpy.require':
            o = leaf.args[1][2] if len(leaf.args[1]) > 2 else o
        inner = buffer_ok(leaf.args[1][0], order, contiguous)
        if n == 'numpy.ascontiguousarray':
            return order == 'C'
        if n == 'numpy.asfortranarray':
            return order == 'F'
        if o is not None and is_const(o):
            v = str(cval(o)).upper()
            if v[:1] == order:
                return True
            return v in ('A', 'K') and inner
        if o is None:
            return inner and n in ('numpy.asarray', 'numpy.asanyarray', 'numpy.array')
    return False


def buffer_root(x):
    while x.op == 'call' and x.args[0] in COPIES and x.args[1]:
        x = x.args[1][0]
    return x is ARR


def arrays_in(base):
    """array expressions whose data pointer the address is"""
    out = []
    for a in atoms(base):
        if a.op == 'attr' and a.args[1] in ('__array_interface__', 'ctypes') and buffer_root(a.args[0]):
            if a.args[0] not in out:
                out.append(a.args[0])
    return out


def c19(C, R, tier):
    for kind in NDPACKS:
        for meta in (False, True) if tier == 'thorough' else (True,):
            r = R.context(pack_ctx(C, kind, True, meta))
            pack_side(C, R, r, kind)
    for kind in NDUNPACKS:
        unpack_side(C, R, R.context(unpack_ctx(C, kind)))
    foreign(C, R)


def foreign(C, R):
    """metadata that does not describe an array is refused with the documented exception"""
    pairs = lambda kv: [(const(k), const(v)) for k, v in kv]
    for what, make in (('no metadata', lambda I, st: NONE),
                       ('metadata without a container', lambda I, st: I.new_dict(st, pairs([('author', 'x')]))),
                       ('empty metadata', lambda I, st: I.new_dict(st, [])),
                       ('another container', lambda I, st: I.new_dict(st, pairs(
                           [('container', 'h5'), ('dtype', "'<f8'"), ('order', 'C')]))),
                       ('a metadata list', lambda I, st: I.new_list(st, mk('seq', const('a'), const('b'), ty='seq'))),
                       ('a metadata text', lambda I, st: const('numpy')),
                       ('a metadata number', lambda I, st: const(7))):
        def body(I, st, N):
            # (the interface of a source, C33)
            src = C.inst(st, 'file_io', 'CompressedFPSource',
                         {'metadata': make(I, st), 'nchunks': S('NCHUNKS', 'int'), 'input_fp': mk('param', 'FP')},
                         caller='source')
            return I.call(C.get('numpy_io', 'unpack_ndarray'), [src], [], st, N)
        r = R.context(C.run('unpack_ndarray:%s' % what, body))
        if r.unmodelled:
            continue
        other = [(x, e) for s, x, e in r.raises if not is_exc(C, x, 'NotANumpyArray')]
        R.ok(r.st is None and bool(r.raises) and not other, 'files with %s are refused with NotANumpyArray' % what,
             other[0][1].site if other and other[0][1] is not None else 'numpy_io.py',
             'ends in %s' % (exc_name(C, other[0][0]) if other else 'an array'), r)


def read_keys(F, t, md):
    """md.get(k) is md[k] where it is known not to be the default"""
    m = {x: at(md, x.args[1][1]) for x in atoms(t)
         if x.op == 'call' and x.args[0] == 'map.get' and x.args[1][0] is md and len(x.args[1]) in (2, 3) and
         (len(x.args[1]) == 2 or x.args[1][2] is NONE)}
    return subst(t, m) if m else t


def pack_side(C, R, r, kind):
    comp = [e for e in r.events if e.kind in COMPRESS]
    if not R.ok(bool(comp), '%s: compresses the array' % r.name, '', 'no compression found', r):
        return
    isz, size = attr_of(C, r, ARR, 'itemsize'), attr_of(C, r, ARR, 'size')
    dumps = [e for e in r.events if e.kind == 'json.dumps']
    n, cs, last = r.plan
    whole = (n, cs, last)
    for e in comp:
        if not R.ok(e.kind == 'blosc.compress_ptr', '%s: chunks are compressed from the array buffer' % r.name, e.site, '',
                    r):
            continue
        cn = e.x['canon']
        F = list(e.pc)
        R.ok(cn.get('typesize') is not None and same(F, cn['typesize'], isz), '%s: the typesize is the item size' % r.name,
             e.site, show(cn.get('typesize')) if cn.get('typesize') is not None else 'none given', r)
        fits = eq0(fmod(cs, isz))
        single = eq(n, ONE)
        # a single chunk is the array itself
        R.ok(holds(F, fits) or holds(F + [not_(single)], fits) and same(F + [single], cs, last),
             '%s: chunk sizes that are no multiple of the item size are refused before compressing' % r.name, e.site,
             '', r)
        addr = cn.get('address')
        for what, order, facts, contig in flag_facts(C, r):
            G = F + facts
            b = norm(G, addr)
            arrs = arrays_in(b)
            R.ok(len(arrs) == 1 and buffer_ok(arrs[0], order, contig), '%s: the memory compressed for %s is its own or that '
                 'of a contiguous copy in the same order' % (r.name, what), e.site, str([show(x) for x in arrs]), r)
        # first chunk starts at the first byte
        first = addr
        for l in e.loops:
            first = subst(first, {l.idx: ZERO})
        for what, order, facts, contig in flag_facts(C, r):
            G = F + facts
            if not e.loops:
                continue
            b = norm(G, first)
            R.ok(is_data_pointer(b), '%s: %s is compressed from its first byte on' % (r.name, what), e.site, show(b)[:300], r)
    # the plan covers all bytes
    Ft = list(r.st.pc) if r.st is not None else []
    R.ok(same(Ft, add(mul(cs, sub(n, ONE)), last), mul(size, isz)), '%s: the planned chunks cover size * itemsize bytes'
         % r.name, '', '', r)
    # metadata
    if not R.ok(len(dumps) >= 1, '%s: the array\'s metadata is written' % r.name, '', 'no serialisation found', r):
        return
    for e in dumps:
        F = list(e.pc)
        d = e.args[0]
        c = dict_content(r, e, d)
        if not R.ok(c is not None and c.op == 'dict', '%s: the metadata is a known dictionary' % r.name, e.site, show(d), r):
            continue
        m = dict((cval(k) if is_const(k) else show(k), v) for k, v in c.args)
        for k in ('dtype', 'shape', 'order', 'container'):
            R.ok(k in m, '%s: the metadata has the entry %s' % (r.name, k), e.site, str(sorted(m)), r)
        R.ok(m.get('container') is not None and same(F, m['container'], const('numpy')), '%s: the container is "numpy"' %
             r.name, e.site, show(m.get('container')) if 'container' in m else '', r)
        if 'order' in m:
            for what, order, facts, contig in flag_facts(C, r):
                G = F + facts
                R.ok(same(G, norm(G, m['order']), const(order)), '%s: the order recorded for %s is %s' % (r.name, what, order),
                     e.site, show(norm(G, m['order'])), r)
        if 'shape' in m:
            v = m['shape']
            while v.op in ('aslist', 'astuple') or (v.op == 'call' and v.args[0] in ('builtins.tuple', 'builtins.list')):
                v = v.args[0] if v.op != 'call' else v.args[1][0]
            R.ok(v is attr_of(C, r, ARR, 'shape'), '%s: the shape recorded is that of the array' % r.name, e.site, show(v), r)
        if 'dtype' in m:
            dt = attr_of(C, r, ARR, 'dtype')
            st = r.box['pre']
            names = C.I.getattr(dt, 'names', st.fork(), Node())
            ns = [names, C.I.getattr(dt, 'fields', st.fork(), Node())]
            isn = [mk('isnone', x, ty='bool') for x in ns]
            for what, facts, want in (('plain', isn, 'str'), ('structured', [not_(x) for x in isn], 'descr')):
                G = F + facts
                v = norm(G, m['dtype'])
                w = C.I.getattr(dt, want, st.fork(), Node())
                R.ok(is_repr(v, w), '%s: the dtype recorded for %s arrays is the text of dtype.%s' % (r.name, what, want),
                     e.site, show(v)[:300], r)


def is_repr(v, w):
    if v.op == 'call' and v.args[0] in ('builtins.repr', 'builtins.str', 'builtins.ascii') and v.args[1] and \
            v.args[1][0] is w:
        return v.args[0] == 'builtins.repr' or w.args[-1] == 'descr'
    if v.op == 'fmt' and len(v.args) == 2 and is_const(v.args[0]) and v.args[1] is w:
        f = cval(v.args[0])
        return f == '%r' or f == '{!r}' or (f in ('%s', '{}') and w.args[-1] == 'descr')
    return False


def dict_content(r, e, d):
    if d.op == 'dict':
        return d
    if d.op == 'obj':
        return r.st.d.get(('c', d.args[0])) if r.st is not None else None
    return None


def is_data_pointer(b):
    return b.op == 'at' and b.args[1] is ZERO and b.args[0].op == 'at' and b.args[0].args[1] is const('data') and \
        b.args[0].args[0].op == 'attr' and b.args[0].args[0].args[1] == '__array_interface__' \
        or b.op == 'attr' and b.args[1] == 'data' and b.args[0].op == 'attr' and b.args[0].args[1] == 'ctypes'


def unpack_side(C, R, r):
    site = ''
    if not R.ok(r.st is not None and r.ret is not None, '%s: returns an array' % r.name, '', '', r):
        return
    arr = r.ret
    ev = [e for e in r.events if e.kind == 'numpy.empty' and e.res is arr]
    if not R.ok(bool(ev), '%s: the array returned was allocated for the file' % r.name, '', show(arr)[:200], r):
        return
    e = ev[0]
    F = list(e.pc)
    ms = [x for x in r.events if x.kind == 'json.loads']
    md = ms[0].res if ms else None
    if not R.ok(md is not None, '%s: the metadata of the file is used' % r.name, e.site, '', r):
        return
    F = [read_keys(F, x, md) for x in F]
    cn = {k: read_keys(F, x, md) for k, x in e.x['canon'].items()}
    R.ok(holds(F, mk('eq', const('numpy'), at(md, const('container')))) or holds(F, eq(at(md, const('container')),
                                                                                     const('numpy'))),
         '%s: only files with the container "numpy" are unpacked as arrays' % r.name, e.site,
         str([show(c)[:80] for c in F[-3:]]), r)
    for k in ('shape', 'order'):
        v = cn.get(k)
        want = norm(F, at(md, const(k)))
        v = norm(F, v) if v is not None else None
        if v is not None and v.op in ('astuple', 'aslist'):
            v = v.args[0]
        R.ok(v is not None and (v is want or same(F, v, want)), '%s: the array has the recorded %s' % (r.name, k), e.site,
             show(v)[-300:] if v is not None else 'not given', r)
    dt = cn.get('dtype')
    txt = norm(F, at(md, const('dtype')))
    good = dt is not None
    for leaf in leaves(norm(F, dt)) if good else ():
        inner = leaf
        while inner.op == 'call' and inner.args[0] == 'numpy.dtype' and len(inner.args[1]) == 1:
            inner = inner.args[1][0]
        for q in leaves(inner):
            good = good and contains(q, txt) or dt_free(q)
    lit = [x for x in atoms(norm(F, dt)) if x.op == 'call' and x.args[0] == 'ast.literal_eval' and x.args[1][0] is txt] \
        if dt is not None else []
    R.ok(bool(good and lit), '%s: the array has the recorded dtype' % r.name, e.site, show(dt)[-300:] if dt is not None else '',
         r)
    # the literal is the dtype whenever it can be read
    rs = [x for x in atoms(dt) if x.op == 'sym' and str(x.args[0]).startswith('raises:')] if dt is not None else []
    G = F + [not_(x) for x in rs]
    v = norm(G, dt) if dt is not None else None
    while v is not None and v.op == 'call' and v.args[0] == 'numpy.dtype' and len(v.args[1]) == 1:
        v = v.args[1][0]
    R.ok(v is not None and v.op == 'call' and v.args[0] == 'ast.literal_eval' and v.args[1][0] is txt,
         '%s: a dtype that is a literal is used as it was recorded' % r.name, e.site, show(v)[-300:] if v is not None else '',
         r)
    R.ok(not [x for x in r.events if x.kind in ('setattr', 'nd.method') and x.args and x.args[0] is arr],
         '%s: the array is returned as allocated' % r.name, '', '', r)


def leaves(t):
    if t.op == 'phi':
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def dt_free(q):
    # lists rebuilt by the conversion of old descriptions
    return q.op == 'obj' or q.op.startswith('rec')


# ------------------------------------------------------------------ C20
def c20(C, R, tier):
    for kind in NDUNPACKS:
        r = R.context(unpack_ctx(C, kind))
        dec = r.dec
        if not R.ok(bool(dec), '%s: decompresses chunks' % r.name, '', 'none found', r):
            continue
        arr = r.ret
        if not R.ok(arr is not None and arr.op == 'newarr', '%s: returns the array it allocated' % r.name, '',
                    show(arr)[:200] if arr is not None else '', r):
            continue
        st = r.st.fork()
        nbytes = C.I.getattr(arr, 'nbytes', st, Node())
        for e in dec:
            if not R.ok(e.kind == 'blosc.decompress_ptr' and e.loops, '%s: chunks are decompressed into the array' % r.name,
                        e.site, e.kind, r):
                continue
            l = e.loops[-1]
            A = e.x['canon'].get('address')
            data = e.x['canon'].get('bytesobj') or e.x['canon'].get('bytes_like') or e.args[0]
            announced = unpk('<I', slice_(data, const(4), const(8)))
            rl = []
            for x in e.loops:
                rl += relations(x)
            F = list(e.pc) + rl
            a0, a1 = carried(l, A)
            base = a0
            R.ok(is_data_pointer(base) and base.args[0].args[0].args[0] is arr, '%s: the first chunk goes to the first byte '
                 'of the array' % r.name, e.site, show(a0)[:200], r)
            end = add(base, nbytes)
            # the address and what is left change together
            R.ok(holds(F, ge0(sub(end, add(A, announced)))), '%s: a chunk is decompressed only if the size it announces fits '
                 'into the rest of the array' % r.name, e.site,
                 'not established: address + announced size <= start + size of the array', r)
            R.ok(holds(F, ge0(sub(A, base))) or grows(l, A, e), '%s: the address never lies before the array' % r.name,
                 e.site, show(A)[:200], r)
            Fe = list(r.st.pc) + [subst(x, last_values(l)) for x in rl]
            fin = subst(A, last_values(l))
            if fin is A:
                fin = None
            R.ok(fin is not None and holds(Fe, eq0(sub(fin, end))), '%s: an array is returned only if the chunks filled it' % r.name,
                 '', 'not established: final address == start + size of the array', r)


def grows(l, A, e):
    a0, a1 = carried(l, A)
    d = sub(a1, A)
    return d is e.res or holds(list(l.end_pc or ()) + [ge0(e.res)], ge0(d))


def last_values(l):
    """carried values at the exit of the loop"""
    m = {}
    for sl, h in l.heads.items():
        if h.op == 'lv':
            m[h] = mk('lv', h.args[0], h.args[1], l.trip, ty=h.ty)
    m[l.idx] = l.trip
    return m
