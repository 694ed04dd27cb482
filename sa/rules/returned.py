"""What is stored as metadata is what comes back."""
from ..contexts import *   # noqa
from ..spec import *   # noqa
from .pack import decompose
from .unpack import check_meta_result
from .meta import write_sections, usable, cases, magic_facts, check_reader
from .forwards import peek
from .interfaces import make, labels

N0 = Node()
# options of the JSON functions that leave the value as it is
KEEPS = {'json.dumps': ('separators', 'sort_keys', 'indent', 'ensure_ascii', 'allow_nan', 'check_circular', 'default'),
         'json.loads': ('strict', 'encoding')}
LOSES = {'json.dumps': ('skipkeys',),
         'json.loads': ('parse_float', 'parse_int', 'parse_constant', 'object_hook', 'object_pairs_hook')}


def leaves(t):
    return leaves(t.args[1]) + leaves(t.args[2]) if t.op == 'phi' else [t]


def content(r, x):
    v = r.st.d.get(('c', x.args[0])) if x.op == 'obj' and r.st is not None else None
    k = mk('anykey', META)
    # a copy of it
    return META if v is META or v is mk('dict', (k, mk('at', META, k)), ty='dictc') else x


def is_given(R, F, got, what, site, r):
    """got is the metadata of the caller, whatever its value"""
    if same(F, norm(F, got), META):
        R.ok(True, what, site, '', r)
    elif all(contains(content(r, x), META) for x in leaves(got)):
        R.undecided.append((what, site, show(got)[:120]))
    else:
        R.ok(False, what, site, show(got)[:120], r)


def options(R, r, kind):
    for e in r.of(kind):
        for k, v in sorted((e.kw or {}).items()):
            what = '%s: the option %s of %s keeps the value' % (r.name, k, kind)
            if k in KEEPS[kind]:
                R.ok(True, what, e.site, '', r)
            elif is_const(v) and not cval(v):
                R.ok(True, what, e.site, '', r)
            elif k in LOSES[kind] and is_const(v):
                R.ok(False, what, e.site, show(v)[:80], r)
            elif k in LOSES[kind] and not (v.op == 'ext' and 'OrderedDict' in str(v.args[0])):
                R.ok(False, what, e.site, show(v)[:80], r)
            else:
                R.undecided.append((what, e.site, show(v)[:80]))


def c36(C, R, tier):
    # what is stored
    for kind in ('file', 'bytes_file', 'bytes', 'mem'):
        for meta in (True, False):
            for off in (True, False) if kind == 'bytes' else (True,):
                stored_by(C, R, kind, off, meta)
    for q in write_sections(C, R, tier):
        if q.kind != 'pack' or not usable(R, q):
            continue
        for nm, F1, stored, cid, level in cases(q):
            F = q.F + F1 + magic_facts(q)
            D = norm(F, q.data)
            got = cut(F, D, const(64), add(const(64), length(stored))) or NONE
            R.ok(same(F, got, stored), '%s: %s: the stored bytes' % (q.r.name, nm), q.site,
                 '%s vs %s' % (show(got), show(stored)), q.r)
    # what is returned
    for kind in ('file', 'bytes_file', 'bytes'):
        r = R.context(unpack_ctx(C, kind))
        if not R.ok(r.st is not None and r.src is not None, '%s: completes' % r.name, '', labels(C, r), r):
            continue
        spec = FileSpec(r.src)
        check_meta_result(C, R, r, kind, spec)
        options(R, r, 'json.loads')
        le = r.of('json.loads')
        if R.ok(bool(le), '%s: metadata is deserialised' % r.name, '', '', r):
            check_reader(C, R, r, spec, le)
    # in memory
    for meta in (True, False):
        for off in (True, False):
            box = {}

            def body(I, st, N):
                src, snk = make(C, I, st, 'memory_io.PlainMemorySource'), make(C, I, st, 'memory_io.CompressedMemorySink')
                kw = [x for x in pack_args(C, st, off, False, 'inst') if x[0] != 'chunk_size']
                I.call(C.get('abstract_io', 'pack'), [src, snk, S('nchunks', 'int'), CSIZE, S('last_chunk', 'int')],
                       kw + ([('metadata', META)] if meta else []), st, N)
                s = I.call(C.get('memory_io', 'CompressedMemorySource'), [snk], [], st, N)
                return I.getattr(s, 'metadata', st, N)
            r = R.context(C.run('memory source%s%s' % (':metadata' if meta else '', ':offsets' if off else ''), body))
            if not R.ok(r.st is not None, '%s: completes' % r.name, 'memory_io.py', labels(C, r), r):
                continue
            F = list(r.st.pc)
            if meta:
                is_given(R, F, r.ret, '%s: has the metadata that was packed' % r.name, 'memory_io.py', r)
            else:
                R.ok(same(F, norm(F, r.ret), NONE), '%s: has no metadata' % r.name, 'memory_io.py', show(r.ret)[:100], r)


def stored_by(C, R, kind, off, meta):
    r = R.context(pack_ctx(C, kind, off, meta))
    if kind == 'mem':
        if not R.ok(r.st is not None, '%s: completes' % r.name, '', labels(C, r), r):
            return
        F = list(r.st.pc)
        h = peek(C, r.box['sink'], 'bloscpack_header', r.st)
        v = peek(C, h, 'metadata', r.st)
        R.ok(same(F, norm(F, v), const(meta)), '%s: the header tells whether there is metadata' % r.name, '', show(v)[:100], r)
        return
    s = decompose(C, R, r)
    if s is None:
        return
    F, d = list(s.F), s.pre.data
    site = site_of(s.pre.events[:1])
    got = simp(F, slice_(d, const(5), const(6)))
    R.ok(same(F, got, const(bytes([(2 if meta else 0) + (1 if off else 0)]))),
         '%s: the header tells whether there is metadata' % r.name, site, show(got)[:100], r)
    ds = r.of('json.dumps')
    if not meta:
        return
    if R.ok(bool(ds), '%s: the metadata is serialised' % r.name, site, '', r):
        for e in ds:
            is_given(R, list(e.pc), e.args[0], '%s: the metadata given is serialised' % r.name, e.site, r)
    options(R, r, 'json.dumps')
