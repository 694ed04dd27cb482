"""Rules over the convenience functions: what becomes of their arguments."""
import re

from ..contexts import *   # noqa
from ..spec import *   # noqa
from .cli import pcs, behaviour
from .pack import decompose, header_fields, COMPRESS
from .headers import CODEC_IDS, pad

N0 = Node()
WRAPPERS = {
    'pack_file_to_file': ('file_io', (INF, OUTF), True), 'pack_bytes_to_file': ('file_io', (BYTES, OUTF), True),
    'pack_bytes_to_bytes': ('file_io', (BYTES,), True), 'pack_ndarray_to_file': ('numpy_io', (ARR, OUTF), False),
    'pack_ndarray_to_bytes': ('numpy_io', (ARR,), False),
}
UNPACKERS = {'unpack_file_from_file': ('file_io', (INF, OUTF)), 'unpack_bytes_from_file': ('file_io', (INF,)),
             'unpack_bytes_from_bytes': ('file_io', (BYTES,)), 'unpack_ndarray_from_file': ('numpy_io', (INF,)),
             'unpack_ndarray_from_bytes': ('numpy_io', (BYTES,))}
# deprecated name -> the name that replaces it
REPLACED = {'pack_file': 'pack_file_to_file', 'unpack_file': 'unpack_file_from_file',
            'pack_bytes_file': 'pack_bytes_to_file', 'unpack_bytes_file': 'unpack_bytes_from_file',
            'pack_ndarray_file': 'pack_ndarray_to_file', 'unpack_ndarray_file': 'unpack_ndarray_from_file',
            'pack_ndarray_str': 'pack_ndarray_to_bytes', 'unpack_ndarray_str': 'unpack_ndarray_from_bytes'}
DEFAULTS = {'chunk_size': lambda C, I, st: C.get('defaults', 'DEFAULT_CHUNK_SIZE'),
            'blosc_args': lambda C, I, st: I.call(C.get('args', 'BloscArgs'), [], [], st, N0),
            'bloscpack_args': lambda C, I, st: I.call(C.get('args', 'BloscpackArgs'), [], [], st, N0),
            'metadata_args': lambda C, I, st: I.call(C.get('args', 'MetadataArgs'), [], [], st, N0)}


def peek(C, o, k, st):
    try:
        return C.I.getattr(o, k, st.fork(), N0)
    except Dead:
        return S('missing attribute')


def forwarded(C, R, kind, off, meta):
    r = R.context(pack_ctx(C, kind, off, meta))
    s = None
    if kind != 'mem':
        s = decompose(C, R, r)
        if s is None:
            return
    elif r.st is None:
        R.ok(False, '%s: completes' % r.name, '', '', r)
        return
    comp = [e for e in r.events if e.kind in COMPRESS]
    nd = kind.startswith('nd')
    want = dict(BA)
    if nd:
        want['typesize'] = C.I.getattr(C.I.getattr(ARR, 'dtype', r.st, N0), 'itemsize', r.st, N0)
    for i, k in enumerate(('typesize', 'clevel', 'shuffle', 'cname')):
        bad = []
        for e in comp:
            v = e.kw.get(k)
            if v is None:
                p = i + (1 if e.kind == 'blosc.compress' else 2)    # after the data, or the address and the items
                v = e.args[p] if len(e.args) > p else None
            w = [want[k]]
            if nd and k == 'typesize':
                w.append(C.I.getattr(ARR, 'itemsize', r.st, N0))
            if v is None or not any(same(list(e.pc), norm(list(e.pc), v), x) for x in w):
                bad.append((e, v))
        R.ok(comp and not bad, '%s: %s reaches the compression of every chunk' % (r.name, k), site_of([e for e, _ in bad]),
             '; '.join(show(v)[:100] if v is not None else 'not given' for _, v in bad[:2]), r)
    n, cs, last = r.plan
    if s is None:
        snk = r.box['sink']
        F = list(r.st.pc)
        h = peek(C, snk, 'bloscpack_header', r.st)
        for k, w in (('checksum', CKS), ('typesize', BA['typesize']), ('offsets', const(off)), ('chunk_size', cs),
                     ('last_chunk', last), ('nchunks', n)):
            v = peek(C, h, k, r.st)
            R.ok(same(F, norm(F, v), w), '%s: %s reaches the header' % (r.name, k), '', show(v)[:120], r)
        if not meta:
            return
        m = peek(C, snk, 'metadata', r.st)
        R.ok(m is META, '%s: the metadata reaches the sink' % r.name, '', show(m)[:100], r)
        ma = peek(C, snk, 'metadata_args', r.st)
        bad = [k for k in MA if not same(F, norm(F, peek(C, ma, k, r.st)), MA[k])]
        R.ok(not bad, '%s: the metadata arguments reach the sink' % r.name, '', ', '.join(bad), r)
        return
    F, d = list(s.F), s.pre.data
    site = site_of(s.pre.events[:1])
    fld = lambda a, b: slice_(d, const(a), const(b))
    tsz = pk('<B', want['typesize'])
    tsz2 = pk('<B', C.I.getattr(ARR, 'itemsize', r.st, N0)) if nd else tsz
    R.ok(same(F, simp(F, fld(7, 8)), tsz) or same(F, simp(F, fld(7, 8)), tsz2), '%s: typesize reaches the header' % r.name,
         site, show(fld(7, 8))[:100], r)
    if 'size' in r.box:
        G = F + [ge0(sub(CSIZE, ONE)), ge0(sub(r.box['size'], add(CSIZE, ONE)))]
        R.ok(not contradictory(G) and same(G, simp(G, fld(8, 12)), pk('<i', CSIZE)), '%s: chunk_size reaches the header' % r.name,
             site, show(simp(G, fld(8, 12)))[:120], r)
    for i, (nm, _) in enumerate(CHECKSUM_SIZES):
        G = F + [eq(CKS, const(nm))]
        R.ok(same(G, simp(G, fld(6, 7)), const(bytes([i]))), '%s: checksum %s reaches the header' % (r.name, nm), site,
             show(simp(G, fld(6, 7)))[:100], r)
    R.ok(same(F, simp(F, fld(5, 6)), const(bytes([(2 if meta or nd else 0) + (1 if off else 0)]))), '%s: offsets=%s reaches the header' % (r.name, off),
         site, show(simp(F, fld(5, 6)))[:100], r)
    for v in (0, 7):
        G = F + [eq(MAXAPP, const(v)), ge0(sub(const(1000), n)), ge0(sub(n, ONE))]
        w = pk('<q', const(v if off else 0))
        R.ok(not contradictory(G) and same(G, simp(G, fld(24, 32)), w), '%s: max_app_chunks=%d reaches the header' % (r.name, v),
             site, show(simp(G, fld(24, 32)))[:160], r)
    # the metadata section
    if not meta:
        return
    ser = [e for e in r.events if e.kind == 'json.dumps']
    R.ok(ser and (nd or all(e.args[0] is META for e in ser)), '%s: the metadata is serialised' % r.name, site_of(ser),
         '; '.join(show(e.args[0])[:100] for e in ser), r)
    G = F + [eq(MA['magic_format'], const(b'JSON'))]
    R.ok(same(G, simp(G, fld(32, 40)), const(b'JSON\0\0\0\0')), '%s: magic_format reaches the metadata header' % r.name, site,
         show(simp(G, fld(32, 40)))[:100], r)
    for i, (nm, _) in enumerate(CHECKSUM_SIZES):
        H = G + [eq(MA['meta_checksum'], const(nm))]
        R.ok(same(H, simp(H, fld(41, 42)), const(bytes([i]))), '%s: meta_checksum %s reaches the metadata header' %
             (r.name, nm), site, show(simp(H, fld(41, 42)))[:100], r)
    H = G + [eq(MA['meta_codec'], const('None'))]
    R.ok(same(H, simp(H, fld(42, 43)), const(b'\0')), '%s: meta_codec None reaches the metadata header' % r.name, site,
         show(simp(H, fld(42, 43)))[:100], r)
    zs = [e for e in r.events if e.kind == 'zlib.compress' or (e.kind == 'call' and 'zlib.compress' in str(e.args[:1]))]
    lv = [e for e in zs if len(e.args) > 1]
    R.ok(all(same(list(e.pc), e.args[1], MA['meta_level']) for e in lv), '%s: meta_level reaches the codec' % r.name,
         site_of(lv), '; '.join(show(e.args[1])[:80] for e in lv), r)
    R.ok(same(G, simp(G, fld(48, 52)), pk('<I', MA['max_meta_size'])), '%s: max_meta_size reaches the metadata header' % r.name,
         site, show(simp(G, fld(48, 52)))[:100], r)


def run_with(C, name, mod, fn, args, kw):
    def body(I, st, N):
        ks = [(k, v(C, I, st) if callable(v) else v) for k, v in kw]
        return I.call(C.get(mod, fn), list(args), ks, st, N)
    return C.run(name, body)


def outcome(C, r):
    return (r.st is not None, tuple(sorted((C.I.exc_mro(C.I.exc_class(x))[0], e.site) for _, x, e in r.raises)))


def compare(C, R, what, a, b):
    x, y = behaviour(a), behaviour(b)
    site = ''
    for i in range(max(len(x), len(y))):
        if i >= len(x) or i >= len(y) or x[i][0] != y[i][0]:
            site = (x[i] if i < len(x) else y[i])[1]
            break
    R.ok(not site, '%s: the same is done' % what, site, '%d and %d operations' % (len(x), len(y)), a)
    R.ok(outcome(C, a) == outcome(C, b), '%s: it ends in the same way' % what, '', '%s vs %s' % (outcome(C, a), outcome(C, b)), a)


def omitted(C, R):
    for fn, (mod, args, has_meta) in WRAPPERS.items():
        given = [('metadata', META)] if has_meta else []
        base = R.context(run_with(C, '%s without arguments' % fn, mod, fn, args, given))
        for k, d in list(DEFAULTS.items()) + [('all', None)]:
            kw = [(k, d)] if k != 'all' else list(DEFAULTS.items())
            r = R.context(run_with(C, '%s with default %s' % (fn, k), mod, fn, args, given + kw))
            compare(C, R, '%s: leaving out %s and passing the default' % (fn, k), base, r)
        if has_meta:
            a = R.context(run_with(C, '%s without metadata' % fn, mod, fn, args, []))
            b = R.context(run_with(C, '%s with metadata None' % fn, mod, fn, args, [('metadata', NONE)]))
            compare(C, R, '%s: leaving out metadata and passing None' % fn, a, b)


def aliases(C, R):
    I = C.I
    known = set()
    for k, v in I.base.d.items():
        if k[0] == 'v' and str(k[1]).startswith('m:') and v.op in ('func', 'depr', 'class'):
            known.add(k[2])
    every = dict((fn, (m, a)) for fn, (m, a, _) in WRAPPERS.items())
    every.update(UNPACKERS)
    for old, new in sorted(REPLACED.items()):
        mod, args = every[new]
        r = R.context(C.run('alias %s' % old, lambda I, st, N: NONE))
        for m in (mod, '__init__'):
            for n in (old, new):
                v = I.base.d.get(('v', 'm:' + m, n))
                R.ok(v is not None, '%s is available in %s' % (n, 'the package' if m == '__init__' else m), '', '', r)
            v = I.base.d.get(('v', 'm:' + m, old))
            if v is not None and v.op == 'depr':
                text = cval(v.args[1]) if v.args[1].op == 'const' else ''
                names = [w for w in re.findall(r'[A-Za-z]\w*', str(text)) if '_' in w]
                R.ok(not names or all(w in known for w in names), '%s.%s: its notice names existing functions' % (m, old), '',
                     str(text), r)
                R.ok(not names or new in names, '%s.%s: its notice names the replacement' % (m, old), '', str(text), r)
        if I.base.d.get(('v', 'm:' + mod, old)) is None or I.base.d.get(('v', 'm:' + mod, new)) is None:
            continue
        kw = []
        if new in WRAPPERS:
            kw = [('chunk_size', CSIZE)]
            for cls, nm, vals in (('BloscArgs', 'blosc_args', BA),
                                  ('BloscpackArgs', 'bloscpack_args', {'offsets': const(True), 'checksum': CKS,
                                                                       'max_app_chunks': MAXAPP}),
                                  ('MetadataArgs', 'metadata_args', MA)):
                kw.append((nm, lambda C, I, st, cls=cls, vals=vals: C.inst_call(st, 'args', cls, vals)))
            if WRAPPERS[new][2]:
                kw.append(('metadata', META))
        for m in (mod, '__init__'):
            a = R.context(run_with(C, '%s.%s' % (m, old), m, old, args, kw))
            b = R.context(run_with(C, '%s.%s' % (m, new), m, new, args, kw))
            compare(C, R, '%s.%s and %s' % (m, old, new), a, b)
            if a.st is not None and b.st is not None:
                R.ok((a.ret is NONE) == (b.ret is NONE), '%s.%s: returns what %s returns' % (m, old, new), '',
                     '%s vs %s' % (show(a.ret)[:60], show(b.ret)[:60]), a)


def c27(C, R, tier):
    for kind in PACKS:
        for off, meta in ((True, True), (False, True), (True, False), (False, False)):
            forwarded(C, R, kind, off, meta)
    omitted(C, R)
    aliases(C, R)
