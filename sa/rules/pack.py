"""Rules over the packing pipeline."""
from ..contexts import *   # noqa
from ..spec import *   # noqa

CONSTS = {'MAXBUF': 2147483631, 'MAX_TYPESIZE': 255}
HEADER_LEN = 32


def maxchunks():
    return const(2 ** 63 - 1)


# ---------------------------------------------------------------- C01 chunk plan
def c01(C, R, tier):
    size, cs = S('size', 'int'), S('chunk_size', 'int')
    MAXB = const(C_maxbuf(C))
    r = R.context(C.call('calculate_nchunks', 'args', 'calculate_nchunks', [size, cs]))
    where = 'args.py (calculate_nchunks)'
    if r.st is None:
        R.ok(False, 'the chunk plan of some input is computed', where, 'no normal completion', r)
        return
    res = r.ret
    n, c, l = at(res, ZERO), at(res, ONE), at(res, const(2))
    pc = list(r.st.pc)
    R.ok(length(res) is const(3), 'the plan is (number of chunks, chunk size, last chunk size)', where, show(res), r)
    z = [eq0(size)]
    for t, v, what in ((n, ONE, 'one chunk'), (c, ZERO, 'chunk size 0'), (l, ZERO, 'last chunk size 0')):
        R.ok(same(pc + z, t, v), 'empty input: %s' % what, where, show(simp(tuple(pc + z), t)), r)
    nz = pc + [ge0(sub(size, ONE))]
    valid = [ge0(sub(cs, ONE)), le(cs, MAXB)]
    R.ok(holds(nz, ge0(sub(cs, ONE))) and holds(nz, le(cs, MAXB)),
         'a chunk size outside 1..%d is rejected' % cval(MAXB), where, 'accepted: %s' % [show(x) for x in pc], r)
    R.ok(holds(pc, ge0(size)), 'a negative input size is rejected', where, '', r)
    R.ok(same(nz, c, phi(lt(size, cs), size, cs)), 'chunk size is the smaller of request and input', where,
         show(c), r)
    tot = add(mul(sub(n, ONE), c), l)
    R.ok(same(nz, tot, size), '(chunks - 1) * chunk size + last chunk size = input size', where,
         '%s  vs  %s' % (show(tot), show(size)), r)
    for g, d in ((ge0(sub(n, ONE)), 'at least one chunk'), (ge0(sub(l, ONE)), 'last chunk is not empty'),
                 (ge0(sub(c, l)), 'last chunk is no larger than the chunk size'),
                 (le(n, maxchunks()), 'chunk count fits the header field')):
        R.ok(holds(nz, g), d, where, show(g), r)
    # no spurious rejection
    for s, x, e in r.raises:
        bad = list(s.pc) + [ge0(size)] + valid + [le(size, const(2 ** 62))]
        R.ok(contradictory(bad), 'valid sizes are not rejected', e.site if e else where,
             'raises %s for size=%s chunk_size=%s' % (show(x), size, cs), r)
    # a human readable chunk size goes through the same plan
    t = S('text_chunk_size', 'str')
    r2 = R.context(C.call('calculate_nchunks:str', 'args', 'calculate_nchunks', [size, t]))
    if r2.st is None:
        R.ok(False, 'human readable chunk sizes are accepted', where, 'no normal completion', r2)
    else:
        n2, c2, l2 = [at(r2.ret, const(k)) for k in range(3)]
        nz2 = list(r2.st.pc) + [ge0(sub(size, ONE))]
        R.ok(same(nz2, add(mul(sub(n2, ONE), c2), l2), size), 'human readable chunk size: plan partitions the input',
             where, '%s' % show(add(mul(sub(n2, ONE), c2), l2)), r2)
        R.ok(holds(nz2, ge0(sub(n2, ONE))) and holds(nz2, ge0(sub(l2, ONE))) and holds(nz2, ge0(sub(c2, l2))),
             'human readable chunk size: chunk bounds', where, '', r2)
    # every packing entry point hands the plan of its own input on to the writer
    for kind in PACKS:
        if kind == 'mem':
            continue
        r = R.context(pack_ctx(C, kind, True, False))
        check_plan_recorded(C, R, r)


def C_maxbuf(C):
    v = C.I.ext.resolve('blosc.BLOSC_MAX_BUFFERSIZE')
    return cval(v) if v is not None and is_const(v) else CONSTS['MAXBUF']


def check_plan_recorded(C, R, r):
    """the header written by a packing context records the plan of its input"""
    if r.st is None or r.plan is None:
        R.ok(False, '%s completes' % r.name, '', 'no normal completion', r)
        return
    h = header_fields(r)
    if h is None:
        R.ok(False, '%s writes a header' % r.name, '', 'no header write found', r)
        return
    n, cs, last = r.plan
    F = list(r.st.pc)
    for nm, off, fmt, want in (('chunk size', 8, '<i', cs), ('last chunk size', 12, '<i', last),
                               ('number of chunks', 16, '<q', n)):
        w = 4 if fmt == '<i' else 8
        got = slice_(h['data'], const(off), const(off + w))
        R.ok(same(F, got, pk(fmt, want)), '%s: header records the planned %s' % (r.name, nm), h['site'],
             '%s vs %s' % (show(got), show(pk(fmt, want))), r)


def header_fields(r):
    for out in r.outs:
        ws = [e for e in writes_to(r, out) if not e.loops]
        for e in ws:
            if e.x['pos'] is ZERO:
                lay = run_bytes([x for x in tree(writes_to(r, out)) if not isinstance(x, Loopy)][:1],
                                r.st.pc, ZERO)
                return {'data': lay.data, 'site': e.site, 'out': out, 'ev': e}
    return None


# ------------------------------------------------------- stream decomposition
class Stream(object):
    pass


def decompose(C, R, r):
    """split a packing context into prefix, chunk units and what follows"""
    if r.st is None or not r.plan:
        R.ok(False, '%s completes' % r.name, '', 'no normal completion', r)
        return None
    s = Stream()
    s.r, s.F = r, list(r.st.pc)
    s.comp = [e for e in r.events if e.kind in COMPRESS]
    s.us, s.total, s.problems = units(r, s.comp)
    if not s.us:
        R.ok(False, '%s compresses the input' % r.name, '', 'no compression call reached', r)
        return None
    outs = [o for o in r.outs if any(contains(e.args[1], u.ev.res) for e in writes_to(r, o) for u in s.us)]
    if len(outs) != 1:
        R.ok(False, '%s writes the compressed chunks to one output' % r.name, site_of(s.comp), str(r.outs), r)
        return None
    s.out = out = outs[0]
    s.evs = [e for e in r.events if e.kind == 'write' and e.args[0] is out]
    s.moves = [e for e in r.events if e.kind in ('seek', 'truncate') and e.args[0] is out]
    s.first = min(e.seq for e in s.evs if any(contains(e.args[1], u.ev.res) for u in s.us))
    s.last = max(e.seq for e in s.evs if any(contains(e.args[1], u.ev.res) for u in s.us))
    s.pre = run_bytes(tree([e for e in s.evs if e.seq < s.first]), s.F, ZERO)
    for u in s.us:
        ws = unit_writes(r, u, out)
        u.writes = ws
        u.lay = run_bytes(ws, u.facts, ws[0].x['pos']) if ws else None
        u.start = ws[0].x['pos'] if ws else None
    s.post = [e for e in s.evs if e.seq > s.last]
    return s


def chunk_size_of(k, plan):
    n, cs, last = plan
    return phi(eq(k, sub(n, ONE)), last, cs)


def nonempty(u):
    """facts of an iteration actually taken"""
    f = list(u.facts)
    if u.loop is not None:
        f += [ge0(u.idx), ge0(sub(sub(u.trip, ONE), u.idx))]
    return f


def pack_variants(tier, kinds=('file', 'bytes_file', 'bytes', 'nd_file', 'nd_bytes')):
    for k in kinds:
        yield k, True, False
        if k in ('file', 'bytes', 'nd_file') or tier == 'thorough':
            yield k, False, k not in ('nd_file',)
        if tier == 'thorough':
            yield k, True, True
            yield k, False, False


def input_object(r, kind):
    if kind == 'file':
        os_ = [e for e in r.events if e.kind == 'open' and e.arg(0, 'file') is INF]
    else:
        os_ = [e for e in r.events if e.kind == 'bytesio' and e.args and e.args[0] is BYTES]
    return os_


# ---------------------------------------------------------------- C02
def c02(C, R, tier):
    for kind, off, meta in pack_variants(tier):
        r = R.context(pack_ctx(C, kind, off, meta))
        s = decompose(C, R, r)
        if s is None:
            continue
        n, cs, last = s.r.plan
        for e, p in s.problems:
            R.ok(False, '%s: every chunk is handled' % r.name, e.site, p, r)
        R.ok(same(s.F, s.total, n), '%s: one compression per planned chunk' % r.name, site_of(s.comp),
             '%s vs %s' % (show(s.total), show(n)), r)
        reads = [e for e in r.events if e.kind == 'read']
        for u in s.us:
            k = add(u.base, u.idx)
            fs = nonempty(u)
            site = u.ev.site
            R.ok(not rel(u.facts, u.ev.pc), '%s: no chunk is skipped' % r.name, site,
                 'compressed only when %s' % [show(x) for x in rel(u.facts, u.ev.pc)], r)
            size = chunk_size_of(k, (n, cs, last))
            if u.ev.kind == 'blosc.compress_ptr':
                addr, items = u.ev.x['canon'].get('address'), u.ev.x['canon'].get('items')
                base = sub(addr, mul(cs, k))
                base = simp(tuple(fs), base)
                R.ok(not contains(base, u.idx) or u.idx is ZERO, '%s: chunk k starts k chunk sizes into the array buffer'
                     % r.name, site, show(addr), r)
                if not hasattr(s, 'base'):
                    s.base = base
                R.ok(same(fs, add(s.base, mul(cs, k)), addr), '%s: chunks are consecutive in the array buffer' % r.name,
                     site, '%s vs %s' % (show(addr), show(add(s.base, mul(cs, k)))), r)
                ts = r.box['size'].op and at_itemsize(C, r)
                R.ok(same(fs, items, fdiv(size, ts)), '%s: chunk k holds chunk size / item size items' % r.name, site,
                     '%s vs %s' % (show(items), show(fdiv(size, ts))), r)
                R.ok(holds(fs, eq0(fmod(cs, ts))), '%s: the chunk size is a multiple of the item size' % r.name, site,
                     'not established before compressing', r)
            else:
                d = u.ev.x['canon'].get('bytesobj')
                check_chunk_data(R, r, kind, d, k, (n, cs, last), fs, site)
            if not u.writes:
                R.ok(False, '%s: every compressed chunk is written' % r.name, site, 'no write of the result', r)
                continue
            R.ok(not u.lay.gaps, '%s: a chunk is written contiguously' % r.name, site_of(u.writes),
                 str([(e.site, show(a), show(b)) for e, a, b in u.lay.gaps]), r)
            got = u.lay.parts[0] if u.lay.parts else EMPTYB
            R.ok(starts_with(fs, u.lay.data, u.ev.res), '%s: the compressed chunk is written whole' % r.name,
                 site_of(u.writes), '%s' % show(u.lay.data), r)
        mv = [e for e in s.moves if s.first < e.seq < s.last or
              (e.loops and any(u.loop in e.loops for u in s.us))]
        R.ok(not mv, '%s: chunks are appended one after the other' % r.name, site_of(mv), 'repositions the output', r)
        strange = [e for e in s.evs if s.first <= e.seq <= s.last and
                   not any(contains(e.args[1], u.ev.res) for u in s.us) and rel_nonempty(e)]
        R.ok(not strange, '%s: nothing but chunks is written between chunks' % r.name, site_of(strange),
             str([show(e.args[1]) for e in strange]), r)
    # in-memory storage
    for off in (True, False):
        r = R.context(pack_ctx(C, 'mem', off, off))
        mem_store(C, R, r, 'chunks', lambda u: u.ev.res, 'chunk k is stored whole at position k')


def at_itemsize(C, r):
    st = r.box['pre']
    return C.I.getattr(ARR, 'itemsize', st, Node())


def rel_nonempty(e):
    return e.args[1] is not EMPTYB


def starts_with(fs, data, x):
    if data.op == 'cat':
        for i in range(1, len(data.args) + 1):
            if same(fs, cat(*data.args[:i]), x):
                return True
        return False
    return same(fs, data, x)


def check_chunk_data(R, r, kind, d, k, plan, fs, site):
    n, cs, last = plan
    size = chunk_size_of(k, plan)
    want_pos = mul(cs, k)
    if d is not None and d.op == 'rd':
        src = input_object(r, kind)
        R.ok(any(e.res is d.args[0] for e in src), '%s: chunks come from the input' % r.name, site, show(d), r)
        R.ok(same(fs, d.args[2], want_pos), '%s: chunk k starts k chunk sizes into the input' % r.name, site,
             '%s vs %s' % (show(d.args[2]), show(want_pos)), r)
        R.ok(same(fs, d.args[3], size), '%s: chunk k has the planned size' % r.name, site,
             '%s vs %s' % (show(d.args[3]), show(size)), r)
        R.ok(is_const(d.args[1]), '%s: the input is unchanged while reading' % r.name, site, show(d.args[1]), r)
    else:
        want = slice_(BYTES, want_pos, add(want_pos, size))
        R.ok(d is not None and same(fs, d, want), '%s: chunk k is the k-th part of the input' % r.name, site,
             show(d), r)


def mem_store(C, R, r, field, value, what, cond=None):
    """the in-memory sink's list `field` holds value(unit k) at index k"""
    I = C.I
    comp = [e for e in r.events if e.kind in COMPRESS]
    if r.st is None or not comp:
        R.ok(False, '%s completes' % r.name, '', '', r)
        return
    us, total, problems = units(r, comp)
    sink = r.box['sink']
    lst = r.st.d.get(('a', sink.args[0], field))
    site = 'memory_io.py (CompressedMemorySink)'
    if lst is None:
        R.ok(False, '%s: %s' % (r.name, what), site, 'no attribute %s' % field, r)
        return
    if lst.op == 'phi':
        lst = simp(tuple(r.st.pc), lst)
    cont = r.st.d.get(('c', lst.args[0])) if lst.op == 'obj' else lst
    for e, p in problems:
        R.ok(False, '%s: every chunk is handled' % r.name, e.site, p, r)
    i = S('k_', 'int')
    for u in us:
        k = add(u.base, u.idx)
        facts = list(r.st.pc) + [ge0(i), ge0(sub(sub(u.trip, ONE), i))]
        want = subst(value(u), {u.idx: i}) if u.loop is not None else value(u)
        got = at(cont, add(u.base, i) if u.loop is not None else u.base)
        if cond is not None:
            facts = facts + cond
            got, want = simp(tuple(facts), got), simp(tuple(facts), want)
        R.ok(same(facts, got, want), '%s: %s' % (r.name, what), u.ev.site, '%s vs %s' % (show(got), show(want)), r)
    d = us[0].ev.x['canon'].get('bytesobj')
    R.ok(d is not None and d is at(S('chunks', 'seq'), us[0].idx), '%s: chunks are taken from the input in order' % r.name,
         us[0].ev.site, show(d), r)


# ---------------------------------------------------------------- C05
def c05(C, R, tier):
    for kind, off, meta in pack_variants(tier):
        r = R.context(pack_ctx(C, kind, off, meta))
        s = decompose(C, R, r)
        if s is None:
            continue
        for u in s.us:
            if not u.writes:
                R.ok(False, '%s: every compressed chunk is written' % r.name, u.ev.site, '', r)
                continue
            site = site_of(u.writes)
            R.ok(not u.lay.gaps, '%s: the digest follows its chunk directly' % r.name, site,
                 str([(e.site, show(a), show(b)) for e, a, b in u.lay.gaps]), r)
            for name, _ in CHECKSUM_SIZES:
                f2 = tuple(nonempty(u)) + (eq(CKS, const(name)),)
                want = cat(u.ev.res, digest_spec(name, u.ev.res))
                got = simp(f2, u.lay.data)
                R.ok(same(f2, got, want), '%s: chunk is stored with the %s digest of its compressed bytes' %
                     (r.name, name), site, '%s vs %s' % (show(got), show(want)), r)
        for name, ident in [(nm, i) for i, (nm, _) in enumerate(CHECKSUM_SIZES)]:
            f2 = tuple(s.F) + (eq(CKS, const(name)),)
            got = simp(f2, slice_(s.pre.data, const(6), const(7)))
            R.ok(same(f2, got, const(bytes([ident]))), '%s: the header records the checksum used (%s)' % (r.name, name),
                 site_of(s.pre.events[:1]), show(got), r)
    for off in (True, False):
        r = R.context(pack_ctx(C, 'mem', off, off))
        for name, n in CHECKSUM_SIZES:
            if name == 'None':
                continue
            mem_store(C, R, r, 'checksums', lambda u: digest_spec(name, u.ev.res),
                      'the %s digest of chunk k is stored with it' % name, [eq(CKS, const(name))])


# ---------------------------------------------------------------- C12
def c12(C, R, tier):
    for kind, off, meta in pack_variants(tier):
        for o in ((True, False) if tier == 'thorough' else (off,)):
            r = R.context(pack_ctx(C, kind, o, meta))
            s = decompose(C, R, r)
            if s is None:
                continue
            check_sections(C, R, r, s, o, meta or kind.startswith('nd'), kind)


def check_sections(C, R, r, s, off, meta, kind):
    F = s.F
    site = site_of(s.pre.events)
    n, cs, last = r.plan
    R.ok(not s.pre.gaps, '%s: header, metadata and offsets are written back to back from position 0' % r.name, site,
         str([(e.site, show(a), show(b)) for e, a, b in s.pre.gaps]), r)
    data = s.pre.data
    R.ok(slice_(data, ZERO, const(4)) is const(b'blpk'), '%s: the header comes first' % r.name, site,
         show(slice_(data, ZERO, const(4))), r)
    # where the offsets table has to be
    if meta:
        mx = unpk('<I', slice_(data, const(48), const(52)))
        ck = simp(tuple(F), slice_(data, const(41), const(42)))
        dsz = phi_digest_size(C, unpk('<B', ck))
        P = add(const(64), add(mx, dsz))
    else:
        P = const(32)
    total = add(unpk('<q', slice_(data, const(16), const(24))), unpk('<q', slice_(data, const(24), const(32))))
    E = s.pre.end
    opts = simp(tuple(F), slice_(data, const(5), const(6)))
    R.ok(opts is const(bytes([(1 if off else 0) | (2 if meta else 0)])), '%s: option bits describe the sections present'
         % r.name, site, show(opts), r)
    if off:
        want_end = add(P, mul(const(8), total))
    else:
        want_end = P
    R.ok(same(F, E, want_end), '%s: the chunks start right behind the sections the header announces' % r.name, site,
         '%s vs %s' % (show(E), show(want_end)), r)
    early = [e for e in s.moves if e.seq < s.first]
    R.ok(not early, '%s: the output is not repositioned before the first chunk' % r.name, site_of(early), '', r)
    post = s.post
    if not off:
        R.ok(not post, '%s: nothing is written behind the chunks' % r.name, site_of(post), '', r)
        return
    tail = slice_off(data, E, total, F)
    R.ok(tail is not None and same(F, tail, rep(const(b'\xff'), mul(const(8), total))),
         '%s: all offsets are first initialised to -1' % r.name, site, show(tail), r)
    if not post:
        R.ok(False, '%s: the offsets are filled in after the chunks' % r.name, site_of(s.evs[-1:]),
             'no write behind the chunk loop', r)
        return
    lay = run_bytes(tree(post), F, post[0].x['pos'])
    psite = site_of(post)
    R.ok(not lay.gaps, '%s: the offsets table is one run' % r.name, psite, '', r)
    R.ok(not rel(F, post[0].pc), '%s: the offsets table is always filled in' % r.name, psite,
         str([show(x) for x in rel(F, post[0].pc)]), r)
    R.ok(same(F, post[0].x['pos'], P), '%s: the offsets table is written where it was reserved' % r.name, psite,
         '%s vs %s' % (show(post[0].x['pos']), show(P)), r)
    R.ok(same(F, length(lay.data), mul(const(8), n)), '%s: one offset per chunk is filled in' % r.name, psite,
         '%s vs %s' % (show(length(lay.data)), show(mul(const(8), n))), r)
    i = S('k_', 'int')
    for u in s.us:
        if u.start is None:
            continue
        facts = F + [ge0(i), ge0(sub(sub(u.trip, ONE), i))] if u.loop is not None else F
        k = add(u.base, i) if u.loop is not None else u.base
        want = subst(u.start, {u.idx: i}) if u.loop is not None else u.start
        got = element(lay.data, k)
        if got is None:
            R.ok(False, '%s: offset k is the position of chunk k' % r.name, psite, show(lay.data), r)
            continue
        got = simp(tuple(facts), got)
        R.ok(same(facts, got, pk('<q', want)), '%s: offset k is the position of chunk k' % r.name, psite,
             '%s vs %s' % (show(got), show(pk('<q', want))), r)


def phi_digest_size(C, ident):
    r = const(CHECKSUM_SIZES[-1][1])
    return tab(ident, [(const(i), const(sz)) for i, (_, sz) in enumerate(CHECKSUM_SIZES)]) or r


def slice_off(data, E, total, F):
    """the last 8*total bytes of the prefix"""
    if data.op != 'cat':
        return None
    want = mul(const(8), total)
    for i in range(len(data.args) - 1, -1, -1):
        t = cat(*data.args[i:])
        if same(F, length(t), want):
            return t
    return None


def element(data, k):
    """the k-th 8 byte entry of a table"""
    if data.op == 'bmap' and length(data.args[1]) is const(8):
        return subst(data.args[1], {data.args[0]: k})
    if data.op == 'rep' and length(data.args[0]) is const(8):
        return data.args[0]
    return slice_(data, mul(const(8), k), mul(const(8), add(k, ONE)))
