"""Rules over the unpacking pipeline."""
from ..contexts import *   # noqa
from ..spec import *   # noqa


def dec_data(e):
    return e.x['canon'].get('bytes_like')


def body_facts(e):
    l = e.loops[-1] if e.loops else None
    f = list((l.end_pc if l is not None and l.end_pc else None) or e.pc)
    return f


def single_loop(R, r):
    """the one loop over the stored chunks, or None"""
    ls = []
    for e in r.dec:
        l = e.loops[0] if e.loops else None
        if l not in ls:
            ls.append(l)
    site = site_of(r.dec)
    if not r.dec:
        R.ok(False, '%s: the chunks are decompressed' % r.name, '', 'no decompression call reached', r)
        return None
    if r.st is None:
        R.ok(False, '%s completes' % r.name, site, 'no normal completion', r)
        return None
    ok = len(ls) == 1 and ls[0] is not None and all(len(e.loops) == 1 for e in r.dec)
    R.ok(ok, '%s: one loop over the stored chunks' % r.name, site, str(ls), r)
    if not ok:
        return None
    return ls[0]


def chunk_position(r, l):
    """where iteration idx starts to read the source"""
    rs = [e for e in r.events if e.kind == 'read' and l in e.loops and e.args[0] is r.src]
    return rs[0].x['pos'] if rs else None


def c03(C, R, tier):
    for kind in UNPACKS:
        r = R.context(unpack_ctx(C, kind))
        l = single_loop(R, r)
        if l is None:
            continue
        if not R.ok(r.src is not None, '%s: the input is opened' % r.name, '', '', r):
            continue
        spec = FileSpec(r.src)
        site = site_of(r.dec)
        pre = list(l.pre_pc) + [ge0(spec.nchunks)]
        R.ok(not l.has_break, '%s: the loop over the chunks is not left early' % r.name, l.site, '', r)
        R.ok(same(pre, l.trip, spec.nchunks), '%s: as many chunks are read as the header announces'
             % r.name, l.site, '%s vs %s' % (show(l.trip), show(spec.nchunks)), r)
        check_cover(R, r, l, r.dec)
        P = chunk_position(r, l)
        if P is None:
            R.ok(False, '%s: chunks are read from the input' % r.name, site, '', r)
            continue
        p0, p1 = carried(l, P)
        R.ok(same(pre, p0, spec.data_pos), '%s: the first chunk starts behind the sections the header announces' % r.name,
             l.site, '%s vs %s' % (show(p0), show(spec.data_pos)), r)
        bh = spec.rd(P, const(16))
        ct = unpk('<I', slice_(bh, const(12), const(16)))
        want_next = add(P, add(ct, spec.dsize))
        R.ok(same(list(l.end_pc or ()), p1, want_next), '%s: the next chunk starts behind the chunk and its digest' %
             r.name, l.site, '%s vs %s' % (show(p1), show(want_next)), r)
        for e in r.dec:
            d = dec_data(e)
            R.ok(same(body_facts(e), d, spec.rd(P, ct)), '%s: exactly the stored chunk is decompressed' % r.name, e.site,
                 '%s vs %s' % (show(d), show(spec.rd(P, ct))), r)
        check_output(C, R, r, l, kind)
        check_meta_result(C, R, r, kind, spec)
    for off, pre in ((True, False), (False, True)) if tier == 'quick' else ((True, False), (False, True), (True, True)):
        r = R.context(mem_unpack_ctx(C, off, pre))
        l = single_loop(R, r)
        if l is None:
            continue
        R.ok(not l.has_break, '%s: the loop over the chunks is not left early' % r.name, l.site, '', r)
        R.ok(same(list(l.pre_pc) + [ge0(r.box['n'])], l.trip, r.box['n']), '%s: every stored chunk is unpacked' % r.name,
             l.site, show(l.trip), r)
        check_cover(R, r, l, r.dec)
        for e in r.dec:
            R.ok(same(body_facts(e), dec_data(e), at(STORED, l.idx)), '%s: chunk k is decompressed k-th' % r.name, e.site,
                 show(dec_data(e)), r)
        i = S('k_', 'int')
        cands = stored_lists(r, r.box['out'])
        F = list(r.st.pc) + [ge0(i), ge0(sub(sub(l.trip, ONE), i))]
        ok = False
        for c in cands:
            for e in r.dec:
                if e.res is not None and same(F, at(c, i), subst(e.res, {l.idx: i})) and \
                        same(list(r.st.pc), length(c), l.trip):
                    ok = True
        R.ok(ok, '%s: the sink holds the decompressed chunks in order' % r.name, site_of(r.dec),
             str([show(c) for c in cands]), r)


def stored_lists(r, obj):
    st = r.st
    out = []
    for sl, v in st.d.items():
        if sl[0] == 'a' and sl[1] == obj.args[0]:
            v = simp(tuple(st.pc), v)
            c = st.d.get(('c', v.args[0])) if v.op == 'obj' else v
            if c is not None and c.op in ('fill', 'smap', 'upd', 'cat', 'seq', 'phi'):
                out.append(c)
    return out


def check_cover(R, r, l, evs):
    """in every iteration that completes exactly one of the events happens"""
    conds = []
    for e in evs:
        q = rel(l.end_pc or (), e.pc)
        conds.append(and_(*q) if q else TRUE)
    site = site_of(evs)
    F = list(l.end_pc or ())
    ok = holds(F, or_(*conds)) if len(conds) > 1 else conds[0] is TRUE
    R.ok(ok, '%s: no chunk is skipped' % r.name, site, str([show(c) for c in conds]), r)
    if len(conds) > 1:
        for i in range(len(conds)):
            for j in range(i + 1, len(conds)):
                R.ok(contradictory(F + [conds[i], conds[j]]), '%s: no chunk is handled twice' % r.name, site, '', r)


def check_output(C, R, r, l, kind):
    site = site_of(r.dec)
    if kind.startswith('nd'):
        for e in r.dec:
            if not R.ok(e.kind == 'blosc.decompress_ptr', '%s: chunks are decompressed into the array' % r.name, e.site,
                        '', r):
                continue
            A = e.x['canon'].get('address')
            a0, a1 = carried(l, A)
            R.ok(same(list(l.end_pc or ()), a1, add(A, e.res)), '%s: chunks are put one behind the other' % r.name, e.site,
                 '%s vs %s' % (show(a1), show(add(A, e.res))), r)
            arr = r.ret
            want = C.I.getattr(arr, '__array_interface__', r.st.fork(), Node())
            R.ok(contains(a0, arr) and a0.op == 'at' and a0.args[1] is ZERO, '%s: the first chunk goes to the start of the '
                 'returned array' % r.name, e.site, show(a0), r)
        return
    outs = []
    for e in r.events:
        if e.kind == 'write' and e.args[0] not in outs:
            outs.append(e.args[0])
    outs = [o for o in outs if any(l in e.loops for e in writes_to(r, o))]
    if not R.ok(len(outs) == 1, '%s: the decompressed chunks are written to one output' % r.name, site, str(outs), r):
        return
    out = outs[0]
    ws = writes_to(r, out)
    inl = [e for e in ws if l in e.loops]
    other = [e for e in ws if l not in e.loops]
    R.ok(not other, '%s: nothing but decompressed chunks is written' % r.name, site_of(other), '', r)
    mv = [e for e in r.events if e.kind in ('seek', 'truncate') and e.args[0] is out and
          (e.kind == 'truncate' or l in e.loops or e.seq < l.post_seq)]
    R.ok(not mv, '%s: the output is written front to back' % r.name, site_of(mv), '', r)
    F = list(l.end_pc or ())
    lay = run_bytes(inl, F, inl[0].x['pos'])
    want = None
    for e in r.dec:
        q = rel(F, e.pc)
        want = e.res if want is None else phi(and_(*q), e.res, want)
    R.ok(same(F, lay.data, want), '%s: every decompressed chunk is written once and whole' % r.name, site_of(inl),
         '%s vs %s' % (show(lay.data), show(want)), r)
    if kind == 'file':
        opens = [e for e in r.events if e.kind == 'open' and e.res is out]
        R.ok(bool(opens) and opens[0].arg(0, 'file') is OUTF, '%s: the output goes to the named file' % r.name, site, '', r)
        R.ok(bool(opens) and open_mode(opens[0]).startswith(('wb', 'xb', 'w+b')), '%s: the output starts empty' % r.name,
             site_of(opens), '', r)
    else:
        v = at(r.ret, ZERO) if r.ret is not None else None
        R.ok(v is not None and content_of(v, out, r), '%s: the whole decompressed data is returned' % r.name, site,
             show(v) if v is not None else '', r)


def content_of(v, out, r):
    if v.op == 'fval' and v.args[0] is out:
        last = r.st.d.get(('f', out.args[0], 'ver'))
        return last is None or same(list(r.st.pc), v.args[1], last)
    return False


def open_mode(e):
    m = e.arg(1, 'mode')
    return cval(m) if m is not None and is_const(m) else 'r'


def check_meta_result(C, R, r, kind, spec):
    """the metadata in the file is what the caller gets"""
    if kind.startswith('nd'):
        return
    m = r.ret if kind == 'file' else at(r.ret, ONE)
    F = list(r.st.pc)
    ls = [e for e in r.events if e.kind == 'json.loads']
    site = site_of(ls)
    z = F + [not_(spec.has_meta)]
    R.ok(same(z, m, NONE), '%s: no metadata is returned for a file without' % r.name, site, show(simp(tuple(z), m)), r)
    y = F + [spec.has_meta]
    got = simp(tuple(y), m)
    R.ok(any(e.res is got for e in ls), '%s: the deserialised metadata is returned' % r.name, site, show(got), r)


# ---------------------------------------------------------------- C04
def c04(C, R, tier):
    for kind in UNPACKS:
        r = R.context(unpack_ctx(C, kind))
        l = single_loop(R, r)
        if l is None or r.src is None:
            continue
        spec = FileSpec(r.src)
        P = chunk_position(r, l)
        for e in r.dec:
            d = dec_data(e)
            dig = None
            if d.op == 'rd':
                # the digest is stored right behind the chunk
                dpos = add(d.args[2], d.args[3])
                for i, (name, n) in enumerate(CHECKSUM_SIZES):
                    if not n:
                        continue
                    F = list(e.pc) + [eq(spec.cks, const(i))]
                    stored = spec.rd(dpos, const(n))
                    want = digest_spec(name, d)
                    R.ok(verified(F, stored, want), '%s: %s digest is verified before the chunk is decompressed' %
                         (r.name, name), e.site, 'the digest comparison does not dominate the decompression', r)
            else:
                R.ok(False, '%s: the decompressed data is the data read' % r.name, e.site, show(d), r)
        mismatch_raises(C, R, r, l, lambda name, i: [eq(spec.cks, const(i))],
                        lambda name, n: (spec.rd(add(P, unpk('<I', slice_(spec.rd(P, const(16)), const(12), const(16)))),
                                                 const(n)),
                                         digest_spec(name, spec.rd(P, unpk('<I', slice_(spec.rd(P, const(16)), const(12),
                                                                                       const(16)))))))
    r = R.context(mem_unpack_ctx(C, True, False))
    l = single_loop(R, r)
    if l is not None:
        for e in r.dec:
            for i, (name, n) in enumerate(CHECKSUM_SIZES):
                if n:
                    F = list(e.pc) + [eq(CKS, const(name))]
                    R.ok(verified(F, at(DIGESTS, l.idx), digest_spec(name, dec_data(e))),
                         '%s: %s digest is verified before the chunk is decompressed' % (r.name, name), e.site,
                         'the digest comparison does not dominate the decompression', r)
        mismatch_raises(C, R, r, l, lambda name, i: [eq(CKS, const(name))],
                        lambda name, n: (at(DIGESTS, l.idx), digest_spec(name, at(STORED, l.idx))))


def verified(F, a, b):
    g = eq(a, b)
    if g is TRUE:
        return True
    if g in F:
        return True
    # rewrite the comparison made under the facts
    fs = [simp(tuple(x for x in F if x is not f), f) for f in F]
    if g in fs or any(f.op == 'eq' and {f.args[0], f.args[1]} == {a, b} for f in fs):
        return True
    a2, b2 = norm(F, a), norm(F, b)
    if any(f.op == 'eq' and {norm(F, f.args[0]), norm(F, f.args[1])} == {a2, b2} for f in flat(fs)):
        return True
    return holds(F, g)


def is_exc(C, x, mod_name):
    return C.I.matches(x, [C.get('exceptions', mod_name)])


def mismatch_raises(C, R, r, l, sel, pair):
    """a digest mismatch ends in ChecksumMismatch and nothing else does"""
    rs = [(s, x, e) for s, x, e in r.raises if e is not None and l in e.loops and is_exc(C, x, 'ChecksumMismatch')]
    R.ok(bool(rs), '%s: a damaged chunk raises ChecksumMismatch' % r.name, l.site, 'no such exception leaves the loop', r)
    for i, (name, n) in enumerate(CHECKSUM_SIZES):
        F0 = sel(name, i)
        if n:
            a, b = pair(name, n)
            g = eq(a, b)
        for s, x, e in rs:
            F = list(s.pc) + F0 + ([g] if n else [])
            R.ok(contradictory_deep(F), '%s: an intact chunk is accepted (%s)' % (r.name, name), e.site,
                 'ChecksumMismatch although the digest is right', r)


def contradictory_deep(F):
    F = tuple(F)
    if contradictory(list(F)):
        return True
    fs = [simp(tuple(x for x in F if x is not f), f) for f in F]
    return any(f is FALSE for f in fs) or contradictory(fs)
