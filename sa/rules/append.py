"""Rules over appending."""
import copy

from ..contexts import *   # noqa
from ..spec import *   # noqa
from .unpack import verified, is_exc, contradictory_deep

MAXN = 2 ** 63 - 1


class View(object):
    """an append context with the fields of the old file header as numbers of their own"""

    def __init__(self, C, r):
        self.C, self.r = C, r
        spec = self.spec = FileSpec(r.src)
        i = lambda nm: S('old_' + nm, 'int')
        self.ver, self.opt, self.cks, self.ts = i('version'), i('options'), i('checksum'), i('typesize')
        self.cs, self.last, self.n, self.app = i('chunk_size'), i('last_chunk'), i('nchunks'), i('max_app_chunks')
        self.H = cat(const(b'blpk'), pk('<B', self.ver), pk('<B', self.opt), pk('<B', self.cks), pk('<B', self.ts),
                     pk('<i', self.cs), pk('<i', self.last), pk('<q', self.n), pk('<q', self.app))
        self.m_max, self.m_cks = i('allocated'), i('meta_checksum')
        self.map = {spec.H: self.H, spec.m_max: self.m_max, slice_(spec.M, const(16), const(20)): pk('<I', self.m_max),
                    spec.m_cks: self.m_cks, slice_(spec.M, const(9), const(10)): pk('<B', self.m_cks)}
        self.facts = [self.rng(self.ver, 0, 255), self.rng(self.opt, 0, 255), self.rng(self.cks, 0, 8),
                      self.rng(self.ts, 0, 255), self.rng(self.m_max, 0, 2 ** 32 - 1), self.rng(self.m_cks, 0, 8),
                      ge0(sub(self.n, ONE)), ge0(self.app), ge0(sub(self.cs, ONE)), ge0(self.last)]
        self.memo = {}
        self.has_meta = eq(bit(self.opt, 1), ONE)
        self.has_offsets = eq(bit(self.opt, 0), ONE)
        self.dsize = digest_size(self.cks)
        self.off_pos = phi(self.has_meta, add(add(const(64), self.m_max), digest_size(self.m_cks)), const(32))
        self.table = mk('rd', r.src, ZERO, self.off_pos, mul(const(8), add(self.n, self.app)), ty='bytes')

    def rng(self, x, a, b):
        return and_(ge0(sub(x, const(a))), ge0(sub(const(b), x)))

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = simp(tuple(self.facts), subst(t, self.map))
        return r

    def pc(self, pc):
        return [self(f) for f in pc]


def prepare(C, R, r):
    R.context(r)
    if not R.ok(r.st is not None and r.src is not None and r.new is not None, '%s completes' % r.name, 'append.py',
                'no normal completion', r):
        return None
    v = View(C, r)
    v.F = v.pc(r.st.pc) + flat(v.facts)
    dec = [e for e in r.events if e.kind in ('blosc.decompress',)]
    if not R.ok(len(dec) >= 1, '%s: the last chunk is decompressed' % r.name, 'append.py', '', r):
        return None
    v.dec = dec
    v.D = v(dec[0].res)
    v.raw = v(dec[0].x['canon'].get('bytes_like'))
    # a file the library wrote announces the size the last chunk really has
    if not contains(v.D, v.last):
        size = length(v.D)
        v.memo.clear()
        v.map = dict((k, subst(x, {v.last: size})) for k, x in v.map.items())
        v.facts = [subst(x, {v.last: size}) for x in v.facts]
        v.last = size
        v.F = v.pc(r.st.pc) + flat(v.facts)
    v.writes = [e for e in r.events if e.kind == 'write' and e.args[0] is r.src]
    v.N = S('new_size', 'int')
    gs = [e for e in r.events if e.kind == 'getsize' and e.args[0] is NEW]
    if gs:
        v.N = gs[0].res
    v.whole = {}
    announced(v)
    v.btr = sub(v.cs, length(v.D))
    q = r.st.fork()
    q.pc = tuple(list(v.F) + [ge0(sub(sub(v.N, v.btr), ONE))])
    p = quiet_call(C, q, C.get('args', 'calculate_nchunks'), [sub(v.N, v.btr), v.cs])
    if not R.ok(p is not None, '%s: the remaining data can be planned' % r.name, 'append.py', '', r):
        return None
    v.n2, v.c2, v.l2 = p.args if p.op == 'tuple' else [at(p, const(i)) for i in range(3)]
    # the plan as numbers of their own; what C01 establishes about every plan is taken as known
    v.plan = plan(v.n2, S('planned_chunks', 'int')) if not is_const(v.n2) else {}
    v.planned = [ge0(sub(S('planned_chunks', 'int'), ONE)), ge0(sub(v.n2, ONE))]
    v.consistent = [ge0(v.btr), ge0(v.N)]
    v.A = v.F + v.consistent + [ge0(sub(v.btr, v.N))]
    v.B = v.F + v.consistent + [ge0(sub(sub(v.N, v.btr), ONE))]
    v.long = v
    if v.whole:
        # the view of the case that all that is asked for from the start is there
        v.long = w = copy.copy(v)
        w.map, w.memo = dict(v.map), {}
        w.facts = v.facts + [ge0(sub(sub(v.N, v.btr), ONE))]
        w.map.update((x, k) for x, k in v.whole.items() if holds(v.B, ge0(sub(v.N, k))))
        w.F = w.pc(r.st.pc) + flat(v.facts)
        w.B = w.F + v.consistent + [ge0(sub(sub(v.N, v.btr), ONE))]
    return v


def announced(v):
    """the new data is as long as announced: what is read from its start is only cut short by its end"""
    r, seen, found = v.r, set(), {}
    todo = list(r.st.pc) + [f for s, x, e in r.raises for f in s.pc]
    for e in v.writes:
        todo += [e.x['pos'], e.args[1]] + list(e.pc)
    for t in todo:
        if t in seen or not contains(t, r.new):
            continue
        seen.add(t)
        for x in atoms(t):
            if x.op == 'len' and x.args[0].op == 'rd' and x.args[0].args[0] is r.new and x.args[0].args[2] is ZERO:
                k = v(x.args[0].args[3])
                found[x] = k if k is v.N else phi(ge0(sub(v.N, k)), k, v.N)
    if found:
        v.whole = dict((x, v(x.args[0].args[3])) for x in found)
        v.map.update(found)
        v.memo.clear()
        v.F = v.pc(r.st.pc) + flat(v.facts)


def plan(n, name):
    """substitution that names the number of chunks n"""
    if n.op == 'poly':
        p = tm.to_poly(n)
        for m, k in sorted(p.items(), key=lambda mk_: [a.uid for a in mk_[0]]):
            if len(m) == 1 and k in (1, -1) and not any(m[0] in q for q in p if q != m):
                # n = k * a + rest
                rest = sub(n, mul(const(k), m[0]))
                return {m[0]: mul(const(k), sub(name, rest))}
    return {n: name}


def active(v, case):
    """the events on the target that can happen in a case"""
    out = []
    for e in v.writes:
        if not contradictory(case + v.pc(e.pc)):
            out.append(e)
    return out


def contexts(C, tier):
    yield append_ctx(C, 'none', True)
    if tier == 'thorough':
        yield append_ctx(C, 'dict', True)
        yield append_ctx(C, 'inst', True)
        yield append_ctx(C, 'inst', False)


# ---------------------------------------------------------------- C16
def c16(C, R, tier):
    for r in contexts(C, tier):
        v = prepare(C, R, r)
        if v is None:
            continue
        where = site_of(v.dec)
        # the old last chunk is the one the table names last
        P = unpk('<q', slice_(v.table, mul(const(8), sub(v.n, ONE)), mul(const(8), v.n)))
        bh = mk('rd', r.src, ZERO, P, const(16), ty='bytes')
        want = mk('rd', r.src, ZERO, P, unpk('<I', slice_(bh, const(12), const(16))), ty='bytes')
        for e in v.dec:
            R.ok(same(v.pc(e.pc) + v.facts, v(e.x['canon'].get('bytes_like')), want),
                 '%s: the chunk that is filled up is the last one of the offsets table' % r.name, e.site,
                 '%s vs %s' % (show(v(e.x['canon'].get('bytes_like'))), show(want)), r)
        case_a(C, R, v, P)
        case_b(C, R, v.long, P)


def pieces(v, case, evs):
    """(runs at the chunk, at the header, at the table) of the writes of a case"""
    chunk, head, table, rest = [], [], [], []
    return chunk, head, table, rest


def check_header(R, v, F, evs, last, n, app, what):
    r = v.r
    hs = [e for e in evs if not e.loops and same(F, v(e.x['pos']), ZERO)]
    if not R.ok(bool(hs), '%s: %s: the header is rewritten' % (r.name, what), site_of(evs), 'no write at position 0', r):
        return []
    data = norm(F, cat(*[v(e.args[1]) for e in hs]))
    site = site_of(hs)
    R.ok(len(hs) == 1 and not rel(F, v.pc(hs[0].pc)), '%s: %s: the header is always rewritten, once' % (r.name, what), site,
         str([show(x) for x in rel(F, v.pc(hs[0].pc))]), r)
    spec = [('magic', 0, 4, const(b'blpk')), ('version', 4, 5, pk('<B', v.ver)), ('options', 5, 6, pk('<B', v.opt)),
            ('checksum', 6, 7, pk('<B', v.cks)), ('typesize', 7, 8, pk('<B', v.ts)),
            ('chunk size', 8, 12, pk('<i', v.cs)), ('last chunk size', 12, 16, pk('<i', last)),
            ('number of chunks', 16, 24, pk('<q', n)), ('append capacity', 24, 32, pk('<q', app))]
    F2 = list(F) + [eq0(bit(v.opt, i)) for i in range(2, 8)]
    for nm, a, b, w in spec:
        got = cut(F2, data, const(a), const(b))
        R.ok(got is not None and same_field(F2, got, w), '%s: %s: header field %s' % (r.name, what, nm), site,
             '%s vs %s' % (show(got) if got is not None else None, show(w)), r)
    return hs


def same_field(F, got, want):
    if same(F, got, want):
        return True
    if got.op == 'pk' and want.op == 'pk' and got.args[0] == want.args[0]:
        if same(F, got.args[1], want.args[1]):
            return True
        x, o = got.args[1], want.args[1]
        # options: the two used bits of a byte whose other bits are zero
        w = add(mul(const(2), bit(o, 1)), bit(o, 0))
        return got.args[0] == '<B' and same(F, x, w)
    return False


def filled(v, F, what, amount, R, evs):
    """the chunk written at the place of the old last one"""
    r = v.r
    fill = mk('rd', r.new, ZERO, ZERO, amount, ty='bytes')
    comp = [e for e in r.events if e.kind == 'blosc.compress' and not e.loops
            and not contradictory(F + v.pc(e.pc))]
    if len(comp) > 1:
        # the others take new data only
        comp = [e for e in comp if any(contains(e.x['canon'].get('bytesobj'), x.res) for x in v.dec)] or comp
    site = site_of(comp)
    if not R.ok(len(comp) == 1, '%s: %s: the filled chunk is compressed once' % (r.name, what), site,
                '%d compressions' % len(comp), r):
        return None
    e = comp[0]
    d = norm(F, v(e.x['canon'].get('bytesobj')))
    want = norm(F, cat(v.D, fill))
    R.ok(same(F, d, want) or same_cat(F, d, want), '%s: %s: old content followed by the first new bytes' % (r.name, what),
         site, '%s vs %s' % (show(d), show(want)), r)
    check_args(R, v, e, F)
    return e


def same_cat(F, a, b):
    xs = list(a.args) if a.op == 'cat' else [a]
    ys = list(b.args) if b.op == 'cat' else [b]
    xs = [x for x in xs if not same(F, length(x), ZERO)]
    ys = [y for y in ys if not same(F, length(y), ZERO)]
    if len(xs) != len(ys):
        return False
    for x, y in zip(xs, ys):
        if same(F, x, y):
            continue
        if x.op == 'rd' and y.op == 'rd' and x.args[0] is y.args[0] and same(F, x.args[2], y.args[2]) and \
                same(F, x.args[3], y.args[3]) and is_const(x.args[1]):
            continue
        return False
    return True


def check_args(R, v, e, F):
    r = v.r
    if r.mode == 'none':
        want = {'typesize': v.ts, 'clevel': const(7), 'shuffle': ONE, 'cname': const('blosclz')}
    else:
        want = BA
    for k, w in want.items():
        got = v(e.x['canon'].get(k, NONE))
        ok = same(F, got, w) or (w is ONE and got is TRUE)
        if r.mode != 'none':
            # an argument given as None means the default
            given = list(F) + [not_(is_none(w))]
            ok = ok or same(given, simp(given, got), w)
        R.ok(ok, '%s: blosc argument %s' % (r.name, k), e.site, '%s vs %s' % (show(got), show(w)), r)


def chunk_run(v, F, evs, comp):
    """the write events of one compressed chunk, its position and bytes"""
    ws = [e for e in evs if e.loops == comp.loops and contains(e.args[1], comp.res)]
    if not ws:
        return None, None, None
    FF = tuple(F)
    pos = norm(F, v(ws[0].x['pos']))
    data = []
    p = pos
    gaps = []
    for e in ws:
        conds = rel(FF, v.pc(e.pc))
        if not prove_eq(list(FF) + conds, p, v(e.x['pos'])):
            gaps.append(e)
        d = cond_bytes(conds, norm(list(FF) + conds, v(e.args[1])))
        data.append(d)
        p = add(p, length(d))
    return pos, cat(*data), gaps


def check_chunk(R, v, F, evs, comp, what):
    r = v.r
    pos, data, gaps = chunk_run(v, F, evs, comp)
    if not R.ok(pos is not None, '%s: %s: the chunk is written' % (r.name, what), comp.site, '', r):
        return None, None
    R.ok(not gaps, '%s: %s: chunk and digest are written back to back' % (r.name, what), site_of(gaps), '', r)
    for i, (nm, n) in enumerate(CHECKSUM_SIZES):
        F2 = list(F) + [eq(v.cks, const(i))]
        got, want = norm(F2, data), norm(F2, cat(v(comp.res), digest_spec(nm, v(comp.res))))
        R.ok(same(F2, got, want), '%s: %s: chunk with its %s digest' % (r.name, what, nm), comp.site,
             '%s vs %s' % (show(got), show(want)), r)
    return pos, data


def case_a(C, R, v, P):
    r, F, what = v.r, v.A, 'data fits into the last chunk'
    evs = active(v, F)
    e = filled(v, F, what, v.N, R, evs)
    if e is None:
        return
    pos, data = check_chunk(R, v, F, evs, e, what)
    if pos is None:
        return
    R.ok(same(F, pos, P), '%s: %s: written in place of the old chunk' % (r.name, what), e.site,
         '%s vs %s' % (show(pos), show(P)), r)
    hs = check_header(R, v, F, evs, add(v.last, v.N), v.n, v.app, what)
    other = [x for x in evs if x not in hs and not contains(x.args[1], e.res) and not table_again(v, F, x)]
    R.ok(not other, '%s: %s: nothing else is written' % (r.name, what), site_of(other), '', r)
    if r.fp:
        R.ok(same(F, norm(F, v(r.ret)), ZERO), '%s: %s: no new chunks are reported' % (r.name, what), 'append.py',
             show(norm(F, v(r.ret))), r)


def table_again(v, F, e):
    """writing the offsets that are already there"""
    d = norm(F, v(e.args[1]))
    return same(F, v(e.x['pos']), v.off_pos) and d is v.table


def case_b(C, R, v, P):
    r, F, what = v.r, v.B, 'data needs new chunks'
    evs = active(v, F)
    e = filled(v, F, what, v.btr, R, evs)
    if e is None:
        return
    pos, data = check_chunk(R, v, F, evs, e, what)
    if pos is None:
        return
    R.ok(same(F, pos, P), '%s: %s: written in place of the old chunk' % (r.name, what), e.site,
         '%s vs %s' % (show(pos), show(P)), r)
    end = add(pos, length(data))
    comp = [x for x in r.events if x.kind == 'blosc.compress' and x is not e and not contradictory(F + v.pc(x.pc))]
    if not R.ok(len(comp) >= 1, '%s: %s: new chunks are compressed' % (r.name, what), 'append.py', '', r):
        return
    us, total, problems = units(r, comp)
    for x, p in problems:
        R.ok(False, '%s: every new chunk is handled' % r.name, x.site, p, r)
    P_ = lambda t: subst(t, v.plan)
    R.ok(same(v.planned, P_(v(total)), P_(v.n2)), '%s: as many new chunks as planned' % r.name, site_of(comp),
         '%s vs %s' % (show(v(total)), show(v.n2)), r)
    k_ = S('k_', 'int')
    starts = []
    at_raw, at_out = v.btr, end
    for u in us:
        l = u.loop
        site = u.ev.site
        G = list(F)
        if l is not None:
            G = F + v.pc(l.end_pc or ()) + [ge0(l.idx), ge0(sub(sub(v(l.trip), ONE), l.idx))]
        k = add(v(u.base), u.idx)
        q = rel(G, v.pc(u.ev.pc))
        R.ok(not q, '%s: no new chunk is skipped' % r.name, site, str([show(x) for x in q]), r)
        d = norm(G, v(u.ev.x['canon'].get('bytesobj')))
        size = phi(eq(k, sub(v.n2, ONE)), v.l2, v.c2)
        if not R.ok(d.op == 'rd' and d.args[0] is r.new, '%s: new chunks come from the new file' % r.name, site, show(d), r):
            continue
        per = (lambda x: contains(x, l.idx)) if l is not None else (lambda x: False)
        G2 = [P_(x) for x in G if per(x)] + v.planned
        got = norm(F, v(u.ev.x['canon'].get('bytesobj')))
        R.ok(same(G2, P_(got.args[3]), P_(size)) or same(G, d.args[3], size), '%s: new chunk k has the planned size' % r.name, site,
             '%s vs %s' % (show(d.args[3]), show(size)), r)
        rp = raw_pos(r, l, d, u)
        first = rp if l is None else carried(l, rp)[0]
        R.ok(same(F, v(first), at_raw) or same(v.planned, P_(v(first)), P_(at_raw)),
             '%s: new chunks start behind the bytes that filled up the last one' % r.name if u is us[0] else
             '%s: the new file is read front to back' % r.name, site, '%s vs %s' % (show(v(first)), show(at_raw)), r)
        if l is not None:
            p1 = carried(l, rp)[1]
            # (there is nothing to say about the position behind the last chunk)
            more = G + [ge0(sub(sub(v(l.trip), const(2)), l.idx))]
            more2 = [P_(x) for x in more if contains(x, l.idx)] + v.planned
            R.ok(same(more2, P_(v(p1)), P_(add(v(rp), got.args[3]))) or same(more, v(p1), add(v(rp), d.args[3])),
                 '%s: the new file is read front to back' % r.name,
                 site, '%s vs %s' % (show(v(p1)), show(add(v(rp), d.args[3]))), r)
            at_raw = v(subst(rp, {l.idx: l.trip}))
        else:
            at_raw = add(v(rp), d.args[3])
        check_args(R, v, u.ev, G)
        cpos, cdata = check_chunk(R, v, G, evs, u.ev, 'new chunk')
        if cpos is None:
            continue
        ws = [x for x in evs if x.loops == u.ev.loops and contains(x.args[1], u.ev.res)]
        start = ws[0].x['pos']
        s0 = start if l is None else carried(l, start)[0]
        R.ok(same(F, v(s0), at_out) or same(v.planned, P_(v(s0)), P_(at_out)),
             '%s: new chunks start behind the filled one' % r.name if u is us[0] else
             '%s: new chunks follow each other' % r.name, site, '%s vs %s' % (show(v(s0)), show(at_out)), r)
        if l is not None:
            s1 = carried(l, start)[1]
            R.ok(same(G, v(s1), add(v(start), length(cdata))), '%s: new chunks follow each other' % r.name, site,
                 '%s vs %s' % (show(v(s1)), show(add(v(start), length(cdata)))), r)
            at_out = v(subst(start, {l.idx: l.trip}))
        else:
            at_out = add(v(start), length(cdata))
        starts.append((u, v(start)))
    hs = check_header(R, v, F, evs, v.l2, add(v.n, v.n2), sub(v.app, v.n2), what)
    known = [e.res] + [u.ev.res for u in us]
    tab_ = [x for x in evs if x not in hs and not any(contains(x.args[1], y) and x.loops == z for y, z in
                                                     [(e.res, ())] + [(u.ev.res, u.ev.loops) for u in us])]
    if not R.ok(bool(tab_), '%s: the offsets are rewritten' % r.name, 'append.py', 'no such write', r):
        return
    site = site_of(tab_)
    R.ok(not rel(F, v.pc(tab_[0].pc)), '%s: the offsets are always rewritten' % r.name, site, '', r)
    last = max(x.seq for x in evs if any(contains(x.args[1], y) for y in known) and x not in tab_)
    tpos = norm(F, v(tab_[0].x['pos']))
    lay_data, gap = table_bytes(v, F, tab_)
    R.ok(not gap, '%s: the offsets are one run' % r.name, site, '', r)
    first = sub(tpos, v.off_pos)
    full = same(F, tpos, v.off_pos)
    only_new = not full and same(F, tpos, add(v.off_pos, mul(const(8), v.n)))
    R.ok(full or only_new, '%s: the offsets are written to the table' % r.name, site,
         '%s vs %s' % (show(tpos), show(v.off_pos)), r)
    count = add(v.n, v.n2) if full else v.n2
    R.ok(same(F, length(lay_data), mul(const(8), count)), '%s: one offset per chunk' % r.name, site,
         '%s vs %s' % (show(length(lay_data)), show(mul(const(8), count))), r)
    from .pack import element
    if full:
        G = F + [ge0(k_), ge0(sub(sub(v.n, ONE), k_))]
        got = norm(G, element(lay_data, k_))
        want = slice_(v.table, mul(const(8), k_), mul(const(8), add(k_, ONE)))
        R.ok(same(G, got, want) or same(G, got, pk('<q', unpk('<q', want))), '%s: the old offsets are kept' % r.name, site,
             '%s vs %s' % (show(got), show(want)), r)
    for u, start in starts:
        G = F + [ge0(k_), ge0(sub(sub(v(u.trip), ONE), k_))]
        k = add(v(u.base), k_)
        if u.loop is None:
            G, k = list(F), v(u.base)
        got = norm(G, element(lay_data, add(v.n, k) if full else k))
        want = pk('<q', norm(G, subst(start, {u.idx: k_}) if u.loop is not None else start))
        G2 = [P_(x) for x in G if contains(x, k_)] + v.planned
        R.ok(same(G, got, want) or same(G2, norm(G2, P_(resolve(v.planned, got))), norm(G2, P_(want))), '%s: offset of new chunk k is its position' % r.name, site,
             '%s vs %s' % (show(got), show(want)), r)
    if r.fp:
        R.ok(same(F, norm(F, v(r.ret)), v.n2), '%s: the number of new chunks is returned' % r.name, 'append.py',
             show(norm(F, v(r.ret))), r)


def resolve(F, t):
    """gates on disjunctions the facts establish"""
    m = {}
    for x in atoms(t):
        if x.op == 'phi' and x.args[0].op == 'or' and holds(F, x.args[0]):
            m[x] = x.args[1]
    return subst(t, m) if m else t


def table_bytes(v, F, evs):
    items = []
    gap = False
    pos = v(evs[0].x['pos'])
    for it in tree(evs):
        if isinstance(it, Loopy):
            l = it.loop
            d = cat(*[v(x.args[1]) for x in it.items if not isinstance(x, Loopy)])
            d = bmap(l.idx, d, v(l.trip))
        else:
            d = v(it.args[1])
            if not same(F, v(it.x['pos']), pos):
                gap = True
        items.append(d)
        pos = add(pos, length(d))
    return norm(F, cat(*items)), gap


def raw_pos(r, l, d, u):
    for e in r.events:
        if e.kind == 'read' and e.args[0] is r.new and (l in e.loops if l is not None else
                                                        not e.loops and contains(u.ev.x['canon'].get('bytesobj'), e.res)):
            return e.x['pos']
    return d.args[2]


# ---------------------------------------------------------------- C15
def c15(C, R, tier):
    for r in contexts15(C, tier):
        v = prepare(C, R, r)
        if v is None:
            continue
        after_write(R, v)
        for e in v.writes:
            F = v.pc(e.pc) + flat(v.facts)
            R.ok(holds(F, v.has_offsets), '%s: a file without offsets is refused before writing' % r.name, e.site, '', r)
            for i, (nm, n) in enumerate(CHECKSUM_SIZES):
                if n:
                    a = mk('rd', r.src, ZERO, add(v.raw.args[2], v.raw.args[3]), const(n), ty='bytes') \
                        if v.raw.op == 'rd' else NONE
                    R.ok(verified(F + [eq(v.cks, const(i))], a, digest_spec(nm, v.raw)),
                         '%s: the %s digest of the last chunk is verified before writing' % (r.name, nm), e.site, '', r)
            if not contradictory(v.B + v.pc(e.pc)):
                R.ok(holds(v.B + v.pc(e.pc), ge0(sub(v.app, v.n2))), '%s: the capacity is checked before writing' % r.name,
                     e.site, 'needs %s chunks' % show(v.n2)[:100], r)
        space = [(s, x, e) for s, x, e in r.raises if is_exc(C, x, 'NotEnoughSpace')]
        R.ok(bool(space), '%s: NotEnoughSpace is raised' % r.name, 'append.py', '', r)
        for s, x, e in space:
            G = v.pc(s.pc) + flat(v.facts) + v.consistent
            R.ok(contradictory_deep(G + [ge0(sub(v.btr, v.N))]) and
                 contradictory_deep(G + [ge0(sub(sub(v.N, v.btr), ONE)), ge0(sub(v.app, v.n2))]),
                 '%s: data that fits the capacity is not refused' % r.name, e.site, 'NotEnoughSpace although it fits', r)
    # malformed Blosc arguments
    keys = list(BA)
    for missing in keys if tier == 'thorough' else keys[:1]:
        malformed(C, R, [k for k in keys if k != missing], 'without ' + missing)
    malformed(C, R, keys + ['level'], 'with an unknown key')


def contexts15(C, tier):
    yield append_ctx(C, 'dict', True)
    yield append_ctx(C, 'none', False)
    if tier == 'thorough':
        yield append_ctx(C, 'inst', True)


def malformed(C, R, keys, what):
    def body(I, st, N):
        d = I.alloc('dict', {'site': ('?', 0), 'caller': 'blosc_args'})
        st.d[('c', d.args[0])] = mk('dict', *[(const(k), BA.get(k, ONE)) for k in keys], ty='dict')
        a = I.call(mk('ext', 'builtins.open'), [ORIG, const('r+b')], [], st, N)
        b = I.call(mk('ext', 'builtins.open'), [NEW, const('rb')], [], st, N)
        return I.call(C.get('append', 'append_fp'), [a, b, S('new_size', 'int')], [('blosc_args', d)], st, N)
    r = R.context(C.run('append_fp: blosc arguments %s' % what, body))
    R.ok(r.st is None, '%s: refused' % r.name, 'append.py', 'completes', r)
    ws = [e for e in r.events if e.kind in ('write', 'truncate')]
    R.ok(not ws, '%s: refused before writing' % r.name, site_of(ws), '', r)


def after_write(R, v):
    """no exception can leave once something was written"""
    r = v.r
    for s, x, e in r.raises:
        if e is None:
            continue
        pc = v.pc(s.pc) + flat(v.facts)
        for w in v.writes:
            if w.seq < e.seq:
                R.ok(contradictory(pc + v.pc(w.pc)), '%s: refused before anything is written' % r.name, e.site,
                     '%s is raised after the write at %s' % (show(x)[:120], w.site), r)
    bad = [e for e in r.events if e.kind == 'truncate' and e.args[0] is r.src or e.kind == 'open' and
           e.arg(0, 'file') is ORIG and not (is_const(e.arg(1, 'mode') or NONE) and 'r' in str(cval(e.arg(1, 'mode'))))]
    R.ok(not bad, '%s: the target is not emptied' % r.name, site_of(bad), '', r)
