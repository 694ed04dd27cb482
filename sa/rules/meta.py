"""Rules over the metadata section."""
from ..contexts import *   # noqa
from ..spec import *   # noqa
from .cli import pcs
from .pack import decompose
from .unpack import verified, is_exc, contradictory_deep


class Section(object):
    """one place where a metadata section is written, with the parameters that were asked for"""
    sub = {}


def ref(C, r, f, args, kw=()):
    return quiet_call(C, r.st.fork(), mk('ext', f), args, kw)


def write_sections(C, R, tier):
    ks = [('bytes', False, True, 'inst'), ('nd_bytes', False, True, 'inst'), ('bytes', True, True, 'none')]
    if tier == 'thorough':
        ks += [('file', False, True, 'inst'), ('bytes_file', False, True, 'inst'), ('nd_file', False, True, 'inst'),
               ('nd_bytes', True, True, 'none'), ('file', True, True, 'none')]
    for k in ks:
        r = R.context(pack_ctx(C, *k))
        s = decompose(C, R, r)
        if s is None:
            continue
        q = Section()
        q.r, q.F, q.kind = r, list(s.F), 'pack'
        q.data = s.pre.data
        q.site = site_of([e for e in s.pre.events if e.x['pos'] is not ZERO][:1]) or site_of(s.pre.events)
        q.gaps = s.pre.gaps
        q.out = s.out
        if k[3] == 'inst':
            q.magic, q.cks, q.codec, q.level = b'JSON', MA['meta_checksum'], MA['meta_codec'], MA['meta_level']
            q.max = lambda T: MA['max_meta_size']
        else:
            q.magic, q.cks, q.codec, q.level = b'JSON', const('adler32'), const('zlib'), const(6)
            q.max = lambda T: mul(const(10), length(T))
        q.evs = [e for e in s.evs if e.seq < s.first and e.x['pos'] is not ZERO]
        yield finish(C, q)
    for given in (False, True):
        r = R.context(rewrite_ctx(C, given))
        if not R.ok(r.st is not None and r.src is not None, '%s: completes' % r.name, 'append.py', '', r):
            continue
        spec = FileSpec(r.src)
        q = Section()
        q.r, q.F, q.kind, q.spec = r, list(r.st.pc), 'rewrite', spec
        q.evs = [e for e in r.events if e.kind == 'write' and e.args[0] is r.src]
        q.site = site_of(q.evs)
        q.out = r.src
        if not R.ok(bool(q.evs), '%s: the section is written' % r.name, 'append.py', '', r):
            continue
        lay = run_bytes(tree(q.evs), q.F, const(32))
        q.gaps = lay.gaps
        # the allocated size found in the old section, as a number of its own
        alloc = S('allocated', 'int')
        oldc = S('old_checksum', 'int')
        sub_ = {spec.m_max: alloc, slice_(spec.M, const(16), const(20)): pk('<I', alloc),
                spec.m_cks: oldc, slice_(spec.M, const(9), const(10)): pk('<B', oldc)}
        q.data = cat(const(b'?' * 32), subst(lay.data, sub_))
        q.F = [subst(f, sub_) for f in q.F] + [ge0(alloc), ge0(sub(const(2 ** 32 - 1), alloc)), ge0(oldc),
                                                  ge0(sub(const(8), oldc))]
        q.sub = sub_
        q.magic = b'JSON'
        q.cks = S('checksum', 'str') if given else tab(oldc, [(const(i), const(nm)) for i, (nm, _) in
                                                                   enumerate(CHECKSUM_SIZES)])
        q.codec = S('codec', 'str') if given else const('zlib')
        q.level = S('level', 'int') if given else const(6)
        q.max = lambda T, alloc=alloc: alloc
        yield finish(C, q)


def finish(C, q):
    r = q.r
    texts = []
    for e in r.of('json.dumps'):
        if e.res is not None and e.res not in texts:
            texts.append(e.res)
    q.T = q.Z = None
    cand = []
    for t in texts:
        T = ref_encode(C, r, t)
        if T is not None:
            cand.append(T)
    for T in cand:
        if contains(q.data, T) or q.T is None:
            q.T = T
    if q.T is not None:
        q.Z = ref(C, r, 'zlib.compress', [q.T, q.level])
    return q


def ref_encode(C, r, t):
    I = C.I
    st = r.st.fork()
    m = I.getattr(t, 'encode', st, Node())
    return quiet_call(C, st, m, [])


def cases(q):
    """(name, assumptions, stored bytes, codec id, level recorded)"""
    T, Z = q.T, q.Z
    small = ge0(sub(length(T), length(Z)))
    out = []
    if not is_const(q.codec):
        out.append(('no compression requested', [eq(q.codec, const('None'))], T, 0, ZERO))
    on = [] if is_const(q.codec) else [eq(q.codec, const('zlib'))]
    out.append(('compression pays off', on + [small], Z, 1, q.level))
    out.append(('compression does not pay off', on + [not_(small)], T, 0, ZERO))
    return out


def usable(R, q):
    if not R.ok(q.T is not None and q.Z is not None, '%s: the metadata is serialised' % q.r.name, q.site, '', q.r):
        return False
    return True


def cks_cases(q):
    if is_const(q.cks):
        return [(i, nm, n, []) for i, (nm, n) in enumerate(CHECKSUM_SIZES) if nm == cval(q.cks)]
    return [(i, nm, n, [eq(q.cks, const(nm))]) for i, (nm, n) in enumerate(CHECKSUM_SIZES)]


def magic_facts(q):
    if q.kind == 'rewrite':
        raw = slice_(q.spec.M, ZERO, const(8))
        return [eq(raw, const(b'JSON\0\0\0\0')), eq(mk('call', 'str.strip', (raw, const(b'\0')), (), ty='bytes'), const(b'JSON'))]
    return []


# ---------------------------------------------------------------- C14
def c14(C, R, tier):
    for q in write_sections(C, R, tier):
        if not usable(R, q):
            continue
        T = q.T
        D = q.data
        for nm, F1, stored, cid, level in cases(q):
            F = q.F + F1 + magic_facts(q)
            if contradictory(F):
                R.ok(False, '%s: the case is possible (%s)' % (q.r.name, nm), q.site, '', q.r)
                continue
            fields = [('serializer', 0, 8, const(b'JSON\0\0\0\0')), ('options', 8, 9, const(b'\0')),
                      ('codec', 10, 11, const(bytes([cid]))), ('level', 11, 12, pk('<B', level)),
                      ('size of the text', 12, 16, pk('<I', length(T))),
                      ('allocated size', 16, 20, pk('<I', q.max(T))),
                      ('stored size', 20, 24, pk('<I', length(stored)))]
            D = norm(F, q.data)
            for f, a, b, want in fields:
                got = cut(F, D, const(32 + a), const(32 + b)) or NONE
                R.ok(same(F, got, want), '%s: %s: %s is recorded' % (q.r.name, nm, f), q.site,
                     '%s vs %s' % (show(got), show(want)), q.r)
            got = cut(F, D, const(64), add(const(64), length(stored))) or NONE
            R.ok(same(F, got, stored), '%s: %s: the stored bytes' % (q.r.name, nm), q.site,
                 '%s vs %s' % (show(got), show(stored)), q.r)
        for i, nm, n, F1 in cks_cases(q):
            F = q.F + F1 + magic_facts(q)
            got = cut(F, norm(F, q.data), const(41), const(42)) or NONE
            R.ok(same(F, got, const(bytes([i]))), '%s: the checksum is recorded (%s)' % (q.r.name, nm), q.site, show(got),
                 q.r)
    for r, spec, le in readers(C, R, tier):
        check_reader(C, R, r, spec, le)


def readers(C, R, tier):
    for r in read_contexts(C, tier):
        R.context(r)
        if r.src is None:
            R.ok(False, '%s: opens the file' % r.name, '', '', r)
            continue
        le = [e for e in r.of('json.loads')]
        if not R.ok(bool(le), '%s: metadata is deserialised' % r.name, '', 'no json.loads reached', r):
            continue
        yield r, FileSpec(r.src), le


def check_reader(C, R, r, spec, le):
    st = r.st or C.I.base
    raw = spec.metadata
    un = mk('call', 'zlib.decompress', (raw,), (), ty='bytes')
    for e in r.of('zlib.decompress'):
        if e.args and e.args[0] is raw and e.res is not None:
            un = e.res
    for e in le:
        F = list(e.pc)
        for i, want in ((0, raw), (1, un)):
            F2 = F + [eq(spec.m_codec, const(i))]
            got = norm(F2, e.args[0])
            if got.op == 'call' and got.args[0] in ('str.strip', 'str.lstrip', 'str.rstrip') and len(got.args[1]) == 1:
                got = got.args[1][0]       # white space around it means nothing to JSON
            w = [want, mk('decode', want, ty='str')]
            if got.op == 'decode' or got.op == 'call' and 'decode' in str(got.args[0]):
                g = got.args[0] if got.op == 'decode' else got.args[1][0]
                ok = isinstance(g, T) and same(F2, g, want)
            else:
                ok = got in w or same(F2, got, want)
            R.ok(ok, '%s: metadata is decompressed with the recorded codec (%s)' % (r.name, ['None', 'zlib'][i]), e.site,
                 '%s vs %s' % (show(got), show(want)), r)
        raw8 = slice_(spec.M, ZERO, const(8))
        known = [f for f in F if contains(f, raw8)]
        R.ok(any(f.op == 'eq' and const(b'JSON') in f.args for f in flat(F) if contains(f, raw8)),
             '%s: the recorded serializer is used' % r.name, e.site, str([show(f) for f in known]), r)


# ---------------------------------------------------------------- C13
def c13(C, R, tier):
    for q in write_sections(C, R, tier):
        if not usable(R, q):
            continue
        T = q.T
        r = q.r
        R.ok(not q.gaps, '%s: the section is written front to back' % r.name, q.site,
             str([(e.site, show(a), show(b)) for e, a, b in q.gaps]), r)
        mx = q.max(T)
        for nm, F1, stored, cid, level in cases(q):
            cc = cks_cases(q)
            for i, cn, n, F2 in (cc if tier == 'thorough' else cc[:1] + cc[-1:] if len(cc) > 1 else cc):
                F = q.F + F1 + F2 + magic_facts(q)
                end = add(add(const(64), mx), const(n))
                D = norm(F, q.data)
                pad = rep(const(b'\0'), sub(mx, length(stored)))
                want = cat(stored, pad)
                got = cut(F, D, const(64), add(const(64), mx)) or NONE
                R.ok(same(F, got, want), '%s: the metadata is padded to the allocated size (%s, %s)' % (r.name, nm, cn),
                     q.site, '%s vs %s' % (show(got), show(want)), r)
                if q.kind == 'rewrite' or r.name.endswith(':metadata'):
                    R.ok(same(F, length(D), end), '%s: the section has its announced size (%s, %s)' %
                         (r.name, nm, cn), q.site, '%s vs %s' % (show(length(D)), show(end)), r)
            fits = ge0(sub(mx, length(stored)))
            for e in q.evs:
                R.ok(holds([subst(f, q.sub) for f in e.pc] + F1, fits), '%s: nothing is written unless it fits (%s)' % (r.name, nm), e.site,
                     'write not dominated by the size check', r)
            rs = [(s, x, e) for s, x, e in r.raises if is_exc(C, x, 'MetadataSectionTooSmall')]
            R.ok(bool(rs) or holds(F1, fits), '%s: metadata that does not fit is refused' % r.name, q.site,
                 'MetadataSectionTooSmall is never raised', r)
            for s, x, e in rs:
                R.ok(contradictory_deep([subst(f, q.sub) for f in s.pc] + F1 + [fits]), '%s: metadata that fits is accepted (%s)' % (r.name, nm),
                     e.site if e else '', 'MetadataSectionTooSmall although it fits', r)
        if q.kind == 'rewrite':
            rewrite_rules(C, R, q)


def rewrite_rules(C, R, q):
    r, spec = q.r, q.spec
    old = [e.res for e in r.of('json.loads')]
    end = add(add(const(64), spec.m_max), spec.m_dsize)
    for e in q.evs:
        F = list(e.pc)
        R.ok(holds(F, ge0(sub(e.x['pos'], const(32)))), '%s: nothing before the section is written' % r.name, e.site,
             show(e.x['pos']), r)
        R.ok(any(holds(F, not_(eq(o, META))) for o in old), '%s: unchanged metadata is refused before writing' % r.name,
             e.site, '', r)
        if not is_const(q.cks):
            same_size = or_(*[and_(eq(q.cks, const(a)), eq(spec.m_cks, const(j)))
                              for a, n in CHECKSUM_SIZES for j, (b, m) in enumerate(CHECKSUM_SIZES) if n == m])
            for a, n in CHECKSUM_SIZES:
                for j, (b, m) in enumerate(CHECKSUM_SIZES):
                    if n != m and q.cks.op == 'sym':
                        R.ok(contradictory_deep(F + [eq(q.cks, const(a)), eq(spec.m_cks, const(j))]),
                             '%s: a checksum of another length is refused before writing (%s for %s)' % (r.name, a, b),
                             e.site, '', r)
    for s, x, e in r.raises:
        if is_exc(C, x, 'NoChangeInMetadata'):
            R.ok(any(contradictory_deep(list(s.pc) + [not_(eq(o, META))]) for o in old),
                 '%s: changed metadata is accepted' % r.name, e.site if e else '', pcs(s.pc), r)
    bad = [e for e in r.events if e.kind == 'truncate' and e.args[0] is r.src]
    R.ok(not bad, '%s: the file is not truncated' % r.name, site_of(bad), '', r)
    if is_const(q.cks) or q.cks.op != 'sym':
        return
    for s, x, e in r.raises:
        if is_exc(C, x, 'ChecksumLengthMismatch'):
            for a, n in CHECKSUM_SIZES:
                for j, (b, m) in enumerate(CHECKSUM_SIZES):
                    if n == m and (a == b or tm_quick(a, b)):
                        R.ok(contradictory_deep(list(s.pc) + [eq(q.cks, const(a)), eq(spec.m_cks, const(j))]),
                             '%s: a checksum of the same length is accepted (%s for %s)' % (r.name, a, b), e.site, '', r)


def tm_quick(a, b):
    return True


# ---------------------------------------------------------------- C06
def c06(C, R, tier):
    for q in write_sections(C, R, tier):
        if not usable(R, q):
            continue
        mx = q.max(q.T)
        for nm, F1, stored, cid, level in cases(q):
            F0 = q.F + F1 + magic_facts(q)
            D = norm(F0, q.data)
            a = add(const(64), mx)
            tail = cut(F0, D, a) or NONE
            for i, cn, n, F2 in cks_cases(q):
                F = F0 + F2
                got = norm(F, tail)
                if is_const(q.cks) and got is not NONE:
                    got = cut(F, got, ZERO, const(n)) or NONE
                want = digest_spec(cn, stored)
                R.ok(same(F, got, want), '%s: the %s digest of the stored metadata follows the allocated space (%s)' %
                     (q.r.name, cn, nm), q.site, '%s vs %s' % (show(got), show(want)), q.r)
    for r, spec, le in readers(C, R, tier):
        uses = le + [e for e in r.of('zlib.decompress') if contains(e.args[0], spec.metadata)]
        for e in uses:
            for i, (nm, n) in enumerate(CHECKSUM_SIZES):
                if not n:
                    continue
                F = list(e.pc) + [eq(spec.m_cks, const(i))]
                stored = spec.rd(add(const(64), spec.m_max), const(n))
                R.ok(verified(F, stored, digest_spec(nm, spec.metadata)), '%s: the %s digest is verified before the '
                     'metadata is used' % (r.name, nm), e.site, 'the comparison does not dominate the use', r)
        rs = [(s, x, e) for s, x, e in r.raises if is_exc(C, x, 'ChecksumMismatch') and
              any(contains(c, spec.metadata) or contains(c, spec.m_cks) for c in s.pc)
              and not any(e is not None and l for l in e.loops) and before(e, le)]
        R.ok(bool(rs), '%s: damaged metadata raises ChecksumMismatch' % r.name, le[0].site, '', r)
        for i, (nm, n) in enumerate(CHECKSUM_SIZES):
            g = [eq(spec.rd(add(const(64), spec.m_max), const(n)), digest_spec(nm, spec.metadata))] if n else []
            for s, x, e in rs:
                R.ok(contradictory_deep(list(s.pc) + [eq(spec.m_cks, const(i))] + g),
                     '%s: intact metadata is accepted (%s)' % (r.name, nm), e.site, 'ChecksumMismatch although right', r)


def before(e, le):
    return e is not None and e.seq < min(x.seq for x in le)
