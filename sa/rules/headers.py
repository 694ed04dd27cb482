"""Rules over the two headers, the algorithm tables and the Blosc chunk header."""
from ..contexts import *   # noqa
from ..spec import *   # noqa

HF = [('format_version', S('format_version', 'int')), ('offsets', None), ('metadata', None),
      ('checksum', S('checksum', 'str')), ('typesize', S('typesize', 'int')), ('chunk_size', S('chunk_size', 'int')),
      ('last_chunk', S('last_chunk', 'int')), ('nchunks', S('nchunks', 'int')),
      ('max_app_chunks', S('max_app_chunks', 'int'))]
MF = [('magic_format', S('magic_format', 'bytes')), ('meta_options', const('00000000')),
      ('meta_checksum', S('meta_checksum', 'str')), ('meta_codec', S('meta_codec', 'str')),
      ('meta_level', S('meta_level', 'int')), ('meta_size', S('meta_size', 'int')),
      ('max_meta_size', S('max_meta_size', 'int')), ('meta_comp_size', S('meta_comp_size', 'int')),
      ('user_codec', S('user_codec', 'bytes'))]
HBUF = S('buffer_', 'bytes')
CODEC_IDS = ['None', 'zlib']
MAXB, MAXT, MAXN, MAX32 = 2147483631, 255, 2 ** 63 - 1, 2 ** 32 - 1


def header_ctx(C, off, meta, encode=True):
    key = ('hdr', off, meta, encode)
    if key not in C.cache:
        box = {}

        def body(I, st, N):
            kw = [(k, v if v is not None else const(off if k == 'offsets' else meta)) for k, v in HF]
            h = I.call(C.get('headers', 'BloscpackHeader'), [], kw, st, N)
            box['attrs'] = dict((k, I.getattr(h, k, st, N)) for k, _ in HF)
            return I.call(I.getattr(h, 'encode', st, N), [], [], st, N) if encode else h
        r = C.run('header:%s%s%s' % ('encode' if encode else 'create', ':offsets' if off else '',
                                     ':metadata' if meta else ''), body)
        r.box = box
        C.cache[key] = r
    return C.cache[key]


def meta_header_ctx(C, encode=True):
    key = ('mhdr', encode)
    if key not in C.cache:
        box = {}

        def body(I, st, N):
            h = I.call(C.get('headers', 'MetadataHeader'), [], list(MF), st, N)
            box['attrs'] = dict((k, I.getattr(h, k, st, N)) for k, _ in MF)
            return I.call(I.getattr(h, 'encode', st, N), [], [], st, N) if encode else h
        r = C.run('metadata header:%s' % ('encode' if encode else 'create'), body)
        r.box = box
        C.cache[key] = r
    return C.cache[key]


def decode_ctx(C, cls, fields):
    key = ('decode', cls)
    if key not in C.cache:
        box = {}

        def body(I, st, N):
            d = I.getattr(C.get('headers', cls), 'decode', st, N)
            if cls == 'MetadataHeader':     # its callers read just as many bytes
                st.assume(eq(length(HBUF), const(32)))
            h = I.call(d, [HBUF], [], st, N)
            box['attrs'] = dict((k, I.getattr(h, k, st, N)) for k, _ in fields)
            return h
        r = C.run('%s.decode' % cls, body)
        r.box = box
        C.cache[key] = r
    return C.cache[key]


def u(fm, a, b, buf=HBUF):
    return unpk(fm, slice_(buf, const(a), const(b)))


def where(r, what):
    return 'headers.py (%s)' % what


def completes(R, r, site):
    return R.ok(r.st is not None, '%s: completes for valid values' % r.name, site, 'no normal completion', r)


# ---------------------------------------------------------------- C07
def c07(C, R, tier):
    V = dict(HF)
    site = where(None, 'BloscpackHeader.encode')
    for off in (True, False):
        for meta in (True, False):
            r = R.context(header_ctx(C, off, meta))
            if not completes(R, r, site):
                continue
            F = list(r.st.pc)
            fields = [('magic', 0, 4, const(b'blpk')), ('format version', 4, 5, pk('<B', V['format_version'])),
                      ('options', 5, 6, const(bytes([(1 if off else 0) | (2 if meta else 0)]))),
                      ('typesize', 7, 8, pk('<B', V['typesize'])), ('chunk size', 8, 12, pk('<i', V['chunk_size'])),
                      ('last chunk size', 12, 16, pk('<i', V['last_chunk'])),
                      ('number of chunks', 16, 24, pk('<q', V['nchunks'])),
                      ('append capacity', 24, 32, pk('<q', V['max_app_chunks']))]
            R.ok(same(F, length(r.ret), const(32)), '%s: the header is 32 bytes' % r.name, site, show(length(r.ret)), r)
            for nm, a, b, want in fields:
                got = simp(F, slice_(r.ret, const(a), const(b)))
                R.ok(same(F, got, want), '%s: %s at bytes %d:%d' % (r.name, nm, a, b), site,
                     '%s vs %s' % (show(got), show(want)), r)
            for i, (nm, _) in enumerate(CHECKSUM_SIZES):
                F2 = F + [eq(V['checksum'], const(nm))]
                got = simp(F2, slice_(r.ret, const(6), const(7)))
                R.ok(same(F2, got, const(bytes([i]))), '%s: checksum id of %s' % (r.name, nm), site, show(got), r)
    r = R.context(decode_ctx(C, 'BloscpackHeader', HF))
    site = where(None, 'BloscpackHeader.decode')
    if not completes(R, r, site):
        return
    F = list(r.st.pc)
    A = r.box['attrs']
    want = {'format_version': u('<B', 4, 5), 'offsets': eq(bit(u('<B', 5, 6), 0), ONE),
            'metadata': eq(bit(u('<B', 5, 6), 1), ONE), 'typesize': u('<B', 7, 8), 'chunk_size': u('<i', 8, 12),
            'last_chunk': u('<i', 12, 16), 'nchunks': u('<q', 16, 24), 'max_app_chunks': u('<q', 24, 32)}
    for k, w in want.items():
        R.ok(same(F, A[k], w), '%s: field %s is read from its place' % (r.name, k), site,
             '%s vs %s' % (show(A[k]), show(w)), r)
    for i, (nm, _) in enumerate(CHECKSUM_SIZES):
        F2 = F + [eq(u('<B', 6, 7), const(i))]
        R.ok(same(F2, simp(F2, A['checksum']), const(nm)), '%s: checksum id %d is %s' % (r.name, i, nm), site,
             show(simp(F2, A['checksum'])), r)
    # no valid header is refused
    valid = [eq(length(HBUF), const(32)), eq(slice_(HBUF, ZERO, const(4)), const(b'blpk'))] + \
        [eq0(bit(u('<B', 5, 6), i)) for i in range(2, 8)] + [ge0(sub(const(8), u('<B', 6, 7)))] + \
        ranges(dict((k, want[k]) for k in ('format_version', 'typesize', 'chunk_size', 'last_chunk', 'nchunks',
                                           'max_app_chunks')))
    for s, x, e in r.raises:
        R.ok(contradictory(list(s.pc) + valid), '%s: a valid header is decoded' % r.name, e.site if e else site,
             'raises %s' % show(x)[:120], r)


# ---------------------------------------------------------------- C08
def pad(t, n):
    return cat(t, rep(const(b'\0'), sub(const(n), length(t))))


def c08(C, R, tier):
    V = dict(MF)
    r = R.context(meta_header_ctx(C))
    site = where(None, 'MetadataHeader.encode')
    if completes(R, r, site):
        F = list(r.st.pc)
        want = [pad(V['magic_format'], 8), const(b'\0'), pk('<B', tab(V['meta_checksum'], [
            (const(nm), const(i)) for i, (nm, _) in enumerate(CHECKSUM_SIZES)])), pk('<B', tab(V['meta_codec'], [
                (const(nm), const(i)) for i, nm in enumerate(CODEC_IDS)])), pk('<B', V['meta_level']),
                pk('<I', V['meta_size']), pk('<I', V['max_meta_size']), pk('<I', V['meta_comp_size']),
                pad(V['user_codec'], 8)]
        for cname, cid in ((nm, i) for i, nm in enumerate(CODEC_IDS)):
            for i, (nm, _) in enumerate(CHECKSUM_SIZES):
                F2 = F + [eq(V['meta_checksum'], const(nm)), eq(V['meta_codec'], const(cname))]
                m = {V['meta_checksum']: const(nm), V['meta_codec']: const(cname)}
                got, w = subst(r.ret, m), subst(cat(*want), m)
                R.ok(same(F2, got, w), '%s: the documented layout (%s, %s)' % (r.name, nm, cname), site,
                     '%s vs %s' % (show(got), show(w)), r)
    r = R.context(decode_ctx(C, 'MetadataHeader', MF))
    site = where(None, 'MetadataHeader.decode')
    if not completes(R, r, site):
        return
    F = list(r.st.pc)
    A = r.box['attrs']
    want = {'meta_level': u('<B', 11, 12), 'meta_size': u('<I', 12, 16), 'max_meta_size': u('<I', 16, 20),
            'meta_comp_size': u('<I', 20, 24)}
    for k, w in want.items():
        R.ok(same(F, A[k], w), '%s: field %s is read from its place' % (r.name, k), site,
             '%s vs %s' % (show(A[k]), show(w)), r)
    for i, (nm, _) in enumerate(CHECKSUM_SIZES):
        F2 = F + [eq(u('<B', 9, 10), const(i))]
        R.ok(same(F2, simp(F2, A['meta_checksum']), const(nm)), '%s: checksum id %d is %s' % (r.name, i, nm), site,
             show(simp(F2, A['meta_checksum'])), r)
    for i, nm in enumerate(CODEC_IDS):
        F2 = F + [eq(u('<B', 10, 11), const(i))]
        R.ok(same(F2, simp(F2, A['meta_codec']), const(nm)), '%s: codec id %d is %s' % (r.name, i, nm), site,
             show(simp(F2, A['meta_codec'])), r)
    for k, a, b in (('magic_format', 0, 8), ('user_codec', 24, 32)):
        R.ok(stripped(A[k], slice_(HBUF, const(a), const(b))), '%s: %s is bytes %d:%d without the padding' %
             (r.name, k, a, b), site, show(A[k]), r)
    bits = [bit(u('<B', 8, 9), i) for i in range(8)]
    R.ok(same(F + [eq0(b) for b in bits], simp(F + [eq0(b) for b in bits], A['meta_options']), const('00000000')),
         '%s: options are byte 8' % r.name, site, show(A['meta_options']), r)
    valid = [eq(length(HBUF), const(32)), ge0(sub(const(8), u('<B', 9, 10))), ge0(sub(const(1), u('<B', 10, 11))),
             ge0(sub(const(9), u('<B', 11, 12)))] + [eq0(b) for b in bits]
    for s, x, e in r.raises:
        extra = [ge0(sub(const(8), length(A[k]))) for k in ('magic_format', 'user_codec')]
        R.ok(contradictory(list(s.pc) + valid + extra), '%s: a valid header is decoded' % r.name, e.site if e else site,
             'raises %s' % show(x)[:120], r)


def stripped(t, raw):
    """t is raw without (leading and) trailing NUL bytes"""
    if t.op == 'call' and t.args[0] in ('str.strip', 'str.rstrip', 'bytes.strip', 'bytes.rstrip'):
        a = list(t.args[1])
        return len(a) == 2 and a[0] is raw and a[1] is const(b'\0')
    return False


# ---------------------------------------------------------------- C09
def c09(C, R, tier):
    r = R.context(header_ctx(C, True, True))
    D = S('data', 'bytes')
    box = {}

    def body(I, st, N):
        look = C.get('checksums', 'CHECKSUMS_LOOKUP')
        for nm, n in CHECKSUM_SIZES:
            h = I.getitem(look, const(nm), st, N)
            box[nm] = (I.call(h, [D], [], st, N), I.getattr(h, 'size', st, N), I.getattr(h, 'name', st, N))
        cl = C.get('metacodecs', 'CODECS_LOOKUP')
        for nm in CODEC_IDS:
            c = I.getitem(cl, const(nm), st, N)
            box['codec', nm] = (I.call(I.getattr(c, 'compress', st, N), [D, S('level', 'int')], [], st, N),
                                I.call(I.getattr(c, 'decompress', st, N), [D], [], st, N),
                                I.getattr(c, 'name', st, N))
        s = I.getitem(C.get('serializers', 'SERIALIZERS_LOOKUP'), const(b'JSON'), st, N)
        box['json'] = (I.call(I.getattr(s, 'dumps', st, N), [META], [], st, N),
                       I.call(I.getattr(s, 'loads', st, N), [S('text', 'str')], [], st, N))
        for mod, nm in (('checksums', 'CHECKSUMS_AVAIL'), ('metacodecs', 'CODECS_AVAIL'),
                        ('serializers', 'SERIALIZERS_AVAIL')):
            t = C.get(mod, nm)
            box[nm] = I.call(I.base.d[('v', 'builtins', 'tuple')], [t], [], st, N) if False else \
                [at(content(st, t), const(i)) for i in range(cval(length(content(st, t))))]
        return NONE
    r = R.context(C.run('algorithm tables', body))
    site = 'checksums.py'
    if not R.ok(r.st is not None, 'the algorithm tables contain every documented entry', site,
                str([show(x)[:100] for s, x, e in r.raises]), r):
        return
    for nm, n in CHECKSUM_SIZES:
        got, size, name = box[nm]
        R.ok(got is digest_spec(nm, D) or same([], got, digest_spec(nm, D)), 'checksum %s computes %s' % (nm, nm), site,
             '%s vs %s' % (show(got), show(digest_spec(nm, D))), r)
        R.ok(size is const(n), 'checksum %s has %d bytes' % (nm, n), site, show(size), r)
        R.ok(name is const(nm), 'checksum %s is registered under its name' % nm, site, show(name), r)
    R.ok(box['CHECKSUMS_AVAIL'] == [const(nm) for nm, _ in CHECKSUM_SIZES], 'the checksum ids are the documented ones',
         site, str([show(x) for x in box['CHECKSUMS_AVAIL']]), r)
    site = 'metacodecs.py'
    R.ok(box['CODECS_AVAIL'] == [const(nm) for nm in CODEC_IDS], 'the codec ids are the documented ones', site,
         str([show(x) for x in box['CODECS_AVAIL']]), r)
    c, d, nm = box['codec', 'None']
    R.ok(c is D and d is D and nm is const('None'), "codec None leaves the data alone", site, '%s, %s' % (show(c), show(d)), r)
    c, d, nm = box['codec', 'zlib']
    R.ok(c.op == 'call' and c.args[0] == 'zlib.compress' and c.args[1][0] is D and nm is const('zlib'),
         'codec zlib compresses with zlib', site, show(c), r)
    R.ok(c.op == 'call' and S('level', 'int') in c.args[1] + tuple(v for _, v in c.args[2]),
         'codec zlib uses the given level', site, show(c), r)
    R.ok(d.op == 'call' and d.args[0] == 'zlib.decompress' and d.args[1][0] is D and len(d.args[1]) == 1,
         'codec zlib decompresses with zlib', site, show(d), r)
    site = 'serializers.py'
    R.ok(box['SERIALIZERS_AVAIL'] == [const(b'JSON')], 'JSON is the serializer', site,
         str([show(x) for x in box['SERIALIZERS_AVAIL']]), r)
    dj, lj = box['json']
    ev = [e for e in r.events if e.kind in ('json.dumps', 'json.loads')]
    de = [e for e in ev if e.kind == 'json.dumps']
    le = [e for e in ev if e.kind == 'json.loads']
    R.ok(len(de) == 1 and de[0].res is dj and de[0].args[0] is META, 'JSON serialises the metadata itself', site, show(dj), r)
    R.ok(len(le) == 1 and le[0].res is lj and le[0].args[0] is S('text', 'str'), 'JSON deserialises the text itself', site,
         show(lj), r)
    for e in le:
        bad = [k for k, v in e.kw.items() if k not in ('strict', 'encoding') and v is not NONE and
               not (k == 'object_pairs_hook' and show(v).split('.')[-1].rstrip(")'") in ('OrderedDict', 'dict'))]
        R.ok(not bad, 'JSON input is read as it is', e.site, str(bad), r)
    for e in de:
        bad = [k for k in e.kw if k not in ('separators', 'sort_keys', 'ensure_ascii', 'indent')]
        R.ok(not bad, 'JSON output is standard', e.site, str(bad), r)
        sep = e.kw.get('separators')
        if sep is not None:
            ss = [cval(x) if is_const(x) else None for x in sep.args] if sep.op == 'tuple' else \
                list(cval(sep)) if is_const(sep) else []
            R.ok([x.strip() if isinstance(x, str) else x for x in ss] == [',', ':'], 'JSON separators are standard',
                 e.site, show(sep), r)
    consts = [('MAGIC', b'blpk'), ('FORMAT_VERSION', 3), ('EXTENSION', '.blp'), ('BLOSC_HEADER_LENGTH', 16),
              ('BLOSCPACK_HEADER_LENGTH', 32), ('METADATA_HEADER_LENGTH', 32), ('MAX_FORMAT_VERSION', 255),
              ('MAX_CHUNKS', MAXN), ('MAX_META_SIZE', MAX32), ('MIN_CLEVEL', 0), ('MAX_CLEVEL', 9)]
    for nm, v in consts:
        t = C.get('constants', nm)
        R.ok(t is const(v), 'constant %s' % nm, 'constants.py', '%s, not %r' % (show(t), v), r)
    # flags and header of a Blosc chunk
    fb = S('flags', 'int')
    box2 = {}

    def body2(I, st, N):
        h = I.call(C.get('headers', 'decode_blosc_header'), [HBUF], [], st, N)
        for k in ('version', 'versionlz', 'flags', 'typesize', 'nbytes', 'blocksize', 'ctbytes'):
            box2[k] = I.getitem(h, const(k), st, N)
        f = I.call(C.get('headers', 'decode_blosc_flags'), [fb], [], st, N)
        for k in ('byte_shuffle', 'pure_memcpy', 'bit_shuffle', 'split_blocks', 'codec'):
            box2[k] = I.getitem(f, const(k), st, N)
        return NONE
    r = R.context(C.run('Blosc chunk header', body2))
    site = 'headers.py (decode_blosc_header)'
    if not R.ok(r.st is not None, 'a Blosc chunk header is decoded', site, '', r):
        return
    want = {'version': u('<B', 0, 1), 'versionlz': u('<B', 1, 2), 'flags': u('<B', 2, 3), 'typesize': u('<B', 3, 4),
            'nbytes': u('<I', 4, 8), 'blocksize': u('<I', 8, 12), 'ctbytes': u('<I', 12, 16)}
    F = list(r.st.pc)
    for k, w in want.items():
        R.ok(same(F, box2[k], w), 'Blosc chunk header: %s' % k, site, '%s vs %s' % (show(box2[k]), show(w)), r)
    site = 'headers.py (decode_blosc_flags)'
    for b in range(256):
        # decided by evaluating the decoded terms for each value of the byte: 256 instances of a closed term
        m = {fb: const(b)}
        for k, w in (('byte_shuffle', b & 1), ('pure_memcpy', b >> 1 & 1), ('bit_shuffle', b >> 2 & 1),
                     ('split_blocks', b >> 4 & 1)):
            g = subst(box2[k], m)
            if g is not const(bool(w)):
                R.ok(False, 'Blosc flags: %s' % k, site, 'byte %d gives %s' % (b, show(g)), r)
                break
        c = b >> 5 & 7
        if c < 5:
            g = subst(box2['codec'], m)
            if g is not const(['blosclz', 'lz4', 'snappy', 'zlib', 'zstd'][c]):
                R.ok(False, 'Blosc flags: codec', site, 'byte %d gives %s' % (b, show(g)), r)
                break
    else:
        R.ok(True, 'Blosc flags are decoded as documented for all 256 values', site, '', r)


def content(st, t):
    return st.d.get(('c', t.args[0]), t) if t.op == 'obj' else t


# ---------------------------------------------------------------- C10
def c10(C, R, tier):
    r = R.context(decode_ctx(C, 'BloscpackHeader', HF))
    site = where(None, 'BloscpackHeader.decode')
    b8 = u('<B', 5, 6)
    bad = [('another length', not_(eq(length(HBUF), const(32)))),
           ('no magic', not_(eq(slice_(HBUF, ZERO, const(4)), const(b'blpk')))),
           ('unknown checksum id', ge0(sub(u('<B', 6, 7), const(9))))]
    bad += [('unused option bit %d set' % i, eq(bit(b8, i), ONE)) for i in range(2, 8)]
    for nm, c in bad:
        R.ok(r.st is None or contradictory(list(r.st.pc) + [c]), 'header with %s is rejected' % nm, site,
             'decoding completes', r)
    r = R.context(decode_ctx(C, 'MetadataHeader', MF))
    site = where(None, 'MetadataHeader.decode')
    for nm, c in [('another length', not_(eq(length(HBUF), const(32)))),
                  ('unknown checksum id', ge0(sub(u('<B', 9, 10), const(9)))),
                  ('unknown codec id', ge0(sub(u('<B', 10, 11), const(2))))]:
        R.ok(r.st is None or contradictory(list(r.st.pc) + [c]), 'metadata header with %s is rejected' % nm, site,
             'decoding completes', r)
    for r in read_contexts(C, tier):
        R.context(r)
        src = r.src
        if not R.ok(src is not None, '%s: opens the file' % r.name, '', '', r):
            continue
        spec = FileSpec(src)
        ver = eq(spec.version, const(3))
        good = [('its length was checked', eq(length(spec.H), const(32))),
                ('the magic was checked', eq(slice_(spec.H, ZERO, const(4)), const(b'blpk'))),
                ('the format version was checked', ver),
                ('unused options were checked', and_(*[eq0(bit(spec.options, i)) for i in range(2, 8)])),
                ('the checksum id was checked', ge0(sub(const(8), spec.cks)))]
        io = [e for e in r.events if e.kind in ('read', 'write', 'truncate') and e.args[0] is src]
        first = io[0] if io else None
        R.ok(first is not None and first.kind == 'read' and first.x['pos'] is ZERO and first.res is spec.H,
             '%s: the header is read first' % r.name, first.site if first else '', show(first.res) if first else '', r)
        done = set()
        for e in io[1:]:
            for nm, g in good:
                k = (nm, e.site, tuple(e.pc))
                if k in done:
                    continue
                done.add(k)
                R.ok(holds(list(e.pc), g), '%s: %s before the file is used' % (r.name, nm), e.site,
                     '%s of the file although this is not implied' % e.kind, r)
        if r.st is not None:
            for nm, g in good:
                R.ok(holds(list(r.st.pc), g), '%s: %s when it succeeds' % (r.name, nm), '', '', r)


def ranges(v):
    """the documented ranges of the fields of the file header"""
    out = []
    lo = {'format_version': (0, 255), 'typesize': (0, MAXT), 'chunk_size': (-1, MAXB), 'last_chunk': (-1, MAXB),
          'nchunks': (-1, MAXN), 'max_app_chunks': (0, MAXN)}
    for k, (a, b) in lo.items():
        out += [ge0(sub(v[k], const(a))), ge0(sub(const(b), v[k]))]
    n, m, c, l = v['nchunks'], v['max_app_chunks'], v['chunk_size'], v['last_chunk']
    out.append(ge0(sub(sub(const(MAXN), n), m)))
    out.append(or_(ge0(n), eq0(m)))
    out.append(or_(eq(c, const(-1)), eq(l, const(-1)), ge0(sub(c, l))))
    return out


# ---------------------------------------------------------------- C11
def c11(C, R, tier):
    V = dict(HF)
    known = or_(*[eq(V['checksum'], const(nm)) for nm, _ in CHECKSUM_SIZES])
    for off, meta in (((True, True), (False, False)) if tier == 'quick' else
                      ((True, True), (True, False), (False, True), (False, False))):
        r = R.context(header_ctx(C, off, meta, False))
        site = where(None, 'BloscpackHeader.__init__')
        if not completes(R, r, site):
            continue
        F = list(r.st.pc)
        for g in ranges(V) + [known]:
            R.ok(holds(F, g), '%s: only valid values are accepted' % r.name, site, 'accepted without %s' % show(g), r)
        for s, x, e in r.raises:
            R.ok(contradictory(list(s.pc) + ranges(V) + [known]), '%s: valid values are accepted' % r.name,
                 e.site if e else site, 'raises %s' % show(x)[:120], r)
        for k, v in HF:
            w = v if v is not None else const(off if k == 'offsets' else meta)
            R.ok(r.box['attrs'][k] is w, '%s: %s is stored unchanged' % (r.name, k), site, show(r.box['attrs'][k]), r)
    V = dict(MF)
    r = R.context(meta_header_ctx(C, False))
    site = where(None, 'MetadataHeader.__init__')
    good = [ge0(sub(const(8), length(V['magic_format']))), ge0(sub(const(8), length(V['user_codec']))),
            ge0(V['meta_level']), ge0(sub(const(9), V['meta_level'])),
            or_(*[eq(V['meta_checksum'], const(nm)) for nm, _ in CHECKSUM_SIZES]),
            or_(*[eq(V['meta_codec'], const(nm)) for nm in CODEC_IDS])]
    for k in ('meta_size', 'max_meta_size', 'meta_comp_size'):
        good += [ge0(V[k]), ge0(sub(const(MAX32), V[k]))]
    if completes(R, r, site):
        F = list(r.st.pc)
        for g in good:
            R.ok(holds(F, g), '%s: only valid values are accepted' % r.name, site, 'accepted without %s' % show(g), r)
        for s, x, e in r.raises:
            R.ok(contradictory(list(s.pc) + good), '%s: valid values are accepted' % r.name, e.site if e else site,
                 'raises %s' % show(x)[:120], r)
        for k, v in MF:
            R.ok(r.box['attrs'][k] is v, '%s: %s is stored unchanged' % (r.name, k), site, show(r.box['attrs'][k]), r)
    # options: any string of other length or characters is refused
    o = S('options', 'str')

    def body(I, st, N):
        return I.call(C.get('headers', 'MetadataHeader'), [], [('meta_options', o)], st, N)
    r = R.context(C.run('metadata header:options', body))
    g = [eq(length(o), const(8))] + [or_(eq(at(o, const(i)), const('0')), eq(at(o, const(i)), const('1')))
                                     for i in range(8)]
    if completes(R, r, site):
        for x in g:
            R.ok(holds(list(r.st.pc), x), '%s: options are eight binary digits' % r.name, site, show(x), r)
        for s, x, e in r.raises:
            R.ok(contradictory(list(s.pc) + g), '%s: eight binary digits are accepted' % r.name, e.site if e else site, '', r)
    # values of another type
    wrong = [('BloscpackHeader', k, v) for k in ('format_version', 'typesize', 'chunk_size', 'last_chunk', 'nchunks',
                                                 'max_app_chunks') for v in (const(1.5), const('1'), NONE)]
    wrong += [('MetadataHeader', k, v) for k in ('meta_level', 'meta_size', 'max_meta_size', 'meta_comp_size')
              for v in (const(1.5), const('1'), NONE)]
    wrong += [('MetadataHeader', k, v) for k in ('magic_format', 'user_codec') for v in (const('JSON'), NONE, ONE)]
    for cls, k, v in wrong:
        def body(I, st, N):
            return I.call(C.get('headers', cls), [], [(k, v)], st, N)
        r = R.context(C.run('%s:%s=%s' % (cls, k, show(v)), body))
        R.ok(r.st is None, '%s: a value of another type is refused' % r.name, where(None, cls + '.__init__'), '', r)
