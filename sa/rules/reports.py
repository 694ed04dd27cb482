"""Rules over what is shown: the info command and sizes for human readers."""
import re
from ..contexts import *   # noqa
from ..spec import *   # noqa
from .effects import opaque_files
from .cli import pcs, strings

MARK = re.compile('\x00(\\d+)\x00')


class Text(object):
    """a text as literal characters and places values are put in"""

    def __init__(self, r):
        self.r, self.leaves, self.n = r, [], 0

    def leaf(self, x):
        self.leaves.append(x)
        return '\x00%d\x00' % (len(self.leaves) - 1)

    def of(self, t, quoted=False, depth=0):
        if depth > 40:
            return self.leaf(('opaque', t))
        d = depth + 1
        if is_const(t):
            v = cval(t)
            return repr(v) if quoted or not isinstance(v, str) else v
        op, a = t.op, t.args
        if op == 'phi':
            x, y = self.of(a[1], quoted, d), self.of(a[2], quoted, d)
            return self.leaf(('alt', a[0], x, y))
        if op == 'cat' and t.ty == 'str' and not quoted:
            return ''.join(self.of(x, False, d) for x in a)
        if op == 'fmt' and not quoted:
            if len(a) == 1:
                return self.of(a[0], False, d)
            if is_const(a[0]) and isinstance(cval(a[0]), str):
                return self.percent(cval(a[0]), list(a[1:]), d)
            if len(a) == 2 and is_const(a[1]) and cval(a[1]) in ('', 'd', 's'):
                return self.of(a[0], False, d)
            if len(a) == 2 and is_const(a[1]) and re.match(r'\.\d+f$', str(cval(a[1]))):
                return self.leaf(('rounded', a[0], int(cval(a[1])[1:-1])))
            return self.leaf(('opaque', t))
        if op == 'call' and a[0] == 'builtins.repr' and len(a[1]) == 1 and not quoted:
            return self.of(a[1][0], True, d)
        if op == 'call' and a[0] == 'builtins.str' and len(a[1]) == 1 and not quoted:
            return self.of(a[1][0], False, d)
        if op == 'call' and a[0] == 'pprint.pformat' and not quoted:
            return self.leaf(('val', a[1][0]))
        if op == 'call' and a[0] == 'str.join' and len(a[1]) == 2 and is_const(a[1][0]) and not quoted:
            return self.join(cval(a[1][0]), a[1][1], False, d)
        if op == 'at' and a[0].op == 'call' and a[0].args[0] in ('str.split', 'str.splitlines'):
            return self.of(a[0].args[1][0], quoted, d)      # one of its lines
        if op == 'obj':
            c = self.r.st.d.get(('c', a[0])) if self.r.st is not None else None
            if c is not None and c.op == 'dict':
                out = []
                for x in c.args:
                    if not (isinstance(x, T) and x.op == 'tuple' or isinstance(x, tuple)):
                        return self.leaf(('opaque', t))
                    k, v = x.args if isinstance(x, T) else x
                    out.append(self.of(k, True, d) + ': ' + self.of(v, True, d))
                return '{' + ', '.join(out) + '}'
            if c is not None and c.ty == 'seq':
                return '[' + self.join(', ', c, True, d) + ']'
            return self.leaf(('opaque', t))
        if t.ty == 'seq' and op in ('smap', 'seq', 'fill'):
            return '[' + self.join(', ', t, True, d) + ']'
        return self.leaf(('val', t))

    def join(self, sep, t, quoted, d):
        if t.op == 'obj' and self.r.st is not None and self.r.st.d.get(('c', t.args[0])) is not None:
            t = self.r.st.d[('c', t.args[0])]
        if t.op == 'seq':
            return sep.join(self.of(x, quoted, d) for x in t.args)
        if t.op == 'smap':
            return self.leaf(('each', t.args[0], self.of(t.args[1], quoted, d), t.args[2]))
        return self.leaf(('opaque', t))

    def percent(self, f, args, d):
        out, i = [], 0
        for m in re.finditer(r'%%|%[-+ 0#]*\d*(?:\.\d+)?[a-zA-Z]|[^%]+|%', f):
            s = m.group(0)
            if not s.startswith('%') or s == '%%':
                out.append('%' if s == '%%' else s)
                continue
            if i >= len(args):
                return self.leaf(('opaque', const(f)))
            x = args[i]
            i += 1
            if s in ('%s', '%d', '%i', '%u'):
                out.append(self.of(x, False, d))
            elif s == '%r':
                out.append(self.of(x, True, d))
            elif re.match(r'%\.\d+f$', s):
                out.append(self.leaf(('rounded', x, int(s[2:-1]))))
            else:
                out.append(self.leaf(('opaque', x)))
        return ''.join(out)

    # ------------------------------------------------------------- queries
    def after(self, s, label):
        """the parts of the text that follow a label: up to the end of the line or the next label"""
        out = []
        for m in re.finditer(r"(?<![A-Za-z_0-9])%s(?![A-Za-z_0-9])[^A-Za-z_0-9\x00\n,]*" % re.escape(label), s):
            rest = s[m.end():]
            cut = re.search(r"\n|, ?\(?'?[A-Za-z_]\w*'?\s*[:=,]", rest)
            out.append(rest[:cut.start()] if cut else rest)
        return out

    def variants(self, s, F, depth=0):
        """[(facts, [values], literal characters)] of a text"""
        out = [(list(F), [], '')]
        pos = 0
        for m in MARK.finditer(s):
            lit, x = s[pos:m.start()], self.leaves[int(m.group(1))]
            pos = m.end()
            new = []
            for G, vals, text in out:
                if x[0] == 'alt' and depth < 12:
                    for c, y in ((x[1], x[2]), (not_(x[1]), x[3])):
                        H = G + [c]
                        if not_(c) in H or c is FALSE:
                            continue
                        for G2, v2, t2 in self.variants(y, H, depth + 1):
                            new.append((G2, vals + v2, text + lit + t2))
                else:
                    new.append((G, vals + [x], text + lit))
            out = new
        return [(G, v, t + s[pos:]) for G, v, t in out]

    def everything(self, s):
        """every leaf of a text"""
        out = []
        for m in MARK.finditer(s):
            x = self.leaves[int(m.group(1))]
            out.append(x)
            for y in x[1:]:
                if isinstance(y, str):
                    out += self.everything(y)
        return out


def literal_is(F, s, want):
    """does the literal text say the value?"""
    s = s.strip(' "\'(){}[],')
    cands = []
    if re.match(r'-?\d+$', s):
        cands.append(const(int(s)))
    if s in ('True', 'False', 'None'):
        cands.append({'True': TRUE, 'False': FALSE, 'None': NONE}[s])
    cands.append(const(s))
    return any(same_value(F, c, want) for c in cands)


def same_value(F, a, b):
    a, b = norm(F, a), norm(F, b)
    if b.ty == 'bool' and a.ty == 'bool':
        return a is b or holds(F + [a], b) and holds(F + [b], a)
    if is_const(b) and isinstance(cval(b), bool) and a.ty == 'bool':
        return holds(F, a if b is TRUE else not_(a))
    return a is b or same(F, a, b)


def shows(T_, s, F, want):
    """None if the text says the value wanted whatever happens; else why not"""
    for G, vals, text in T_.variants(s, F):
        if not any(x[0] == 'val' and same_value(G, x[1], want) for x in vals) and \
                not (not vals and literal_is(G, text, want)) and not contradictory(G):
            if any(x[0] == 'opaque' for x in vals):
                return 'unknown'
            return '%s if %s' % ([show(x[1], -60)[:100] for x in vals if x[0] == 'val'] or repr(text), pcs(G[len(F):]))
    return None


class Printed(object):
    """the texts that are printed, at every verbosity"""

    def __init__(self, r):
        self.all, F = [], list(r.st.pc)
        have = set(F)
        for e in r.events:
            if e.kind not in ('print', 'sys.stdout.write'):
                continue
            ids = set(l.idx for l in e.loops)
            conds = [c for c in e.pc if c not in have and not any(contains(c, i) for i in ids)]
            for a in e.args:
                t = Text(r)
                self.all.append((e, conds, t, t.of(a)))

    def under(self, F, wanted):
        """[(event, text, its flat form)] printed under the facts, of those wanted"""
        out = []
        for e, conds, t, s in self.all:
            if wanted(t, s) and all(c in F or norm(F, c) is TRUE or holds(F, c) for c in conds):
                out.append((e, t, s))
        return out


CODECS = [(const(0), const('blosclz')), (const(1), const('lz4')), (const(2), const('snappy')), (const(3), const('zlib')),
          (const(4), const('zstd'))]


def c34(C, R, tier):
    r = R.context(main_ctx(C, 'info'))
    opaque_files(r)
    if not R.ok(r.st is not None, 'info: completes', '', '', r):
        return
    opened = [e for e in r.events if e.kind == 'open']
    if not R.ok(bool(opened), 'info: the file is opened', '', '', r):
        return
    f = opened[0].res
    spec = FileSpec(f)
    F = list(r.st.pc)
    P = Printed(r)
    meta, offs = spec.has_meta, spec.has_offsets
    names = [(const(i), const(n)) for i, (n, _) in enumerate(CHECKSUM_SIZES)]
    head = [('format_version', spec.version), ('offsets', offs), ('metadata', meta), ('checksum', tab(spec.cks, names)),
            ('typesize', spec.typesize), ('chunk_size', spec.chunk_size), ('last_chunk', spec.last_chunk),
            ('nchunks', spec.nchunks), ('max_app_chunks', spec.max_app)]
    mhead = [('meta_checksum', tab(spec.m_cks, names)),
             ('meta_codec', tab(spec.m_codec, [(const(0), const('None')), (const(1), const('zlib'))])),
             ('meta_level', spec.m_level), ('meta_size', spec.m_size), ('max_meta_size', spec.m_max),
             ('meta_comp_size', spec.m_comp)]
    B = spec.rd(spec.data_pos, const(16))
    u = lambda fm, a, b: unpk(fm, slice_(B, const(a), const(b)))
    flags = u('<B', 2, 3)
    blosc = [('version', u('<B', 0, 1)), ('versionlz', u('<B', 1, 2)), ('flags', flags), ('typesize', u('<B', 3, 4)),
             ('nbytes', u('<I', 4, 8)), ('blocksize', u('<I', 8, 12)), ('ctbytes', u('<I', 12, 16))]
    one = lambda i: eq(bit(flags, i), ONE)
    bflags = [('byte_shuffle', one(0)), ('pure_memcpy', one(1)), ('bit_shuffle', one(2)), ('split_blocks', one(4)),
              ('codec', tab(add(bit(flags, 5), add(mul(const(2), bit(flags, 6)), mul(const(4), bit(flags, 7)))), CODECS))]
    cases = [('header', [], head), ('metadata header', [meta], mhead)]
    for m in ([not_(meta)], [meta, eq0(spec.m_cks)], [meta, not_(eq0(spec.m_cks))]):
        for o in ([not_(offs)], [offs, ge0(spec.nchunks)]):
            lab = '%s, %s offsets' % (('without metadata' if len(m) == 1 else 'metadata with%s digest' %
                                       ('' if m[1].op == 'not' else 'out')), 'without' if len(o) == 1 else 'with')
            cases.append(("first chunk's Blosc header (%s)" % lab, m + o, blosc))
            cases.append(("first chunk's flags (%s)" % lab, m + o, bflags))
    for what, cond, fields in cases:
        base = F + cond
        if contradictory(base):
            R.ok(False, 'info: files with a %s are shown' % what, '', '', r)
            continue
        # metadata that is None once decoded is not shown
        base = base + [not_(is_none(e.res)) for e in r.of('json.loads') if e.res is not None]
        ps = P.under(base, lambda t, s: any(t.after(s, l) for l, _ in fields))
        best = None
        for e, t, s in ps:
            hit = [l for l, _ in fields if t.after(s, l)]
            if best is None or len(hit) > len(best[3]):
                best = (e, t, s, hit)
        vague = any(x[0] == 'opaque' and contains(x[1], f) for _, t, s in
                    P.under(base, lambda t, s: any(x[0] == 'opaque' for x in t.everything(s))) for x in t.everything(s))
        for label, want in fields:
            desc = 'info: the %s shows %s as it is in the file' % (what, label)
            if best is None or label not in best[3]:
                if vague:
                    R.undecided.append((desc, '', 'a text outside the model'))
                else:
                    R.ok(False, desc, best[0].site if best else '', 'not shown', r)
                continue
            e, t, s, _ = best
            why = [shows(t, x, base, want) for x in t.after(s, label)]
            if None in why:
                R.ok(True, desc, e.site, '', r)
            elif 'unknown' in why:
                R.undecided.append((desc, e.site, 'a text outside the model'))
            else:
                R.ok(False, desc, e.site, 'shown: %s' % why[0], r)
    # metadata
    loads = [e.res for e in r.of('json.loads') if e.res is not None]
    base = F + [meta] + [not_(is_none(x)) for x in loads]
    ps = P.under(base, lambda t, s: any(x[0] == 'val' and any(contains(x[1], l) for l in loads) for x in t.everything(s)))
    ok = site = None
    for e, t, s in ps:
        for x in t.everything(s):
            if x[0] == 'val' and any(same_value(base, x[1], l) for l in loads):
                ok, site = True, e.site
    R.ok(bool(ok), 'info: the metadata is shown', site or '', '', r)
    # offsets
    tabl = spec.rd(spec.offsets_pos, mul(const(8), add(spec.nchunks, spec.max_app)))
    base = F + [offs, ge0(sub(spec.nchunks, ONE))]
    ps = P.under(base, lambda t, s: any(x[0] in ('each', 'opaque') for x in t.everything(s)))
    ok, why, site, each = None, 'not shown', '', False
    for e, t, s in ps:
        for x in t.everything(s):
            if x[0] == 'each':
                j = x[1]
                want = unpk('<q', slice_(tabl, mul(const(8), j), add(mul(const(8), j), const(8))))
                w = shows(t, x[2], base + [ge0(j), ge0(sub(sub(spec.nchunks, j), ONE))], want)
                site, each = e.site, True
                if w is None:
                    ok = True
                else:
                    why = w
            elif x[0] == 'opaque' and ok is None and any(contains(x[1], y) for y in (f,)):
                ok = 'unknown'
    if ok == 'unknown' and not each:
        R.undecided.append(('info: the offsets are those of the chunks', '', 'a text outside the model'))
    else:
        R.ok(ok is True, 'info: the offsets shown are those of the first chunks', site, why, r)


UNITS = [('B', 1), ('K', 1 << 10), ('M', 1 << 20), ('G', 1 << 30), ('T', 1 << 40)]


def quotient(t, x, lim):
    """is t x / lim, rounded to two decimals or more finely? None: no telling"""
    if t.op == 'call' and t.args[0] == 'builtins.round' and len(t.args[1]) == 2 and is_cint(t.args[1][1]):
        return cval(t.args[1][1]) >= 2 and quotient(t.args[1][0], x, lim)
    if t.op == 'call' and t.args[0] == 'builtins.round':
        return False
    if t.op == 'div' and t.args[0] is x and is_const(t.args[1]):
        return float(cval(t.args[1])) == lim
    if t.op == 'fmul' and any(a is x for a in t.args) and any(is_const(a) for a in t.args):
        c = [cval(a) for a in t.args if is_const(a)][0]
        return c * lim == 1
    if t is x:
        return lim == 1
    if t.op == 'fdiv':
        return False
    return None


def samples(unit):
    for n in ('1', '0', '7', '1.5', '0.5', '2.25', '1023', '0.001', '3.999', '12.34'):
        yield n + unit


def c35(C, R, tier):
    x = S('size', 'int')
    r = R.context(C.call('pretty_size', 'pretty', 'pretty_size', [x]))
    if R.ok(r.st is not None and r.ret is not None, 'pretty_size: returns', '', '', r):
        bad = [(e, q) for q, xc, e in r.raises if not contradictory(list(q.pc) + [ge0(x)])]
        R.ok(not bad, 'pretty_size: any size can be shown', site_of([e for e, _ in bad]), '', r)
        T_ = Text(r)
        s = T_.of(r.ret)
        base = list(r.st.pc)
        for i in range(-1, len(UNITS)):
            if i < 0:
                F, name = [eq0(x)], 'nothing'
            else:
                suf, lim = UNITS[i]
                F = [ge0(sub(x, const(lim)))]
                if i + 1 < len(UNITS):
                    F.append(ge0(sub(const(UNITS[i + 1][1] - 1), x)))
                name = 'a size in %s' % suf
            desc = 'pretty_size: %s is shown in its unit' % name
            why, vague = None, False
            for G, vals, text in T_.variants(s, base + F):
                if contradictory(G):
                    continue
                if i < 0:
                    good = not vals and re.match(r'0(\.0*)? ?B?$', text.strip())
                    if not good and vals and text.strip() == 'B':
                        good = len(vals) == 1 and vals[0][0] == 'val' and quotient(vals[0][1], x, 1)
                else:
                    good = len(vals) == 1 and text.strip() == suf
                    if good:
                        good = quotient(vals[0][1], x, lim) if vals[0][0] == 'val' else rounded(vals[0], x, lim)
                if good is None:
                    vague = True
                elif not good:
                    why = '%s%s' % ([show(v[1], -60)[:80] for v in vals if isinstance(v[1], T)], text)
            if why is None and vague:
                R.undecided.append((desc, '', 'a form outside the model'))
            else:
                R.ok(why is None, desc, 'pretty.py (pretty.pretty_size)', why or '', r)
    r = R.context(C.call('double_pretty_size', 'pretty', 'double_pretty_size', [x]))
    if R.ok(r.st is not None and r.ret is not None, 'double_pretty_size: returns', '', '', r):
        T_ = Text(r)
        s = T_.of(r.ret)
        bad = [pcs(G) for G, vals, text in T_.variants(s, list(r.st.pc) + [ge0(x)])
               if not any(v[0] == 'val' and same(G, v[1], x) for v in vals) and not contradictory(G)
               and not any(v[0] == 'opaque' for v in vals)]
        R.ok(not bad, 'double_pretty_size: the exact size is shown', 'pretty.py (pretty.double_pretty_size)', '; '.join(bad[:2]), r)
    t = S('text', 'str')
    r = R.context(C.call('reverse_pretty', 'pretty', 'reverse_pretty', [t]))
    if R.ok(r.st is not None and r.ret is not None, 'reverse_pretty: returns', '', '', r):
        F = list(r.st.pc)
        ends = lambda u: mk('call', 'str.endswith', (t, const(u)), (), ty='bool')
        desc = 'reverse_pretty: only texts that end in a unit are read'
        R.ok(holds(F, or_(*[ends(u) for u, _ in UNITS])), desc, 'pretty.py (pretty.reverse_pretty)', pcs(F), r)
        for u, lim in UNITS:
            desc = 'reverse_pretty: the number is taken in units of %s' % u
            G = F + [ends(u)]
            if contradictory(G):
                R.ok(False, desc, 'pretty.py (pretty.reverse_pretty)', 'refused', r)
                continue
            v = norm(G, r.ret)
            last = [a for a in atoms(v) if a.op == 'at' and a.args[0] is t and is_cint(a.args[1]) and cval(a.args[1]) == -1]
            v = subst(v, dict((a, const(u)) for a in last)) if last else v
            if exactly(v, t, lim):
                R.ok(True, desc, '', '', r)
                continue
            bad = vague = None
            for y in samples(u):
                try:
                    z = value(subst(v, {t: const(y)}))
                except Unknown as ex:
                    vague = str(ex)
                    continue
                except Exception as ex:
                    z = repr(ex)
                if z != int(float(y[:-1]) * lim) or not isinstance(z, int):
                    bad = '%r read as %r' % (y, z)
            if bad is None:
                R.undecided.append((desc, '', 'a form outside the model: %s' % (vague or show(v, -60)[:80])))
            else:
                R.ok(bad is None, desc, 'pretty.py (pretty.reverse_pretty)', bad or '', r)
    bad = [e for q, x, e in r.raises if 'builtins.ValueError' not in C.I.exc_mro(C.I.exc_class(x)) and
           not contradictory(list(q.pc) + [ge0(sub(length(t), ONE))])]
    R.ok(not bad, 'reverse_pretty: a text without a unit is a ValueError', site_of(bad), '', r)




def exactly(v, t, lim):
    """int(float(all of t but its last character) * lim)"""
    if not (v.op == 'call' and v.args[0] == 'int' and len(v.args[1]) == 1):
        return False
    x = v.args[1][0]
    fs = list(x.args) if x.op == 'fmul' else [x]
    k, rest = 1, []
    for a in fs:
        if is_const(a):
            k *= cval(a)
        else:
            rest.append(a)
    return k == lim and len(rest) == 1 and rest[0].op == 'call' and rest[0].args[0] == 'float' and \
        rest[0].args[1][0] in (slice_(t, ZERO, sub(length(t), ONE)), slice_(t, ZERO, const(-1)))


def rounded(v, x, lim):
    """digits behind the point: two of them or more"""
    return v[2] >= 2 and quotient(v[1], x, lim) if v[0] == 'rounded' else None


def value(t):
    """the value of a term over constants; Unknown if there is no telling"""
    if is_const(t):
        return cval(t)
    if t.op == 'phi':
        return value(t.args[1] if value(t.args[0]) else t.args[2])
    if t.op == 'tab':
        k = value(t.args[0])
        for a, b in t.args[1]:
            if cval(a) == k:
                return value(b)
        raise KeyError(k)
    if t.op == 'fmul':
        r = 1
        for a in t.args:
            r = r * value(a)
        return r
    if t.op in ('div', 'fdiv'):
        a, b = value(t.args[0]), value(t.args[1])
        return a / b if t.op == 'div' else a // b
    if t.op == 'poly':
        n = 0
        for m, c in t.args[0]:
            for a in m:
                c = c * value(a)
            n += c
        return n
    if t.op == 'call' and t.args[0] in ('int', 'float', 'builtins.int', 'builtins.float', 'builtins.round', 'math.floor',
                                        'math.ceil', 'builtins.abs', 'builtins.str'):
        import math
        f = t.args[0]
        fn = getattr(math, f[5:]) if f.startswith('math.') else \
            {'int': int, 'float': float, 'round': round, 'abs': abs, 'str': str}[f.split('.')[-1]]
        return fn(*[value(a) for a in t.args[1]])
    z = strings(t)
    if is_const(z):
        return cval(z)
    raise Unknown(show(t, -60)[:80])


class Unknown(Exception):
    pass
