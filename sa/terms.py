"""Hash-consed value terms: the abstract value domain of the analysis.

A term denotes the value an expression has on *every* execution that reaches
it, as a function of the entry symbols (parameters, file contents, globals).
Values that differ between merging control-flow paths are joined with a gated
phi (gated SSA); nothing is ever enumerated path by path.
"""
import itertools

_tab = {}
_uid = itertools.count(1)


class T(object):
    __slots__ = ('op', 'args', 'uid', 'ty', '_memo')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.uid < other.uid


def mk(op, *args, **kw):
    ty = kw.get('ty')
    key = (op, args, ty)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.ty, t.uid, t._memo = op, args, ty, next(_uid), None
        _tab[key] = t
    return t


_TYN = {int: 'int', bool: 'bool', bytes: 'bytes', str: 'str',
        type(None): 'none', float: 'float', complex: 'complex',
        type(Ellipsis): 'ellipsis'}


def const(v):
    ty = _TYN.get(type(v))
    if ty is None:
        raise TypeError('no const for %r' % (v,))
    # the type name is part of the key so that True/1/1.0 stay apart
    key = ('const', ty, v if ty != 'float' else repr(v))
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.ty, t.uid, t._memo = 'const', (v,), ty, next(_uid), None
        _tab[key] = t
    return t


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)
EMPTYB = const(b'')


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


def is_cint(t):
    return t.op == 'const' and t.ty == 'int'


def sym(name, ty=None):
    return mk('sym', name, ty=ty)


_fresh = {}


def fresh(prefix, ty=None):
    n = _fresh.get(prefix, 0) + 1
    _fresh[prefix] = n
    return mk('sym', '%s#%d' % (prefix, n), ty=ty)


# ---------------------------------------------------------------- integers
INTLIKE = ('int', 'bool')


def to_poly(t):
    """dict monomial(tuple of atoms sorted by uid) -> int coefficient"""
    if t.op == 'const' and t.ty in ('int', 'bool'):
        v = int(t.args[0])
        return {(): v} if v else {}
    if t.op == 'poly':
        return dict(t.args[0])
    if t.ty == 'bool':
        t = b2i(t)
        if t.op == 'const' or t.op == 'poly':
            return to_poly(t)
    return {(t,): 1}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    # rewrite  c * (a // c)  ->  a - a % c
    for m in p:
        if len(m) >= 2:
            for a in m:
                if a.op == 'fdiv':
                    num, den = a.args
                    rest = list(m)
                    rest.remove(a)
                    if den in rest and den.op != 'const':
                        rest.remove(den)
                        c = p[m]
                        q = dict(p)
                        del q[m]
                        sub = padd(to_poly(num), to_poly(fmod(num, den)), -1)
                        sub = pmul(sub, {tuple(sorted(rest)): c})
                        return from_poly(padd(q, sub))
        if len(m) == 1 and m[0].op == 'fdiv' and is_cint(m[0].args[1]):
            d = cval(m[0].args[1])
            if d != 0 and p[m] % d == 0 and abs(p[m]) >= abs(d) and abs(d) != 1:
                c = p[m] // d
                q = dict(p)
                del q[m]
                num = m[0].args[0]
                sub = padd(to_poly(num), to_poly(fmod(num, m[0].args[1])), -1)
                return from_poly(padd(q, pmul(sub, {(): c})))
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(p.items(), key=lambda mc: tuple(a.uid for a in mc[0])))
    return mk('poly', items, ty='int')


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
    return {m: c for m, c in r.items() if c}


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            mm = tuple(sorted(m + n, key=lambda a: a.uid))
            r[mm] = r.get(mm, 0) + c * d
    return {m: c for m, c in r.items() if c}


def add(a, b):
    return _lift2(add, a, b) or from_poly(padd(to_poly(a), to_poly(b)))


def sub(a, b):
    return _lift2(sub, a, b) or from_poly(padd(to_poly(a), to_poly(b), -1))


def mul(a, b):
    return _lift2(mul, a, b) or from_poly(pmul(to_poly(a), to_poly(b)))


def neg(a):
    return sub(ZERO, a)


def _lift2(f, a, b):
    return None


def fdiv(a, b):
    if is_cint(a) and is_cint(b) and cval(b) != 0:
        return const(cval(a) // cval(b))
    if b is ONE:
        return a
    if a is b:
        return ONE
    # exact multiple
    if is_cint(b) and cval(b) != 0:
        p = to_poly(a)
        d = cval(b)
        whole = {m: c for m, c in p.items() if c % d == 0}
        rest = {m: c for m, c in p.items() if c % d != 0}
        if whole and not rest:
            return from_poly({m: c // d for m, c in whole.items()})
        if whole:
            return add(from_poly({m: c // d for m, c in whole.items()}),
                       mk('fdiv', from_poly(rest), b, ty='int'))
    elif b.op != 'const':
        # (k*b + r) // b  with every monomial containing b
        p = to_poly(a)
        if b.op != 'poly':
            whole, rest = {}, {}
            for m, c in p.items():
                if b in m:
                    l = list(m)
                    l.remove(b)
                    whole[tuple(l)] = c
                else:
                    rest[m] = c
            if whole:
                return add(from_poly(whole), fdiv(from_poly(rest), b)) if rest else from_poly(whole)
    if a is ZERO:
        return ZERO
    # -(-a // b) style ceilings: keep negative numerators in a canonical form
    p = to_poly(a)
    if p.get((), 0) == -1 and len(p) > 1 and any(c > 0 for m, c in p.items() if m):
        # floor((x-1)/b) = floor(x/b) - (x % b == 0)      (b > 0)
        x = from_poly({m: c for m, c in p.items() if m})
        if not (is_cint(b)):
            return sub(mk('fdiv', x, b, ty='int'), b2i(eq0(fmod(x, b))))
    if p and all(c < 0 for c in p.values()):
        # floor(-x / b) = -ceil(x / b);  ceil(x/b) = floor(x/b) + (x % b != 0)
        x = from_poly({m: -c for m, c in p.items()})
        return sub(neg(mk('fdiv', x, b, ty='int')),
                   b2i(not_(eq0(fmod(x, b)))))
    # floor((x + b - 1)/b) = ceil(x/b)
    if b.op != 'const':
        q = padd(p, to_poly(b), -1)
        q = padd(q, {(): 1})
        if len(q) < len(p) or (len(q) == len(p) and not any(b in m for m in q) and any(b in m for m in p)):
            x = from_poly(q)
            return add(mk('fdiv', x, b, ty='int'), b2i(not_(eq0(fmod(x, b)))))
    return mk('fdiv', a, b, ty='int')


def fmod(a, b):
    if is_cint(a) and is_cint(b) and cval(b) != 0:
        return const(cval(a) % cval(b))
    if b is ONE or a is b or a is ZERO:
        return ZERO
    if is_cint(b) and cval(b) != 0:
        p = to_poly(a)
        d = abs(cval(b))
        r = {m: c % cval(b) for m, c in p.items()}
        r = {m: c for m, c in r.items() if c}
        if not r:
            return ZERO
        a2 = from_poly(r)
        if a2 is not a and d:
            return mk('fmod', a2, b, ty='int')
    return mk('fmod', a, b, ty='int')


def b2i(b):
    if b.ty == 'int' or b.op == 'poly':
        return b
    if is_const(b):
        return const(int(cval(b)))
    if b.op == 'i2b':
        # bool() of a 0/1 integer
        return b.args[0]
    if b.op == 'not':
        return from_poly(padd({(): 1}, to_poly(b2i(b.args[0])), -1))
    if b.op == 'eq0' and _is01(b.args[0]):
        return from_poly(padd({(): 1}, {(b.args[0],): 1}, -1))
    return mk('b2i', b, ty='int')


def _is01(t):
    return t.op in ('bit', 'b2i')


# ---------------------------------------------------------------- booleans
_notmemo = {}


def not_(b):
    r = _notmemo.get(b)
    if r is None:
        r = _notmemo[b] = _not(b)
    return r


def _not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'and':
        return or_(*[not_(x) for x in b.args])
    if b.op == 'or':
        return and_(*[not_(x) for x in b.args])
    if b.op == 'ge0':
        return ge0(sub(const(-1), b.args[0]))
    if b.op == 'phi' and b.ty == 'bool':
        return phi(b.args[0], not_(b.args[1]), not_(b.args[2]))
    return mk('not', b, ty='bool')


def and_(*bs):
    out = []
    seen = set()
    for b in bs:
        for x in (b.args if b.op == 'and' else (b,)):
            if x is TRUE or x in seen:
                continue
            if x is FALSE or not_(x) in seen:
                return FALSE
            seen.add(x)
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    # absorption: a & (a | b) = a ;  a & (!a | b) = a & b
    changed = True
    while changed:
        changed = False
        lits = set(out)
        for i, x in enumerate(out):
            if x.op == 'or':
                if any(y in lits for y in x.args):
                    del out[i]
                    changed = True
                    break
                keep = [y for y in x.args if not_(y) not in lits]
                if len(keep) != len(x.args):
                    del out[i]
                    r = and_(*(out + [or_(*keep)]))
                    return r
    if len(out) == 1:
        return out[0]
    return mk('and', *sorted(out, key=lambda t: t.uid), ty='bool')


def or_(*bs):
    out = []
    seen = set()
    for b in bs:
        for x in (b.args if b.op == 'or' else (b,)):
            if x is FALSE or x in seen:
                continue
            if x is TRUE or not_(x) in seen:
                return TRUE
            seen.add(x)
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    changed = True
    while changed:
        changed = False
        lits = set(out)
        for i, x in enumerate(out):
            if x.op == 'and':
                if any(y in lits for y in x.args):
                    del out[i]
                    changed = True
                    break
                keep = [y for y in x.args if not_(y) not in lits]
                if len(keep) != len(x.args):
                    del out[i]
                    return or_(*(out + [and_(*keep)]))
    if len(out) == 1:
        return out[0]
    return mk('or', *sorted(out, key=lambda t: t.uid), ty='bool')


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


def ge0(p):
    """p >= 0 over the integers"""
    if is_cint(p):
        return TRUE if cval(p) >= 0 else FALSE
    if p.op == 'phi' and (is_cint(p.args[1]) or is_cint(p.args[2])):
        return phi(p.args[0], ge0(p.args[1]), ge0(p.args[2]))
    if p.op == 'len':
        return TRUE
    q = to_poly(p)
    if len(q) == 1:
        (m, c), = q.items()
        if c > 0 and len(m) == 1 and nonneg(m[0]):
            return TRUE
    if len(q) == 2 and () in q:
        (m, c), = [(m, c) for m, c in q.items() if m != ()]
        k = q[()]
        if len(m) == 1 and nonneg(m[0]):
            if c > 0 and k >= 0:
                return TRUE
            if c < 0 and k < 0:
                return FALSE
            if c == -1 and k == 0:
                return eq0(m[0])
            if c == 1 and k == -1:
                return not_(eq0(m[0]))
            ub = upper(m[0])
            if ub is not None:
                if c < 0 and c * ub + k >= 0:
                    return TRUE
                if c > 0 and c * ub + k < 0:
                    return FALSE
    g = 0
    for m, c in q.items():
        if m != ():
            g = _gcd(g, c)
    if g > 1:
        k = q.get((), 0)
        q = {m: c // g for m, c in q.items() if m != ()}
        k = k // g
        if k:
            q[()] = k
        return ge0(from_poly(q))
    return mk('ge0', p, ty='bool')


def nonneg(t):
    if t.op in ('len', 'bit', 'b2i'):
        return True
    if t.op == 'unpk':
        return t.args[0].isupper() or t.args[0][-1] in 'BHILQ'
    if t.op == 'sym' and t.args[0].startswith('idx'):
        return True
    if t.op == 'fmod':
        return is_cint(t.args[1]) and cval(t.args[1]) > 0 or nonneg(t.args[1])
    if t.op == 'fdiv':
        return nonneg(t.args[0]) and (nonneg(t.args[1]) or (is_cint(t.args[1]) and cval(t.args[1]) > 0))
    if t.op == 'attr' and t.args[1] in ('size', 'itemsize', 'nbytes', 'ndim'):
        return True
    if t.op == 'const':
        return isinstance(t.args[0], (int, float)) and t.args[0] >= 0
    if t.op == 'call' and t.args[0] in NONNEG_CALLS:
        return True
    if t.op == 'sym' and t.args[0].split('#')[0] in NONNEG_SYMS:
        return True
    if t.op == 'tab' and t.ty == 'int':
        return all(nonneg(v) for _, v in t.args[1])
    return False


NONNEG_CALLS = set(['os.path.getsize', 'zlib.adler32', 'zlib.crc32'])
NONNEG_SYMS = set(['getsize', 'decompress_ptr'])


def upper(t):
    if t.op == 'unpk':
        return {'B': 255, 'H': 65535, 'I': 2 ** 32 - 1, 'Q': 2 ** 64 - 1}.get(t.args[0][-1])
    if t.op in ('bit', 'b2i'):
        return 1
    if t.op == 'fmod' and is_cint(t.args[1]) and cval(t.args[1]) > 0:
        return cval(t.args[1]) - 1
    if t.op == 'tab' and all(is_cint(v) for _, v in t.args[1]):
        return max(cval(v) for _, v in t.args[1])
    return None


def lower(t):
    if nonneg(t):
        return 0
    if t.op == 'unpk':
        return {'b': -128, 'h': -2 ** 15, 'i': -2 ** 31, 'q': -2 ** 63}.get(t.args[0][-1])
    return None


def eq0(p):
    if is_cint(p):
        return TRUE if cval(p) == 0 else FALSE
    if p.op == 'phi' and (is_cint(p.args[1]) or is_cint(p.args[2])):
        return phi(p.args[0], eq0(p.args[1]), eq0(p.args[2]))
    if p.op == 'tab' and all(is_cint(v) for _, v in p.args[1]):
        return tab_bool(p.args[0], [k for k, v in p.args[1] if cval(v) == 0],
                        [k for k, v in p.args[1]])
    q = to_poly(p)
    if len(q) == 2 and () in q:
        (m, c), = [(m, c) for m, c in q.items() if m != ()]
        k = q[()]
        if len(m) == 1:
            a = m[0]
            if a.op == 'tab' and all(is_cint(v) for _, v in a.args[1]):
                return tab_bool(a.args[0], [kk for kk, v in a.args[1] if c * cval(v) + k == 0],
                                [kk for kk, v in a.args[1]])
            if k % c != 0:
                return FALSE
            v = -k // c
            lo, up = lower(a), upper(a)
            if (lo is not None and v < lo) or (up is not None and v > up):
                return FALSE
            if _is01(a) and v == 1:
                return not_(eq0(a))
    if len(q) == 1:
        (m, c), = q.items()
        if len(m) == 1 and m[0].op == 'b2i':
            return not_(m[0].args[0])
        if c != 1:
            return eq0(from_poly({m: 1})) if m else FALSE
    items = sorted(q.items(), key=lambda mc: tuple(a.uid for a in mc[0]))
    g = 0
    for m, c in items:
        if m != ():
            g = _gcd(g, c)
    k = q.get((), 0)
    if g > 1:
        if k % g:
            return FALSE
        q = {m: c // g for m, c in q.items()}
        items = [(m, c // g) for m, c in items]
    lead = [c for m, c in items if m != ()][0]
    if lead < 0:
        q = {m: -c for m, c in q.items()}
    p = from_poly(q)
    return mk('eq0', p, ty='bool')


def tab_bool(x, true_keys, all_keys):
    if not true_keys:
        return FALSE
    if len(true_keys) == len(all_keys):
        return TRUE
    if len(true_keys) <= len(all_keys) - len(true_keys):
        return or_(*[eq(x, k) for k in true_keys])
    return and_(*[not_(eq(x, k)) for k in all_keys if k not in true_keys])


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(sub(sub(b, a), ONE))


BASIC = ('int', 'bool', 'bytes', 'str', 'none', 'float', 'tuple', 'list', 'dict', 'func')


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        try:
            return const(bool(cval(a) == cval(b)))
        except Exception:
            pass
    for x, y in ((a, b), (b, a)):
        if x.op == 'phi' and (is_const(y) or is_const(x.args[1]) or is_const(x.args[2])):
            return phi(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
        if x.op == 'tab' and is_const(y):
            vs = x.args[1]
            if all(is_const(v) for _, v in vs):
                return tab_bool(x.args[0], [k for k, v in vs if eq(v, y) is TRUE], [k for k, _ in vs])
    if a.ty in INTLIKE and b.ty in INTLIKE:
        if a.ty == 'bool' and b.ty == 'bool':
            if a is TRUE:
                return b
            if b is TRUE:
                return a
            if a is FALSE:
                return not_(b)
            if b is FALSE:
                return not_(a)
        return eq0(sub(a, b))
    if (a.ty in INTLIKE and b.ty is None) or (b.ty in INTLIKE and a.ty is None):
        return eq0(sub(a, b))
    if a.ty and b.ty and a.ty != b.ty and a.ty in BASIC and b.ty in BASIC \
            and not ({a.ty, b.ty} <= {'int', 'bool', 'float'}):
        return FALSE
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    for x, y in ((a, b), (b, a)):
        if y.op == 'const' and y.ty in ('bytes', 'str') and len(cval(y)) == 0 \
                and x.ty == y.ty:
            return eq0(length(x))
        if y.op == 'const' and y.ty == 'str' and x.op == 'slice' and x.args[2] is length(x.args[0]) \
                and sub(x.args[2], x.args[1]) is const(len(cval(y))):
            return mk('call', 'str.endswith', (x.args[0], y), (), ty='bool')
        if y.op == 'const' and y.ty == 'str' and x.op == 'at' and x.args[0].ty == 'str' and is_cint(x.args[1]) \
                and cval(x.args[1]) == -1 and len(cval(y)) == 1:
            return mk('call', 'str.endswith', (x.args[0], y), (), ty='bool')
        if x.op == 'chr01' and y.op == 'const' and y.ty == 'str':
            if cval(y) == '0':
                return not_(x.args[0])
            if cval(y) == '1':
                return x.args[0]
            return FALSE
        if x.op in ('obj', 'func', 'class', 'tuple') and is_const(y):
            return FALSE
    x, y = (a, b) if a.uid < b.uid else (b, a)
    return mk('eq', x, y, ty='bool')


def is_none(a):
    if a is NONE:
        return TRUE
    if a.op == 'phi':
        return phi(a.args[0], is_none(a.args[1]), is_none(a.args[2]))
    if a.op == 'tab':
        vs = [(k, is_none(v)) for k, v in a.args[1]]
        if all(is_const(v) for _, v in vs):
            return tab_bool(a.args[0], [k for k, v in vs if v is TRUE], [k for k, _ in vs])
    if a.ty is not None and a.ty != 'any':
        return FALSE
    return mk('isnone', a, ty='bool')


def phi(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return phi(c.args[0], b, a)
    if a.ty == 'bool' and b.ty == 'bool':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if a.op == 'phi' and a.args[0] is c:
        a = a.args[1]
        if a is b:
            return a
    if b.op == 'phi' and b.args[0] is c:
        b = b.args[2]
        if a is b:
            return a
    # mappings with the same keys
    if a.op == 'dict' and b.op == 'dict' and a.ty == b.ty and len(a.args) == len(b.args) and \
            all(x[0] is y[0] for x, y in zip(a.args, b.args)):
        return mk('dict', *[(k, phi(c, v, w)) for (k, v), (_, w) in zip(a.args, b.args)], ty=a.ty)
    # bytes that start alike
    if a.ty == 'bytes' and b.ty == 'bytes' and (a.op == 'cat' or b.op == 'cat'):
        xs = list(a.args) if a.op == 'cat' else [a]
        ys = list(b.args) if b.op == 'cat' else [b]
        k = 0
        while k < len(xs) and k < len(ys) and xs[k] is ys[k]:
            k += 1
        if k:
            return cat(*(xs[:k] + [phi(c, cat(*xs[k:]), cat(*ys[k:]))]))
    # nothing is what no repetitions give
    if b.op == 'rep' and none_of(c, a, b):
        return b
    if a.op == 'rep' and none_of(not_(c), b, a):
        return a
    # canonical orientation for order conditions: of {c, not c} keep the older
    if c.op in ('ge0', 'and', 'or'):
        n = not_(c)
        if n.uid < c.uid:
            c, a, b = n, b, a
            if c.op == 'not':
                return phi(c.args[0], b, a)
    ty = a.ty if a.ty == b.ty else ('int' if a.ty in INTLIKE and b.ty in INTLIKE else None)
    return mk('phi', c, a, b, ty=ty)


def none_of(c, e, r):
    """e is empty and under c the repetition r is, too"""
    if e.op != 'const' or e.ty not in ('bytes', 'str') or cval(e):
        return False
    n = r.args[1]
    if c.op == 'eq0':
        return n is c.args[0] or neg(n) is c.args[0] or is_cint(mod_or_none(n, c.args[0]))
    if c.op == 'ge0':
        k = add(c.args[0], n)
        return is_cint(k) and cval(k) <= 0
    return False


def mod_or_none(n, q):
    """k if n is k * q"""
    a, b = to_poly(n), to_poly(q)
    for m, v in b.items():
        if v and a.get(m, 0) % v == 0:
            k = a.get(m, 0) // v
            return const(k) if k and n is mul(const(k), q) else NONE
    return NONE


def tab(x, items):
    """a finite table lookup: the value v_k where x == k"""
    items = [(k, v) for k, v in items]
    if is_const(x):
        for k, v in items:
            if k is x or eq(k, x) is TRUE:
                return v
        return None
    if x.op == 'tab':
        inner = x.args[1]
        m = dict(items)
        if all(v in m for _, v in inner):
            return tab(x.args[0], [(k, m[v]) for k, v in inner])
    if x.op == 'phi':
        a, b = tab(x.args[1], items), tab(x.args[2], items)
        if a is not None and b is not None:
            return phi(x.args[0], a, b)
    vals = set(v for _, v in items)
    if len(vals) == 1:
        return items[0][1]
    if all(k is v for k, v in items):
        return x
    tys = set(v.ty for _, v in items)
    items = tuple(sorted(items, key=lambda kv: kv[0].uid))
    return mk('tab', x, items, ty=tys.pop() if len(tys) == 1 else None)


# ------------------------------------------------------- bytes and sequences
SEQTY = ('bytes', 'str', 'list', 'tuple', 'seq')


def length(x):
    """length of a bytes/str/seq/tuple term, as an int term"""
    if x.op == 'const' and x.ty in ('bytes', 'str'):
        return const(len(cval(x)))
    if x.op in ('tuple', 'seq'):
        return const(len(x.args))
    if x.op == 'cat':
        r = ZERO
        for p in x.args:
            r = add(r, length(p))
        return r
    if x.op == 'rep':
        return mul(length(x.args[0]), x.args[1])
    if x.op == 'pk':
        return const(FMTSIZE[x.args[0][-1]])
    if x.op == 'phi':
        a, b = length(x.args[1]), length(x.args[2])
        return phi(x.args[0], a, b)
    if x.op == 'tab':
        return tab(x.args[0], [(k, length(v)) for k, v in x.args[1]])
    if x.op == 'smap':
        return x.args[2]
    if x.op in ('upd', 'fill'):
        return length(x.args[0])
    if x.op == 'bmap':
        l = length(x.args[1])
        if not contains(l, x.args[0]):
            return mul(l, x.args[2])
    if x.op == 'digits':
        return const(len(x.args))
    if x.op == 'chr01':
        return ONE
    if x.op == 'encode' and x.args[0].op == 'call' and x.args[0].args[0] == 'json.dumps' \
            and _ascii_dumps(x.args[0]):
        return length(x.args[0])
    if x.op == 'call' and x.args[0] == 'blosc.decompress' and x.args[1]:
        return chunk_nbytes(x.args[1][0])
    if x.op == 'call':
        n = DIGEST_SIZE.get(x.args[0])
        if n is not None:
            return const(n)
    return mk('len', x, ty='int')


def chunk_nbytes(d):
    """the uncompressed size a Blosc buffer announces"""
    if d.op == 'call' and d.args[0] == 'blosc.compress' and d.args[1]:
        return length(d.args[1][0])
    return unpk('<I', slice_(d, const(4), const(8)))


def _ascii_dumps(t):
    return all(not (k == 'ensure_ascii') for k, _ in t.args[2])


FMTSIZE = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, '?': 1, 'c': 1}
DIGEST_SIZE = {'hashlib.md5.digest': 16, 'hashlib.sha1.digest': 20, 'hashlib.sha224.digest': 28,
               'hashlib.sha256.digest': 32, 'hashlib.sha384.digest': 48, 'hashlib.sha512.digest': 64}


def _flags(t):
    """the flags a text of binary digits shows"""
    if t.op == 'chr01':
        return [t.args[0]]
    if t.op == 'digits':
        return list(t.args)
    if t.op == 'const' and t.ty == 'str' and set(cval(t)) <= {'0', '1'}:
        return [const(x == '1') for x in cval(t)]
    if t.op == 'phi' and t.ty == 'str':
        a, b = _flags(t.args[1]), _flags(t.args[2])
        if a is not None and b is not None and len(a) == len(b):
            return [phi(t.args[0], x, y) for x, y in zip(a, b)]
    return None


_FLAGGY = ('chr01', 'digits', 'phi')


def cat(*parts):
    out = []
    for p in parts:
        ps = p.args if p.op == 'cat' else (p,)
        for q in ps:
            if q.op == 'const' and len(cval(q)) == 0:
                continue
            if q.op in ('seq', 'tuple') and not q.args:
                continue
            if out and out[-1].op == 'const' and q.op == 'const' and out[-1].ty == q.ty:
                out[-1] = const(cval(out[-1]) + cval(q))
            elif out and (q.op in _FLAGGY or out[-1].op in _FLAGGY) and q.ty == 'str' and \
                    _flags(out[-1]) is not None and _flags(q) is not None:
                out[-1] = digits(*(_flags(out[-1]) + _flags(q)))
            elif out and out[-1].op == 'seq' and q.op == 'seq':
                out[-1] = mk('seq', *(out[-1].args + q.args), ty='seq')
            elif out and out[-1].op == 'tuple' and q.op == 'tuple':
                out[-1] = mk('tuple', *(out[-1].args + q.args), ty='tuple')
            elif out and out[-1].op == 'rep' and q.op == 'rep' and out[-1].args[0] is q.args[0]:
                r = rep(q.args[0], add(out[-1].args[1], q.args[1]))
                out[-1] = r
            elif out and out[-1].op == 'rep' and out[-1].args[0] is q:
                out[-1] = rep(q, add(out[-1].args[1], ONE))
            elif out and q.op == 'rep' and q.args[0] is out[-1]:
                out[-1] = rep(out[-1], add(q.args[1], ONE))
            elif out and q.op == 'slice' and out[-1].op == 'slice' and q.args[0] is out[-1].args[0] \
                    and q.args[1] is out[-1].args[2]:
                out[-1] = slice_(q.args[0], out[-1].args[1], q.args[2])
            elif out and q.op == 'rd' and out[-1].op == 'rd' and q.args[:2] == out[-1].args[:2] \
                    and is_cint(out[-1].args[3]) and q.args[2] is add(out[-1].args[2], out[-1].args[3]):
                # two reads of neighbouring parts
                out[-1] = mk('rd', *(out[-1].args[:3] + (add(out[-1].args[3], q.args[3]),)), ty=q.ty)
            else:
                out.append(q)
    if not out:
        for p in parts:
            if p.op == 'const' or p.op in ('seq', 'tuple'):
                return p
            if p.op == 'cat':
                return p
        return EMPTYB
    if len(out) == 1:
        return out[0]
    ty = None
    for p in out:
        if p.ty is not None:
            ty = p.ty
    return mk('cat', *out, ty=ty)


def rep(x, n):
    if is_cint(n):
        k = cval(n)
        if k <= 0:
            return const(type(cval(x))()) if x.op == 'const' else mk(x.op if x.op in ('seq', 'tuple') else 'seq', ty=x.ty) \
                if x.op in ('seq', 'tuple') else EMPTYB if x.ty == 'bytes' else mk('rep', x, n, ty=x.ty)
        if k == 1:
            return x
        if x.op == 'const' and k * len(cval(x)) <= 4096:
            return const(cval(x) * k)
        if x.op in ('seq', 'tuple') and k * len(x.args) <= 64:
            return mk(x.op, *(x.args * k), ty=x.ty)
    if x.op == 'const' and len(cval(x)) == 0:
        return x
    # a repetition of one repeated unit:  ("\0"*k)*n
    if x.op == 'const' and len(cval(x)) > 1 and len(set(cval(x))) == 1:
        return rep(const(cval(x)[:1]), mul(n, const(len(cval(x)))))
    if x.op == 'rep':
        return rep(x.args[0], mul(n, x.args[1]))
    return mk('rep', x, n, ty=x.ty)


def slice_(x, a, b):
    """x[a:b] with 0 <= a <= b <= len(x) assumed by construction when symbolic"""
    if x.op == 'const' and is_cint(a) and is_cint(b):
        return const(cval(x)[cval(a):cval(b)])
    if x.op in ('seq', 'tuple', 'digits') and is_cint(a) and is_cint(b):
        return mk(x.op, *x.args[cval(a):cval(b)], ty=x.ty)
    if a is ZERO and b is length(x):
        return x
    if a is b:
        if x.ty == 'bytes':
            return EMPTYB
    if x.op == 'rd' and is_cint(a) and is_cint(b) and 0 <= cval(a) < cval(b) <= 16 and not is_cint(x.args[3]):
        # the Blosc header at the start of a chunk, however many bytes were read
        return mk('slice', mk('rd', x.args[0], x.args[1], x.args[2], const(16), ty='bytes'), a, b, ty=x.ty)
    if x.op == 'slice':
        # offset into the outer slice
        return slice_(x.args[0], add(x.args[1], a), add(x.args[1], b))
    if x.op == 'cat':
        # split on known part boundaries
        pos = ZERO
        out = []
        started = False
        for p in x.args:
            l = length(p)
            end = add(pos, l)
            if not started:
                d = sub(a, pos)
                if d is ZERO:
                    started = True
                    s = ZERO
                elif is_cint(d) and cval(d) > 0 and is_cint(l):
                    if cval(d) < cval(l):
                        started = True
                        s = d
                    else:
                        pos = end
                        continue
                elif is_cint(d) and cval(d) > 0 and is_const(d):
                    return mk('slice', x, a, b, ty=x.ty)
                else:
                    # a lies after this part?  only if a - end is >= 0 for sure
                    if ge0(sub(a, end)) is TRUE:
                        pos = end
                        continue
                    return mk('slice', x, a, b, ty=x.ty)
            else:
                s = ZERO
            d = sub(b, end)
            if d is ZERO:
                out.append(p if s is ZERO else slice_(p, s, l))
                return cat(*out) if out else EMPTYB
            if is_cint(d) and cval(d) < 0:
                out.append(slice_(p, s, add(l, d)))
                return cat(*out)
            if ge0(d) is TRUE:
                out.append(p if s is ZERO else slice_(p, s, l))
                pos = end
                continue
            return mk('slice', x, a, b, ty=x.ty)
        return mk('slice', x, a, b, ty=x.ty)
    if x.op == 'rep' and length(x.args[0]) is ONE:
        return rep(x.args[0], sub(b, a))
    return mk('slice', x, a, b, ty=x.ty)


def at(x, i, assume_nonneg=False):
    """x[i] for a sequence/bytes; index assumed in range"""
    if is_cint(i) and cval(i) < 0:
        i = add(length(x), i)
        if is_cint(i) and cval(i) < 0:
            return mk('at', x, i)
    if x.op == 'const' and is_cint(i):
        v = cval(x)
        k = cval(i)
        if k < len(v):
            return const(v[k])
        return mk('at', x, i)
    if x.op in ('seq', 'tuple') and is_cint(i):
        if cval(i) < len(x.args):
            return x.args[cval(i)]
        return mk('at', x, i)
    if x.op in ('seq', 'tuple') and x.args and len(x.args) <= 64:
        r = tab(i, [(const(k), v) for k, v in enumerate(x.args)])
        if r is not None:
            return r
    if x.op == 'digits' and is_cint(i) and cval(i) < len(x.args):
        return mk('chr01', x.args[cval(i)], ty='str')
    if x.ty == 'bytes':
        return unpk('<B', slice_(x, i, add(i, ONE)))
    if x.op == 'rep' and length(x.args[0]) is ONE:
        return at(x.args[0], ZERO)
    if x.op == 'cat':
        pos = ZERO
        # first part that contains i
        parts = x.args
        return _at_cat(parts, i)
    if x.op == 'smap':
        return subst(x.args[1], {x.args[0]: i})
    if x.op == 'upd':
        s, j, v = x.args
        c = eq(i, j)
        if c is TRUE:
            return v
        if c is FALSE:
            return at(s, i)
        return phi(c, v, at(s, i))
    if x.op == 'fill':
        s0, j, v, n = x.args
        c = ge0(sub(sub(n, ONE), i))
        return phi(c, subst(v, {j: i}), at(s0, i))
    if x.op == 'phi':
        return phi(x.args[0], at(x.args[1], i), at(x.args[2], i))
    if x.op == 'slice':
        return at(x.args[0], add(x.args[1], i))
    return mk('at', x, i, ty=ELEMTY.get(x))


ELEMTY = {}


def _at_cat(parts, i):
    if len(parts) == 1:
        return at(parts[0], i)
    l = length(parts[0])
    c = lt(i, l)
    if c is TRUE:
        return at(parts[0], i)
    if c is FALSE:
        return _at_cat(parts[1:], sub(i, l))
    return phi(c, at(parts[0], i), _at_cat(parts[1:], sub(i, l)))


def pk(fmt, v):
    """struct.pack of one little-endian field, as bytes"""
    if fmt[-1] == '?':
        fmt = '<B'
        v = b2i(v)
    if is_cint(v):
        import struct
        try:
            return const(struct.pack(fmt, cval(v)))
        except struct.error:
            pass
    if v.op == 'unpk' and v.args[0] == fmt:
        return v.args[1]
    if v.op == 'phi' and (is_cint(v.args[1]) or is_cint(v.args[2])):
        return phi(v.args[0], pk(fmt, v.args[1]), pk(fmt, v.args[2]))
    return mk('pk', fmt, v, ty='bytes')


def unpk(fmt, b):
    if b.op == 'const':
        import struct
        try:
            return const(struct.unpack(fmt, cval(b))[0])
        except struct.error:
            pass
    if b.op == 'pk' and b.args[0] == fmt:
        return b.args[1]
    return mk('unpk', fmt, b, ty='int')


def fits(x, w):
    """is x surely a number of w bits?"""
    if x.op == 'phi':
        return fits(x.args[1], w) and fits(x.args[2], w)
    if is_cint(x):
        return 0 <= cval(x) < 2 ** w
    if x.op == 'poly':
        n = 0
        for m, c in x.args[0]:
            if c < 0 or len(m) > 1 or m and (upper(m[0]) is None or not nonneg(m[0])):
                return False
            n += c * (upper(m[0]) if m else 1)
        return n < 2 ** w
    return upper(x) is not None and nonneg(x) and upper(x) < 2 ** w


def bit(x, k):
    if is_cint(x):
        return const((cval(x) >> k) & 1)
    if x.op == 'phi' and x.ty == 'int':
        return phi(x.args[0], bit(x.args[1], k), bit(x.args[2], k))
    if x.op == 'poly':
        # sums of distinct powers of two times 0/1 atoms
        p = dict(x.args[0])
        ok = True
        pows = {}
        c0 = p.get((), 0)
        for m, c in p.items():
            if m == ():
                continue
            if len(m) == 1 and _is01(m[0]) and c > 0 and c & (c - 1) == 0 and c not in pows:
                pows[c] = m[0]
            else:
                ok = False
        if ok and c0 >= 0 and not any(c0 & c for c in pows):
            if (1 << k) in pows:
                return pows[1 << k]
            return const((c0 >> k) & 1)
    if _is01(x):
        return x if k == 0 else ZERO
    if x.op == 'shr' and is_cint(x.args[1]) and cval(x.args[1]) >= 0:
        return bit(x.args[0], k + cval(x.args[1]))
    up = upper(x)
    if up is not None and nonneg(x) and (1 << k) > up:
        return ZERO
    return mk('bit', x, k, ty='int')


def band(a, b):
    if is_cint(a) and is_cint(b):
        return const(cval(a) & cval(b))
    if is_cint(a):
        a, b = b, a
    if is_cint(b):
        m = cval(b)
        if m == 0:
            return ZERO
        if m > 0:
            # single-bit and multi-bit masks -> sum of bits (small masks only)
            up = upper(a)
            if up is not None and nonneg(a) and m & (m + 1) == 0 and up <= m:
                return a
            if m < 256:
                r = ZERO
                for k in range(8):
                    if m >> k & 1:
                        r = add(r, mul(const(1 << k), bit(a, k)))
                return r
            if m & (m + 1) == 0 and a.op == 'call' and a.args[0] in ('zlib.adler32', 'zlib.crc32') \
                    and m >= 0xffffffff:
                return a
            return mk('band', a, b, ty='int')
    if a.uid > b.uid:
        a, b = b, a
    return mk('band', a, b, ty='int')


def shr(a, b):
    if is_cint(a) and is_cint(b) and cval(b) >= 0:
        return const(cval(a) >> cval(b))
    if is_cint(b) and cval(b) >= 0:
        up = upper(a)
        k = cval(b)
        if k == 0:
            return a
        if a.op == 'poly' and all(m and len(m) == 1 and _is01(m[0]) and c > 0 and c & (c - 1) == 0
                                  for m, c in a.args[0]) and len(set(c for _, c in a.args[0])) == len(a.args[0]):
            # distinct powers of two
            r = ZERO
            for m, c in a.args[0]:
                r = add(r, mul(const(c >> k), m[0]))
            return r
        if up is not None and nonneg(a) and up <= 0xffff:
            r = ZERO
            for j in range(k, up.bit_length()):
                r = add(r, mul(const(1 << (j - k)), bit(a, j)))
            return r
    return mk('shr', a, b, ty='int')


def shl(a, b):
    if is_cint(b) and cval(b) >= 0 and cval(b) < 256:
        return mul(a, const(1 << cval(b)))
    return mk('shl', a, b, ty='int')


def bor(a, b):
    if is_cint(a) and is_cint(b):
        return const(cval(a) | cval(b))
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    pa, pb = _bitset(a), _bitset(b)
    if pa is not None and pb is not None and not (pa & pb):
        return add(a, b)
    if a.uid > b.uid:
        a, b = b, a
    return mk('bor', a, b, ty='int')


def _bitset(t):
    """mask of possibly-set bits, when known"""
    if is_cint(t):
        return cval(t) if cval(t) >= 0 else None
    p = to_poly(t)
    mask = 0
    for m, c in p.items():
        if m == ():
            if c < 0:
                return None
            if mask & c:
                return None
            mask |= c
        elif len(m) == 1 and _is01(m[0]) and c > 0 and c & (c - 1) == 0:
            if mask & c:
                return None
            mask |= c
        elif len(m) == 1 and c > 0 and c & (c - 1) == 0 and upper(m[0]) is not None and nonneg(m[0]):
            mm = ((1 << upper(m[0]).bit_length()) - 1) * c
            if mask & mm:
                return None
            mask |= mm
        else:
            return None
    return mask


def digits_of(x, width=8):
    return mk('digits', *[i2b(bit(x, k)) for k in range(width - 1, -1, -1)], ty='str')


def digits(*bs):
    if all(b.op == 'const' for b in bs):
        return const(''.join('1' if b.args[0] else '0' for b in bs))
    return mk('digits', *bs, ty='str')


def chr01(b):
    return const('1' if b.args[0] else '0') if b.op == 'const' else mk('chr01', b, ty='str')


def i2b(x):
    """boolean of an int"""
    return not_(eq0(x))


def int_of_digits(d):
    r = ZERO
    n = len(d.args)
    for i, b in enumerate(d.args):
        r = add(r, mul(const(1 << (n - 1 - i)), b2i(b)))
    # recombine the 8 bits of a byte
    return recombine(r)


def recombine(t):
    p = to_poly(t)
    by = {}
    for m, c in p.items():
        if len(m) == 1 and m[0].op == 'bit' and c == (1 << m[0].args[1]):
            by.setdefault(m[0].args[0], []).append(m)
    for x, ms in by.items():
        up = upper(x)
        if up is not None and nonneg(x) and len(ms) == up.bit_length():
            q = {m: c for m, c in p.items() if m not in ms}
            q = padd(q, {(x,): 1})
            return from_poly(q)
    return t


def call(name, args=(), kw=(), ty=None):
    """pure external function application"""
    return mk('call', name, tuple(args), tuple(kw), ty=ty)


# -------------------------------------------------------- generic traversal
def children(t):
    op = t.op
    if op in ('const', 'sym', 'obj', 'func', 'class', 'ext', 'module', 'lv', 'exc'):
        return ()
    if op == 'poly':
        return tuple(a for m, c in t.args[0] for a in m)
    if op == 'tab':
        return (t.args[0],) + tuple(x for kv in t.args[1] for x in kv)
    if op == 'call':
        return t.args[1] + tuple(v for _, v in t.args[2])
    if op == 'dict':
        return tuple(x for kv in t.args for x in kv)
    return tuple(a for a in t.args if isinstance(a, T))


_ccache = {}


_amemo = {}


def atoms(t):
    """all subterms, including t"""
    r = _amemo.get(t)
    if r is not None:
        return r
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in out:
            continue
        r = _amemo.get(x)
        if r is not None:
            out |= r
            continue
        out.add(x)
        stack.extend(children(x))
    out = frozenset(out)
    if len(out) < 600:
        _amemo[t] = out
    return out


def contains(t, x):
    return x in atoms(t)


def rebuild(t, f):
    """apply f to the children of t and renormalise"""
    op, a = t.op, t.args
    if op in ('const', 'sym', 'obj', 'func', 'class', 'ext', 'module', 'lv', 'exc'):
        return t
    if op == 'poly':
        r = ZERO
        for m, c in a[0]:
            x = const(c)
            for y in m:
                x = mul(x, f(y))
            r = add(r, x)
        return r
    if op == 'tab':
        x = f(a[0])
        items = [(k, f(v)) for k, v in a[1]]
        r = tab(x, items)
        return r if r is not None else mk('tab', x, tuple(items), ty=t.ty)
    if op == 'call':
        return simp_call(a[0], tuple(f(x) for x in a[1]), tuple((k, f(v)) for k, v in a[2]), t.ty)
    if op == 'dict':
        return mk('dict', *[(f(k), f(v)) for k, v in a], ty=t.ty)
    na = tuple(f(x) if isinstance(x, T) else x for x in a)
    if all(x is y for x, y in zip(na, a)):
        return t
    g = CONS.get(op)
    if g is not None:
        return g(*na)
    return mk(op, *na, ty=t.ty)


CALL_SIMP = {}


def simp_call(name, args, kw, ty):
    g = CALL_SIMP.get(name)
    if g is not None:
        r = g(args, kw)
        if r is not None:
            return r
    return mk('call', name, args, kw, ty=ty)


def truthy(t):
    if is_const(t):
        return const(bool(cval(t)))
    if t.ty in ('str', 'bytes'):
        return not_(eq0(length(t)))
    return mk('truthy', t, ty='bool')


CONS = {'truthy': truthy, 'ge0': ge0, 'eq0': eq0, 'not': not_, 'and': and_, 'or': or_, 'eq': eq,
        'isnone': is_none, 'phi': phi, 'len': length, 'cat': cat, 'rep': rep,
        'slice': slice_, 'at': at, 'pk': pk, 'unpk': unpk, 'bit': bit,
        'fdiv': fdiv, 'fmod': fmod, 'b2i': b2i, 'band': band, 'bor': bor, 'shr': shr,
        'digits': digits, 'chr01': chr01}


def subst(t, m):
    if not m:
        return t
    memo = {}
    keys = frozenset(m)

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            if keys.isdisjoint(atoms(x)):
                memo[x] = x
                return x
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def bmap(i, body, n):
    """concatenation over i in [0,n) of bytes body(i)"""
    if not contains(body, i):
        return rep(body, n)
    return mk('bmap', i, body, n, ty=body.ty or 'bytes')


def smap(i, body, n):
    """the list [body(i) for i in range(n)]"""
    if not contains(body, i):
        return rep(mk('seq', body, ty='seq'), n)
    if body.op == 'at' and body.args[1] is i and length(body.args[0]) is n:
        return body.args[0]
    return mk('smap', i, body, n, ty='seq')


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    op, a = t.op, t.args
    if d > 7:
        return '…'
    s = lambda x: show(x, d + 1)
    if op == 'const':
        return repr(a[0])
    if op == 'sym':
        return a[0]
    if op == 'poly':
        out = []
        for m, c in a[0]:
            ms = '*'.join(s(x) for x in m)
            if not ms:
                out.append('%+d' % c)
            elif c == 1:
                out.append('+' + ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append('%+d*%s' % (c, ms))
        return '(' + ''.join(out).lstrip('+') + ')'
    if op == 'phi':
        return '(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'tab':
        return 'tab(%s,{%s})' % (s(a[0]), ', '.join('%s:%s' % (s(k), s(v)) for k, v in a[1][:3]) +
                                 (',…' if len(a[1]) > 3 else ''))
    if op == 'call':
        return '%s(%s)' % (a[0], ', '.join([s(x) for x in a[1]] + ['%s=%s' % (k, s(v)) for k, v in a[2]]))
    if op == 'ge0':
        return '%s>=0' % s(a[0])
    if op == 'eq0':
        return '%s==0' % s(a[0])
    if op == 'eq':
        return '%s==%s' % (s(a[0]), s(a[1]))
    if op == 'not':
        return '!(%s)' % s(a[0])
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(s(x) for x in a) + ')'
    if op == 'slice':
        return '%s[%s:%s]' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'at':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'cat':
        return ' ++ '.join(s(x) for x in a)
    if op == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if op == 'obj':
        return '<%s %s>' % (a[1], a[0])
    if op == 'dict':
        return '{%s}' % ', '.join('%s:%s' % (s(k), s(v)) for k, v in a[:4])
    return '%s(%s)' % (op, ', '.join(s(x) for x in a))
