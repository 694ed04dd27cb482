"""Entailment in the linear-inequality / predicate abstract domain.

`_entails(facts, goal)` answers True only if the goal follows from the facts
(which are the path condition of a program point plus rule-supplied facts).
It is a small, incomplete, hand-written domain operation: unit propagation,
case split on phi gates, and Gaussian/Fourier-Motzkin elimination over linear
integer constraints.  No external solver is involved.
"""
from math import gcd

from .terms import *   # noqa
from . import terms as tm

MAXDEPTH = 14


def entails(facts, goal, depth=MAXDEPTH):
    _budget[0] = 0
    return _entails(facts, goal, depth)


def contradictory(facts, depth=MAXDEPTH):
    """True only if the facts are unsatisfiable"""
    _budget[0] = 0
    return _contra(facts, depth)


def _entails(facts, goal, depth=MAXDEPTH):
    if goal is TRUE:
        return True
    if goal.op == 'and':
        return all(_entails(facts, g, depth) for g in goal.args)
    fs = set()
    for f in facts:
        for x in (f.args if f.op == 'and' else (f,)):
            fs.add(x)
    if goal in fs:
        return True
    if goal.op == 'or' and any(g in fs for g in goal.args):
        return True
    if goal is FALSE:
        return _contra(list(fs), depth)
    return _contra(list(fs) + [not_(goal)], depth, focus=goal)


def unit(f):
    """(x, k) when the linear equation fixes one atom to a constant"""
    p = to_poly(f.args[0])
    ms = [k for k in p if k != ()]
    if len(ms) == 1 and len(ms[0]) == 1 and p.get((), 0) % p[ms[0]] == 0 and ms[0][0].op != 'const':
        return ms[0][0], const(-p.get((), 0) // p[ms[0]])
    return None


def consistent(facts):
    return not _contra(list(facts), 4)


def prove_eq(facts, a, b, depth=MAXDEPTH):
    """facts |- a == b (value equality), splitting on phi gates"""
    if a is b:
        return True
    return _peq(list(facts), a, b, depth)


def _peq(facts, a, b, depth):
    if a is b:
        return True
    a, b = simp(facts, a), simp(facts, b)
    if a is b:
        return True
    g = eq(a, b)
    if g is TRUE:
        return True
    if depth > 0:
        c = first_gate(a, b)
        if c is not None:
            r = True
            for lit in (c, not_(c)):
                nf = facts + list(lit.args if lit.op == 'and' else (lit,))
                if _contra(nf, 3):
                    continue
                if not _peq(nf, a, b, depth - 1):
                    r = False
                    break
            if r:
                return True
            return False
    if g.op in ('eq0', 'ge0', 'and', 'or') or a.ty in INTLIKE or b.ty in INTLIKE or a.ty == 'bool':
        return _entails(facts, g, 6)
    # congruence: same operator, arguments provably equal
    if a.op == b.op and a.op in ('slice', 'at', 'cat', 'rep', 'pk', 'rd', 'len', 'tuple', 'seq', 'encode', 'bmap',
                                 'smap', 'upd') \
            and len(a.args) == len(b.args) and depth > 0:
        return all((x is y) or (isinstance(x, T) and isinstance(y, T) and _peq(facts, x, y, depth - 3))
                   or (not isinstance(x, T) and x == y)
                   for x, y in zip(a.args, b.args))
    if a.op == 'call' and b.op == 'call' and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]) \
            and [k for k, _ in a.args[2]] == [k for k, _ in b.args[2]] and depth > 0:
        return all(_peq(facts, x, y, depth - 3) for x, y in zip(a.args[1], b.args[1])) and \
            all(_peq(facts, x, y, depth - 3) for (_, x), (_, y) in zip(a.args[2], b.args[2]))
    return False


def first_gate(*ts):
    """innermost phi condition occurring in the terms"""
    best = None
    for t in ts:
        for x in atoms(t):
            if x.op == 'phi':
                c = x.args[0]
                if not any(y.op == 'phi' for y in atoms(c)):
                    if best is None or c.uid < best.uid:
                        best = c
    if best is None:
        # truth values used as numbers
        for t in ts:
            for x in atoms(t):
                if x.op == 'b2i' and x.args[0].op in ('eq0', 'ge0', 'and', 'or') and \
                        (best is None or x.args[0].uid < best.uid):
                    best = x.args[0]
    if best is None:
        return None
    if best.op in ('and', 'or'):
        return min(best.args, key=lambda t: t.uid)
    return best


def simp(facts, t):
    """rewrite t using the literals of the path condition"""
    m = lits(facts)
    if not m:
        return t
    eqs = {}
    for f in m:
        if f.op == 'eq' and m[f] is TRUE:
            x, y = f.args
            if is_const(x) and not is_const(y):
                x, y = y, x
            if is_const(y) and not is_const(x):
                eqs[x] = y
        elif f.op == 'eq0' and m[f] is TRUE:
            p = to_poly(f.args[0])
            ms = [k for k in p if k != ()]
            if len(ms) == 1 and len(ms[0]) == 1 and abs(p[ms[0]]) == 1:
                x = ms[0][0]
                if x.op != 'const':
                    eqs[x] = const(-p.get((), 0) * p[ms[0]])
        elif f.op == 'isnone' and m[f] is TRUE:
            eqs[f.args[0]] = NONE
    memo = {}
    linear = [f for f in m if f.op in ('ge0', 'eq0')]

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in eqs:
            r = eqs[x]
        elif x in m:
            r = m[x]
        elif x.op == 'phi':
            c = go(x.args[0])
            if c is TRUE:
                r = go(x.args[1])
            elif c is FALSE:
                r = go(x.args[2])
            else:
                if c.op in ('ge0', 'eq0') and linear:
                    if _lin_entails(facts, c):
                        r = go(x.args[1])
                    elif _lin_entails(facts, not_(c)):
                        r = go(x.args[2])
                if r is None:
                    r = phi(c, go(x.args[1]), go(x.args[2]))
        elif x.op == 'tab':
            k = go(x.args[0])
            r = tm.rebuild(x, go)
            if r.op == 'tab':
                # drop table entries excluded by the facts
                keep = [(kk, v) for kk, v in r.args[1]
                        if m.get(eq(r.args[0], kk)) is not FALSE]
                if 0 < len(keep) < len(r.args[1]):
                    r2 = tab(r.args[0], keep)
                    r = r2 if r2 is not None else r
        else:
            r = tm.rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def lits(facts):
    m = {}
    stack = list(facts)
    while stack:
        f = stack.pop()
        if f.op == 'and':
            stack.extend(f.args)
            continue
        m[f] = TRUE
        n = not_(f)
        if n.op not in ('and', 'or'):
            m[n] = FALSE
        if f.op == 'not':
            m[f.args[0]] = FALSE
    return m


def _lin_entails(facts, c):
    if not (c.op in ('ge0', 'eq0') or (c.op == 'not' and c.args[0].op == 'eq0')):
        return False
    lin = [f for f in _flat(facts) if f.op in ('ge0', 'eq0')]
    n = not_(c)
    if n.op == 'not':      # negated equality: two half planes must both fail
        p = n.args[0].args[0]
        return infeasible(lin + [ge0(sub(p, ONE))]) and infeasible(lin + [ge0(sub(const(-1), p))])
    return infeasible(lin + [n])


def _flat(facts):
    out = []
    for f in facts:
        if f.op == 'and':
            out.extend(_flat(f.args))
        else:
            out.append(f)
    return out


def _contra(facts, depth=MAXDEPTH, focus=None):
    """True only if the facts are unsatisfiable"""
    _budget[0] += 1
    if _budget[0] > BUDGET:
        return False
    work = []
    seen = set()
    for f in _flat(facts):
        if f is FALSE:
            return True
        if f is TRUE or f in seen:
            continue
        seen.add(f)
        work.append(f)
    for f in work:
        if not_(f) in seen:
            return True
    # equalities to constants are substituted everywhere
    for _ in range(3):
        m = {}
        for f in work:
            if f.op == 'eq' and (is_const(f.args[0]) != is_const(f.args[1])):
                x, y = f.args
                if is_const(x):
                    x, y = y, x
                if x not in m:
                    m[x] = y
            elif f.op == 'isnone':
                m[f.args[0]] = NONE
            elif f.op == 'eq0':
                u = unit(f)
                if u is not None and u[0] not in m:
                    m[u[0]] = u[1]
        if not m:
            break
        changed = False
        nw = []
        for f in work:
            if f.op == 'eq' and (f.args[0] in m and m[f.args[0]] is f.args[1] or
                                 f.args[1] in m and m[f.args[1]] is f.args[0]):
                nw.append(f)
                continue
            if f.op == 'isnone' and f.args[0] in m and m[f.args[0]] is NONE:
                nw.append(f)
                continue
            if f.op == 'eq0':
                u = unit(f)
                if u is not None and m.get(u[0]) is u[1]:
                    nw.append(f)
                    g = subst(f, {k: v for k, v in m.items() if k is not u[0]})
                    if g is FALSE:
                        return True
                    if g is not f and g is not TRUE:
                        nw.extend(_flat([g]))
                        changed = True
                    continue
            g = subst(f, m)
            if g is not f:
                changed = True
            if g is FALSE:
                return True
            if g is not TRUE:
                nw.extend(_flat([g]))
        work = nw
        if not changed:
            break
    # unit propagation over clauses
    changed = True
    while changed:
        changed = False
        litset = set(f for f in work if f.op != 'or')
        nw = []
        for f in work:
            if f.op == 'or':
                if any(x in litset for x in f.args):
                    changed = True
                    continue
                keep = [x for x in f.args if not_(x) not in litset
                        and not (x.op == 'and' and any(not_(y) in litset for y in x.args))]
                if not keep:
                    return True
                if len(keep) < len(f.args):
                    changed = True
                    nw.extend(_flat([or_(*keep)]))
                    continue
            nw.append(f)
        work = nw
        s = set(work)
        if any(not_(f) in s for f in work if f.op != 'or'):
            return True
    lin = [f for f in work if f.op in ('ge0', 'eq0')]
    if lin and infeasible(lin):
        return True
    if depth <= 0:
        return False
    # gates inside linear facts
    gates = [f for f in work if f.op not in ('or',)]
    c = first_gate(*gates) if gates else None
    if c is not None:
        for lit in (c, not_(c)):
            base = _flat([lit])
            nf = base + [simp(base, f) for f in work]
            if not _contra(nf, depth - 1):
                return False
        return True
    # finite tables
    tabs = None
    for f in work:
        if f.op in ('or',):
            continue
        for x in atoms(f):
            if x.op == 'tab' and x.ty == 'int' and len(x.args[1]) <= 16:
                if tabs is None or x.uid < tabs.uid:
                    tabs = x
    if tabs is not None and depth >= 3:
        for k, v in tabs.args[1]:
            nf = [eq(tabs.args[0], k)] + [subst(f, {tabs: v}) for f in work]
            if not _contra(nf, depth - 3):
                return False
        return True
    # disequalities
    for f in work:
        if f.op == 'not' and f.args[0].op == 'eq0' and lin:
            p = f.args[0].args[0]
            rest = [g for g in work if g is not f]
            vs = set(tm.children(p)) | ({p} if p.op != 'poly' else set())
            if not any(vs & atoms(g) for g in lin):
                continue
            a = _contra(rest + [ge0(sub(p, ONE))], depth - 2)
            if not a:
                continue
            b = _contra(rest + [ge0(sub(const(-1), p))], depth - 2)
            if b:
                return True
    # clauses
    ors = [f for f in work if f.op == 'or']
    if ors:
        f = min(ors, key=lambda g: (len(g.args), g.uid))
        rest = [g for g in work if g is not f]
        prev = []
        for x in f.args:
            if not _contra(rest + prev + [x], depth - 2):
                return False
            n = not_(x)
            if n.op != 'or':
                prev.append(n)
        return True
    return False


# ------------------------------------------------------- linear arithmetic
def implied(atomset):
    """background facts about uninterpreted integer atoms"""
    out = []
    todo = list(atomset)
    seen = set()
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        if nonneg(a):
            out.append(to_poly(a))
        up = upper(a)
        if up is not None:
            out.append(padd({(): up}, to_poly(a), -1))
        lo = lower(a)
        if lo is not None and lo != 0:
            out.append(padd(to_poly(a), {(): lo}, -1))
        if a.op in ('fmod', 'fdiv'):
            num, den = a.args
            if is_cint(den) and cval(den) > 0:
                d = cval(den)
                q, r = mk('fdiv', num, den, ty='int'), mk('fmod', num, den, ty='int')
                # num = d*q + r, 0 <= r < d
                e = padd(padd(to_poly(num), {(q,): d}, -1), {(r,): 1}, -1)
                out.append(e)
                out.append({m: -c for m, c in e.items()})
                out.append({(r,): 1})
                out.append(padd({(): d - 1}, {(r,): 1}, -1))
                for m in to_poly(num):
                    for x in m:
                        todo.append(x)
            else:
                out.append(('divmod', num, den))
        if a.op == 'len' and a.args[0].op == 'slice':
            pass
    return out


_infmemo = {}


def infeasible(lits_):
    key = frozenset(lits_)
    r = _infmemo.get(key)
    if r is None:
        r = _infmemo[key] = _infeasible(lits_)
    return r


def _infeasible(lits_):
    eqs, ges = [], []
    atomset = set()
    for f in lits_:
        p = to_poly(f.args[0])
        (eqs if f.op == 'eq0' else ges).append(p)
    for p in eqs + ges:
        for m in p:
            atomset.update(m)
    # numeric atoms reachable inside fdiv/fmod
    extra = implied(atomset)
    for e in extra:
        if isinstance(e, tuple):
            _, num, den = e
            # with den >= 1 known: 0 <= r <= den-1 ; q>=0 if num>=0 ; q>=1 if num>=den
            if _known(ges, eqs, padd(to_poly(den), {(): -1})):
                q, r = mk('fdiv', num, den, ty='int'), mk('fmod', num, den, ty='int')
                ges.append({(r,): 1})
                ges.append(padd(padd(to_poly(den), {(r,): 1}, -1), {(): -1}))
                if _known(ges, eqs, to_poly(num)):
                    ges.append({(q,): 1})
                    ges.append(padd(to_poly(num), {(r,): 1}, -1))
                    ges.append(padd(to_poly(num), {(q,): 1}, -1))
                d = padd(to_poly(num), to_poly(den), -1)
                if _known(ges, eqs, d):
                    ges.append({(q,): 1, (): -1})
                d1 = padd(d, {(): -1})
                # num < den  =>  q = 0
                if _known(ges, eqs, padd({m: -c for m, c in d.items()}, {(): -1})):
                    eqs.append({(q,): 1})
        else:
            ges.append(e)
    # products of known-sign factors are handled as opaque monomials
    return _fm(eqs, ges)


def _known(ges, eqs, p):
    """p >= 0 syntactically or by single-constraint implication"""
    if not p:
        return True
    if list(p) == [()]:
        return p[()] >= 0
    for g in ges:
        d = padd(p, g, -1)
        if not d or (list(d) == [()] and d[()] >= 0):
            return True
    if all(c >= 0 and (m == () or all(nonneg(a) for a in m)) for m, c in p.items()):
        return True
    for e in eqs:
        for s in (1, -1):
            d = padd(p, e, s)
            if not d or (list(d) == [()] and d[()] >= 0):
                return True
    for i, g in enumerate(ges):
        for h in ges[i:]:
            d = padd(padd(p, g, -1), h, -1)
            if not d or (list(d) == [()] and d[()] >= 0):
                return True
    return False


def _fm(eqs, ges):
    """Gaussian and Fourier-Motzkin elimination over integer coefficients.  A
    constraint is a dict from variable number to coefficient; 0 is the constant"""
    order = sorted({m for p in eqs + ges for m in p if m != ()}, key=lambda m: (len(m), [a.uid for a in m]))
    num = {m: i + 1 for i, m in enumerate(order)}
    num[()] = 0
    eqs = [{num[m]: c for m, c in p.items() if c} for p in eqs]
    ges = [{num[m]: c for m, c in p.items() if c} for p in ges]
    # Gaussian elimination
    while eqs:
        e = eqs.pop()
        vs = [m for m in e if m]
        k = e.get(0, 0)
        if not vs:
            if k:
                return True
            continue
        g = gcd(*[e[m] for m in vs])
        if k % g:
            return True
        if g > 1:
            e = {m: c // g for m, c in e.items()}
        v = min(vs, key=lambda m: (abs(e[m]) != 1, m))
        c = e[v]
        if c < 0:
            e = {m: -x for m, x in e.items()}
            c = -c

        def elim(p):
            k = p.get(v)
            if not k:
                return p
            r = {m: x * c for m, x in p.items()} if c != 1 else dict(p)
            for m, d in e.items():
                x = r.get(m, 0) - k * d
                if x:
                    r[m] = x
                else:
                    r.pop(m, None)
            return r
        eqs = [elim(p) for p in eqs]
        ges = [elim(p) for p in ges]
    ges = _norm(ges)
    if ges is None:
        return True
    while True:
        pos, neg_ = {}, {}
        for p in ges:
            for m, c in p.items():
                if m:
                    w = pos if c > 0 else neg_
                    w[m] = w.get(m, 0) + 1
        vs = set(pos) | set(neg_)
        if not vs:
            return False
        v = min(vs, key=lambda m: (pos.get(m, 0) * neg_.get(m, 0), m))
        if not (pos.get(v) and neg_.get(v)):
            # variables bounded on one side only carry no information
            drop = {m for m in vs if not (pos.get(m) and neg_.get(m))}
            ges = [p for p in ges if not any(m in drop for m in p)]
            continue
        if pos[v] * neg_[v] > 600:
            return False
        ps, ns, rest = [], [], []
        for p in ges:
            k = p.get(v, 0)
            (ps if k > 0 else ns if k < 0 else rest).append(p)
        for p in ps:
            for q in ns:
                a, b = p[v], -q[v]
                r = {m: c * b for m, c in p.items()}
                for m, c in q.items():
                    x = r.get(m, 0) + c * a
                    if x:
                        r[m] = x
                    else:
                        r.pop(m, None)
                rest.append(r)
        ges = _norm(rest)
        if ges is None:
            return True
        if len(ges) > 1500:
            return False


def _norm(ges):
    """coefficients divided by their gcd, the constant tightened, duplicates merged"""
    out = {}
    for p in ges:
        k = p.get(0, 0)
        vs = [m for m in p if m]
        if not vs:
            if k < 0:
                return None
            continue
        g = gcd(*[p[m] for m in vs])
        key = tuple(sorted((m, p[m] // g) for m in vs))
        k = k // g
        o = out.get(key)
        if o is None or k < o:
            out[key] = k
    res = []
    for key, k in out.items():
        o = out.get(tuple((m, -c) for m, c in key))
        if o is not None and o + k < 0:
            return None
        d = dict(key)
        if k:
            d[0] = k
        res.append(d)
    return res


# ------------------------------------------------------ relevance filtering
_leafmemo = {}


def leaves(t):
    r = _leafmemo.get(t)
    if r is None:
        r = frozenset(x for x in atoms(t) if x.op in ('sym', 'lv', 'obj', 'rd', 'call', 'len', 'at', 'attr', 'opaque'))
        _leafmemo[t] = r
    return r


def tiers(facts, *goal):
    """growing subsets of the facts, the ones about the goal's own symbols first"""
    facts = _flat(list(facts))
    g = frozenset().union(*[leaves(x) for x in goal])
    small = [f for f in facts if leaves(f) <= g]
    if len(small) < len(facts):
        yield small
    mid = [f for f in facts if leaves(f) & g]
    if len(small) < len(mid) < len(facts):
        yield mid
    yield facts


def holds(facts, goal):
    _budget[0] = 0
    for fs in tiers(facts, goal):
        if _entails(fs, goal):
            return True
    return False


def same(facts, a, b):
    if a is b:
        return True
    _budget[0] = 0
    facts = _flat(list(facts))
    if _gates(facts, [], a, b, 16):
        return True
    if budget_left() <= 0:
        return False
    for fs in tiers(facts, a, b):
        if prove_eq(fs, a, b):
            return True
    return False


def _gates(facts, cs, a, b, depth):
    """case analysis over the gates and tables of a and b alone; the facts only serve to discard cases"""
    a, b = simp(cs, a), simp(cs, b)
    if a is b or eq(a, b) is TRUE:
        return True
    alts = None
    if depth > 0:
        c = first_gate(a, b)
        if c is not None:
            alts = [c, not_(c)]
        else:
            tb = [x for t in (a, b) for x in atoms(t) if x.op == 'tab']
            if tb:
                x = min(tb, key=lambda t: t.uid)
                key = x.args[0]
                ks = [k for y in tb if y.args[0] is key for k, _ in y.args[1]]
                if len(set(ks)) <= 20:
                    alts = [eq(key, k) for k in dict.fromkeys(ks)]
                    alts.append(and_(*[not_(x) for x in alts]))
    if alts is None:
        rel = [f for f in facts if leaves(f) & (leaves(a) | leaves(b))]
        if a.ty in INTLIKE or b.ty in INTLIKE:
            small = [f for f in rel if leaves(f) <= (leaves(a) | leaves(b))]
            if small and _entails(small + cs, eq(a, b), 3):
                return True
        return _contra([simp(cs, f) for f in rel] + cs, 1)
    for c in alts:
        nc = cs + _flat([c])
        if c is FALSE or infeasible_quick(nc):
            continue
        if not _gates(facts, nc, a, b, depth - 1):
            # is the case possible at all?
            sub_ = [f for f in facts if leaves(f) <= frozenset().union(*[leaves(x) for x in nc])]
            if not _contra(sub_ + nc, 2):
                return False
    return True


def infeasible_quick(fs):
    m = lits(fs)
    return any(not_(f) in m and m[not_(f)] is TRUE for f in m if m[f] is TRUE) or _contra(fs, 0)


# ------------------------------------------------------------- work budget
_budget = [0, 0]
BUDGET = 6000


def budget_left():
    return BUDGET - _budget[0]
