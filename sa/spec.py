"""Shared helpers of the rules: obligations, output layout, event sequences."""
from .terms import *   # noqa
from . import terms as tm
from .prove import entails, prove_eq, simp, contradictory, lits, infeasible, holds, same
from .interp import AnalysisBroken


class Report(object):
    """obligations of one property"""

    def __init__(self, prop, title):
        self.prop, self.title = prop, title
        self.obs = []           # (ok, description, site, detail)
        self.contexts = []
        self.undecided = []
        self.assumptions = []

    def context(self, r):
        self.contexts.append(r)
        return r

    def ok(self, cond, desc, site='', detail='', r=None):
        if not cond and r is not None and r.unmodelled:
            self.undecided.append((desc, site, 'construct outside the model: %s' % (r.unmodelled[:3],)))
            return False
        self.obs.append((bool(cond), desc, site, '' if cond else detail))
        return bool(cond)

    @property
    def failed(self):
        return [o for o in self.obs if not o[0]]


def flat(pc):
    out = []
    for c in pc:
        if c.op == 'and':
            out.extend(flat(c.args))
        else:
            out.append(c)
    return out


def rel(facts, pc):
    """the part of a path condition the facts do not already imply"""
    res = []
    fs = tuple(facts)
    for c in flat(pc):
        if c in fs:
            continue
        if entails(fs, c, 6):
            continue
        res.append(c)
    return res


def base_obj(o):
    return o


class Loopy(object):
    def __init__(self, loop):
        self.loop = loop
        self.items = []


def tree(events):
    """events arranged by loop nest, in program order"""
    root = []
    stack = [(None, root)]
    for e in events:
        ls = e.loops
        # pop to the common prefix
        k = 0
        while k < len(ls) and k + 1 < len(stack) and stack[k + 1][0].loop is ls[k]:
            k += 1
        del stack[k + 1:]
        for l in ls[k:]:
            n = Loopy(l)
            stack[-1][1].append(n)
            stack.append((n, n.items))
        stack[-1][1].append(e)
    return root


def writes_to(r, o):
    return [e for e in r.events if e.kind == 'write' and same_obj(e.args[0], o)]


def same_obj(a, b):
    return a is b


def cond_bytes(conds, data):
    if not conds:
        return data
    return phi(and_(*conds), data, EMPTYB)


class Layout(object):
    """the bytes a run of writes puts at a run of positions"""

    def __init__(self, start):
        self.start = start
        self.parts = []
        self.events = []
        self.gaps = []          # (event, expected position, actual position)

    @property
    def data(self):
        return cat(*self.parts) if self.parts else EMPTYB


def run_bytes(items, facts, start, lay=None):
    """concatenate consecutive write events; loops contribute rep/bmap"""
    lay = lay or Layout(start)
    pos = start
    for it in items:
        if isinstance(it, Loopy):
            l = it.loop
            inner = Layout(None)
            lf = tuple(facts) + tuple(getattr(l, 'body_pc', ()))
            head = None
            sub_ = run_bytes(it.items, tuple(l.end_pc or lf), None, inner)
            data = bmap(l.idx, inner.data, l.trip)
            lay.events.extend(inner.events)
            lay.gaps.extend(inner.gaps)
            lay.parts.append(data)
            if pos is not None:
                pos = add(pos, length(data))
            continue
        e = it
        conds = rel(facts, e.pc)
        d = e.args[1]
        f2 = tuple(facts) + tuple(conds)
        d = simp(f2, d)
        if pos is not None:
            if not prove_eq(list(f2), pos, e.x['pos']):
                lay.gaps.append((e, pos, e.x['pos']))
        else:
            pos = e.x['pos']
        part = cond_bytes(conds, d)
        lay.parts.append(part)
        lay.events.append(e)
        pos = add(pos, length(part))
    lay.end = pos
    return lay


def norm(F, t):
    F = tuple(F)
    for _ in range(4):
        b = simp(F, t)
        if b is t:
            break
        t = b
    return t


def cut(F, data, a, b=None):
    """bytes a:b of data, where the limits fall between its parts (or inside of constants)"""
    F = tuple(F)
    parts = list(data.args) if data.op == 'cat' else [data]
    out, pos, on = [], ZERO, False
    for p in parts + [None]:
        if p is None:
            if not on and same(F, pos, a):
                return EMPTYB
            return cat(*out) if on and (b is None or same(F, pos, b)) else None
        if p.op == 'const':
            n = len(cval(p))
            lo, hi = 0, n
            if not on:
                d = near(F, a, pos, n)
                if d is None:
                    pos = add(pos, const(n))
                    continue
                if d == n:
                    pos = add(pos, const(n))
                    continue
                lo, on = d, True
            if b is not None:
                d = near(F, b, pos, n)
                if d is not None:
                    out.append(const(cval(p)[lo:d]))
                    return cat(*out)
            out.append(const(cval(p)[lo:]))
            pos = add(pos, const(n))
            continue
        if not on and same(F, pos, a):
            on = True
        if on and b is not None and same(F, pos, b):
            return cat(*out) if out else EMPTYB
        if on:
            out.append(p)
        pos = norm(F, add(pos, length(p)))
    return None


def near(F, a, pos, n):
    d = sub(a, pos)
    if not is_const(d):
        d = norm(F, d)
    if is_const(d):
        return cval(d) if 0 <= cval(d) <= n else None
    if same(F, a, pos):
        return 0
    return None


def site_of(evs):
    return ', '.join(sorted(set(e.site for e in evs))) if evs else ''


def ends_normally(r):
    return r.st is not None


# ------------------------------------------------------------ chunk stream
COMPRESS = ('blosc.compress', 'blosc.compress_ptr', 'blosc.pack_array')
CHECKSUM_SIZES = [('None', 0), ('adler32', 4), ('crc32', 4), ('md5', 16), ('sha1', 20), ('sha224', 28),
                  ('sha256', 32), ('sha384', 48), ('sha512', 64)]


def digest_spec(name, data):
    """the documented digest of `data` under checksum `name`"""
    if name == 'None':
        return EMPTYB
    if name in ('adler32', 'crc32'):
        return pk('<I', band(mk('call', 'zlib.' + name, (data,), (), ty='int'), const(0xffffffff)))
    return mk('call', 'hashlib.%s.digest' % name, (data,), (), ty='bytes')


class Unit(object):
    """one symbolic chunk: a compress call with the writes of its result"""
    __slots__ = ('ev', 'loop', 'writes', 'base', 'trip', 'idx', 'facts', 'start', 'data', 'lay')


def loop_chain(e):
    return e.loops


def units(r, evs, out=None, facts=None):
    """the compress events of a context, arranged as consecutive segments of the chunk sequence"""
    us = []
    base = ZERO
    problems = []
    for e in evs:
        u = Unit()
        u.ev = e
        if len(e.loops) > 1:
            problems.append((e, 'nested loops around the chunk handling'))
        u.loop = e.loops[0] if e.loops else None
        prev = [v for v in us if v.loop is u.loop and u.loop is not None]
        if u.loop is not None:
            u.trip, u.idx = u.loop.trip, u.loop.idx
            u.facts = tuple(u.loop.end_pc or e.pc)
            if u.loop.has_break:
                problems.append((e, 'the loop over the chunks can be left early'))
        else:
            u.trip, u.idx = ONE, ZERO
            u.facts = tuple(r.st.pc if r.st is not None else e.pc)
        u.base = prev[0].base if prev else base
        if not prev:
            base = add(base, u.trip)
        us.append(u)
    return us, base, problems


def unit_writes(r, u, out):
    res = []
    for e in r.events:
        if e.kind == 'write' and e.args[0] is out and e.loops == u.ev.loops and e.seq > u.ev.seq \
                and contains(e.args[1], u.ev.res):
            res.append(e)
    return res
