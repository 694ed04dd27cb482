"""Interprocedural abstract interpreter for the Python subset used by the
analysed package.

Every statement is evaluated once per calling context over the term domain of
terms.py; control-flow merges join the abstract stores with gated phis; loops
with a non-constant trip count are summarised by solving the recurrences of
the slots they modify.  Nothing of the analysed package is imported or run.

The result of analysing an entry point is a list of *events* (calls that leave
the package: file operations, codec calls, ...) each with its arguments as
terms, the path condition under which it happens, the loops around it and its
source site - plus the joined return value and the raise completions.
"""
import ast
import builtins as _bi
import os

from .terms import *   # noqa
from . import terms as tm
from .prove import entails, simp, lits, tiers


class Dead(Exception):
    """the current abstract path has terminated"""


class AnalysisBroken(Exception):
    """an anchor vanished / the source cannot be analysed"""


class State(object):
    __slots__ = ('d', 'pc')

    def __init__(self, d, pc=()):
        self.d, self.pc = d, pc

    def fork(self, *conds):
        s = State(dict(self.d), self.pc)
        for c in conds:
            s.assume(c)
        return s

    def assume(self, c):
        if c is TRUE:
            return
        for x in (c.args if c.op == 'and' else (c,)):
            if x not in self.pc:
                self.pc = self.pc + (x,)

    def replace(self, o):
        self.d, self.pc = o.d, o.pc


class Event(object):
    __slots__ = ('kind', 'args', 'kw', 'res', 'pc', 'mod', 'line', 'stack', 'loops', 'x', 'seq', 'func')

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None and name in self.kw:
            return self.kw[name]
        return default

    @property
    def site(self):
        return '%s.py:%d (%s)' % (self.mod, self.line, self.func)

    def __repr__(self):
        return '%s(%s%s)%s @%s' % (self.kind, ', '.join(show(a) for a in self.args),
                                   ''.join(', %s=%s' % (k, show(v)) for k, v in self.kw.items()),
                                   ' in %s' % (self.loops,) if self.loops else '', self.site)


class Loop(object):
    def __init__(self, lid, idx, trip, site):
        self.lid, self.idx, self.trip, self.site = lid, idx, trip, site
        self.has_break = False
        self.heads = {}

    def __repr__(self):
        return '<loop %s x %s>' % (self.site, show(self.trip))


class FuncInfo(object):
    def __init__(self, name, node, mod, closure, defaults, kwdefaults, qual):
        self.name, self.node, self.mod, self.closure = name, node, mod, closure
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual
        self.cls = None
        self.kind = 'func'      # func | static | class | property
        self.is_gen = _is_gen(node)
        self.abstract = False
        self.ctxman = False
        self.doc = None


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp,
                          ast.SetComp, ast.DictComp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo(object):
    def __init__(self, name, bases, mod, oid, node):
        self.name, self.bases, self.mod, self.oid, self.node = name, bases, mod, oid, node
        self.fields = None      # dataclass / namedtuple style field order


class Frame(object):
    def __init__(self, fid, func, mod, closure):
        self.fid, self.func, self.mod, self.closure = fid, func, mod, closure
        self.returns = []
        self.loops = []         # stack of (breaks, continues)
        self.consumer = None
        self.globals_decl = set()
        self.nonlocals = set()
        self.is_class = False
        self.captured = False
        self.locals = None


def leaves(body):
    """a finally block that ends by return, break or continue of its own"""
    todo = [(s, False) for s in body]
    while todo:
        n, loop = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, ast.Return) or isinstance(n, (ast.Break, ast.Continue)) and not loop:
            return True
        inner = loop or isinstance(n, (ast.For, ast.While))
        todo += [(c, inner) for c in ast.iter_child_nodes(n)]
    return False


class Interp(object):
    def __init__(self, root, pkg='bloscpack'):
        self.root = root
        self.pkg = pkg
        self.trees = {}
        self.src = {}
        self.modstate = {}
        self.funcs = {}
        self.classes = {}
        self.objs = {}
        self.gens = {}
        self.events = []
        self.raises = []
        self.loops = []
        self.frame = None
        self.stack = []
        self.loopstack = []
        self.absent, self.read_on = {}, []
        self.n = 0
        self.in_try = 0
        self.in_finally = []
        self.guards, self.leaving, self.opened = [], [], []
        self.with_depth = []
        self.unmodelled = []
        self.module_phase = True
        self.dec_memo = {}
        self.reads_global = {}
        self.stats = {'functions': set(), 'statements': 0, 'joins': 0, 'loops': 0, 'calls': 0}
        self.overrides = {}
        from . import ext
        self.ext = ext
        self.load()

    # ------------------------------------------------------------- loading
    def load(self):
        d = os.path.join(self.root, self.pkg)
        if not os.path.isdir(d):
            raise AnalysisBroken('package directory %s is missing' % d)
        for dp, dn, fn in sorted(os.walk(d)):
            dn.sort()
            if '__pycache__' in dp:
                continue
            for f in sorted(fn):
                if f.endswith('.py'):
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, d)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    name = '__init__' if rel == '__init__' else rel
                    with open(path, 'rb') as fp:
                        text = fp.read().decode('utf-8')
                    try:
                        self.trees[name] = ast.parse(text, path)
                    except SyntaxError as e:
                        raise AnalysisBroken('cannot parse %s: %s' % (path, e))
                    self.src[name] = text
        self.owned = 0
        self.base = State({})
        self.loading = []
        self.loaded = set()
        for name in sorted(self.trees):
            self.import_module(name)
        self.module_phase = False
        self.base_n = self.owned = self.n
        self.module_events = self.events
        self.module_raises = self.raises
        self.events = []
        self.raises = []

    def import_module(self, name):
        if name in self.loaded or name in self.loading:
            return
        if name not in self.trees:
            return
        self.loading.append(name)
        fr = Frame('m:' + name, None, name, ())
        save = (self.frame, self.stack, self.loopstack)
        self.frame, self.stack, self.loopstack = fr, [name], []
        try:
            try:
                self.block(self.trees[name].body, self.base)
            except Dead:
                raise AnalysisBroken('module %s does not complete its import' % name)
        finally:
            self.frame, self.stack, self.loopstack = save
        self.loading.remove(name)
        self.loaded.add(name)

    # ---------------------------------------------------------- allocation
    def new_id(self):
        self.n += 1
        return self.n

    def alloc(self, kind, meta=None):
        oid = self.new_id()
        self.objs[oid] = meta
        return mk('obj', oid, kind, ty={'list': 'list', 'dict': 'dict', 'set': 'set'}.get(kind, 'obj'))

    def new_list(self, st, content):
        o = self.alloc('list')
        st.d[('c', o.args[0])] = content
        return o

    def new_dict(self, st, items):
        o = self.alloc('dict')
        st.d[('c', o.args[0])] = mk('dict', *items, ty='dictc')
        return o

    def new_set(self, st, content):
        o = self.alloc('set')
        st.d[('c', o.args[0])] = content
        return o

    def new_file(self, st, name, mode, path=None, pos=None):
        o = self.alloc('file', {'name': name, 'mode': mode, 'path': path})
        oid = o.args[0]
        st.d[('f', oid, 'pos')] = pos if pos is not None else ZERO
        st.d[('f', oid, 'ver')] = ZERO
        return o

    def content(self, st, o):
        return st.d.get(('c', o.args[0]))

    # -------------------------------------------------------------- events
    def event(self, kind, args, kw, st, node, res=None, **x):
        e = Event()
        e.kind, e.args, e.kw, e.res, e.pc = kind, list(args), dict(kw), res, st.pc
        e.mod = self.frame.mod if self.frame else '?'
        e.line = getattr(node, 'lineno', 0)
        e.func = self.stack[-1] if self.stack else '?'
        e.stack = tuple(self.stack)
        e.loops = tuple(self.loopstack)
        e.x = x
        e.seq = len(self.events)
        e.x['guards'] = tuple(self.guards)
        if self.opened:
            e.x['open'] = tuple(o for o in self.opened if st.d.get(('f', o.args[0], 'closed'), TRUE) is not TRUE)
        if kind == 'close':
            e.x['by'] = tuple(self.leaving)
        if self.in_finally:
            e.x['finally'] = tuple(self.in_finally)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ branching
    def decide(self, c, st):
        """c, simplified by the path condition where that settles it"""
        if c is TRUE or c is FALSE:
            return c
        key = (st.pc, c)
        r = self.dec_memo.get(key)
        if r is None:
            if c in st.pc:
                r = TRUE
            elif not_(c) in st.pc:
                r = FALSE
            else:
                r = simp(st.pc, c) if st.pc else c
                if r.op != 'const':
                    for fs in tiers(st.pc, r):
                        if entails(fs, r, 4):
                            r = TRUE
                            break
                        if entails(fs, not_(r), 4):
                            r = FALSE
                            break
                    else:
                        r = c
            self.dec_memo[key] = r
        return r

    def branch(self, c, st, f, g):
        """evaluate f under c and g under not c, join"""
        c = self.decide(c, st)
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        s1, s2 = st.fork(c), st.fork(not_(c))
        res = []
        for s, h in ((s1, f), (s2, g)):
            try:
                v = h(s)
                res.append((s, v))
            except Dead:
                res.append(None)
        if res[0] is None and res[1] is None:
            raise Dead()
        if res[1] is None:
            st.replace(s1)
            return res[0][1]
        if res[0] is None:
            st.replace(s2)
            return res[1][1]
        v, s = self.join2(c, st.pc, res[0], res[1])
        st.replace(s)
        return v

    def join2(self, c, base, a, b):
        self.stats['joins'] += 1
        (s1, v1), (s2, v2) = a, b
        d = {}
        d1, d2 = s1.d, s2.d
        for k, x in d1.items():
            y = d2.get(k)
            if y is None or x is y:
                d[k] = x
            else:
                d[k] = phi(c, x, y)
        for k, y in d2.items():
            if k not in d1:
                d[k] = y
        n = 0
        for x, y in zip(s1.pc, s2.pc):
            if x is y:
                n += 1
            else:
                break
        pc = s1.pc[:n]
        r1 = [x for x in s1.pc[n:] if x is not c and not (c.op == 'and' and x in c.args)]
        nc = not_(c)
        r2 = [x for x in s2.pc[n:] if x is not nc and not (nc.op == 'and' and x in nc.args)]
        common = [x for x in r1 if x in r2]
        r1 = [x for x in r1 if x not in common]
        r2 = [x for x in r2 if x not in common]
        st = State(d, pc)
        for x in common:
            st.assume(x)
        if r1:
            st.assume(or_(nc, and_(*r1)))
        if r2:
            st.assume(or_(c, and_(*r2)))
        if v1 is None or v2 is None:
            v = v1 if v2 is None else v2
        else:
            v = self.joinval(c, v1, v2)
        return v, st

    def joinval(self, c, v1, v2):
        if isinstance(v1, tuple):
            return tuple(self.joinval(c, x, y) for x, y in zip(v1, v2))
        return phi(c, v1, v2)

    def join_many(self, items):
        """join completions [(state, value)] by the decision tree of their guards"""
        if not items:
            raise Dead()
        if len(items) == 1:
            return items[0]
        n = 0
        while True:
            xs = [s.pc[n] if n < len(s.pc) else None for s, _ in items]
            if any(x is None for x in xs) or any(x is not xs[0] for x in xs):
                break
            n += 1
        for p in range(n, max(len(s.pc) for s, _ in items)):
            for s0, _ in items:
                if p >= len(s0.pc):
                    continue
                c = s0.pc[p]
                nc = not_(c)
                if nc.op == 'and':
                    A = [it for it in items if c in it[0].pc[n:]]
                    B = [it for it in items if it not in A and any(x in it[0].pc[n:] for x in nc.args)]
                else:
                    A = [it for it in items if c in it[0].pc[n:]]
                    B = [it for it in items if it not in A and nc in it[0].pc[n:]]
                if A and B and len(A) + len(B) == len(items):
                    a, b = self.join_many(A), self.join_many(B)
                    v, s = self.join2(c, (), a, b)
                    return s, v
        # no single gate separates them: gate on the full guard of the first
        first = items[0]
        c = and_(*first[0].pc[n:])
        rest = self.join_many(items[1:])
        v, s = self.join2(c, (), first, rest)
        return s, v

    # ----------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            self.stmt(s, st)

    def stmt(self, s, st):
        self.stats['statements'] += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unmodelled.append((self.frame.mod, s.lineno, type(s).__name__))
            self.event('unmodelled:' + type(s).__name__, [], {}, st, s)
            return
        m(s, st)

    def s_Expr(self, s, st):
        self.ev(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Import(self, s, st):
        for a in s.names:
            top = a.name.split('.')[0]
            if top == self.pkg:
                for i in range(1, len(a.name.split('.')) + 1):
                    pass
                sub_ = a.name.split('.')[1:]
                if sub_:
                    self.import_module('.'.join(sub_))
                self.import_module('__init__')
                t = self.modterm('.'.join(sub_)) if (a.asname and sub_) else self.modterm('__init__')
                self.assign_name(a.asname or top, t, st)
                continue
            if a.asname:
                self.assign_name(a.asname, self.extterm(a.name), st)
            else:
                self.assign_name(top, self.extterm(top), st)

    def modterm(self, name):
        return mk('module', name)

    def extterm(self, name):
        return self.ext.resolve(name)

    def s_ImportFrom(self, s, st):
        if s.level or (s.module and s.module.split('.')[0] == self.pkg):
            m = s.module or ''
            if not s.level:
                m = '.'.join(m.split('.')[1:])
            for a in s.names:
                if not m or m == '__init__':
                    if a.name in self.trees:
                        self.import_module(a.name)
                        self.assign_name(a.asname or a.name, self.modterm(a.name), st)
                    else:
                        self.import_module('__init__')
                        self.assign_name(a.asname or a.name, self.global_get('__init__', a.name, st, s), st)
                    continue
                self.import_module(m)
                if m not in self.trees:
                    self.raise_exc('ImportError', [], st, s)
                if a.name == '*':
                    for k, v in list(st.d.items()):
                        if k[0] == 'v' and k[1] == 'm:' + m and not k[2].startswith('_'):
                            self.assign_name(k[2], v, st)
                    continue
                self.assign_name(a.asname or a.name, self.global_get(m, a.name, st, s), st)
        else:
            if s.module == '__future__':
                return
            if s.module in self.ext.MISSING_MODULES:
                self.raise_exc('ImportError', [], st, s)
            for a in s.names:
                self.assign_name(a.asname or a.name, self.extterm(s.module + '.' + a.name), st)

    def global_get(self, mod, name, st, node):
        v = self.overrides.get((mod, name))
        if v is not None and not self.module_phase:
            return v
        v = st.d.get(('v', 'm:' + mod, name))
        if v is None:
            if name in self.trees and mod == '__init__':
                return self.modterm(name)
            v = self.ext.builtin(name)
            if v is None:
                self.raise_exc('NameError', [const(name)], st, node)
        if not self.module_phase:
            self.reads_global.setdefault((mod, name), v)
        return v

    def s_FunctionDef(self, s, st):
        f = self.make_func(s, st)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, st)
        self.assign_name(s.name, f, st)

    def make_func(self, node, st, name=None):
        a = node.args
        defaults = tuple(self.ev(x, st) for x in a.defaults)
        kwd = tuple(self.ev(x, st) if x is not None else None for x in a.kw_defaults)
        fr = self.frame
        fr.captured = True
        closure = fr.closure + ((fr.fid,) if not fr.fid_is_module() else ())
        if fr.is_class:
            closure = fr.closure
        nm = name or getattr(node, 'name', '<lambda>')
        qual = nm
        if fr.is_class:
            qual = fr.is_class + '.' + nm
        fi = FuncInfo(nm, node, fr.mod, closure, defaults, kwd, fr.mod + '.' + qual)
        if not isinstance(node, ast.Lambda):
            fi.doc = ast.get_docstring(node)
        fid = self.new_id()
        self.funcs[fid] = fi
        return mk('func', fid, ty='func')

    def decorate(self, d, f, st):
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
            prop = self.ev(d.value, st)
            if prop.op == 'prop':
                if d.attr == 'setter':
                    return mk('prop', prop.args[0], f)
                return prop
        dec = self.ev(d, st)
        return self.call(dec, [f], [], st, d)

    def s_ClassDef(self, s, st):
        bases = [self.ev(b, st) for b in s.bases]
        for k in s.keywords:
            self.ev(k.value, st)
        oid = self.new_id()
        ci = ClassInfo(s.name, bases, self.frame.mod, oid, s)
        self.classes[oid] = ci
        ct = mk('class', oid, ty='class')
        fr = Frame('c%d' % oid, None, self.frame.mod,
                   self.frame.closure + ((self.frame.fid,) if not self.frame.fid_is_module() else ()))
        fr.is_class = s.name
        outer = self.frame
        outer.captured = True
        self.frame = fr
        try:
            self.block(s.body, st)
        finally:
            self.frame = outer
        for k in [k for k in st.d if k[0] == 'v' and k[1] == fr.fid]:
            v = st.d.pop(k)
            st.d[('a', 'C%d' % oid, k[2])] = v
            if v.op == 'func' and self.funcs[v.args[0]].cls is None:
                self.funcs[v.args[0]].cls = ct
        for d in reversed(s.decorator_list):
            dec = self.ev(d, st)
            r = self.call(dec, [ct], [], st, d)
            if r.op == 'class':
                ct = r
        self.assign_name(s.name, ct, st)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.frame.returns.append((State(st.d, st.pc), v))
        raise Dead()

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.d.pop(self.name_slot(t.id, True), None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                if o.op == 'obj' and o.args[1] == 'dict':
                    c = self.content(st, o)
                    if c.op == 'dict':
                        self.event('mutate', [o], {}, st, s, how='delitem', key=k)
                        st.d[('c', o.args[0])] = mk('dict', *[kv for kv in c.args if kv[0] is not k], ty='dictc')
                        continue
                self.event('delitem', [o, k], {}, st, s)
                if o.op == 'obj' and ('c', o.args[0]) in st.d:
                    st.d[('c', o.args[0])] = fresh('deleted')
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                if o.op == 'obj':
                    if o.args[0] <= self.owned and not self.module_phase:
                        self.event('mutate', [o], {}, st, s, how='delattr', key=const(t.attr))
                    st.d.pop(('a', o.args[0], t.attr), None)
                else:
                    self.event('setattr', [o, const(t.attr), NONE], {}, st, s)

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        elif self.frame.is_class and isinstance(s.target, ast.Name):
            pass

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            v = self.ev(s.value, st)
            r = self.augop(s.op, cur, v, st, s)
            self.assign(t, r, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(o, t.attr, st, t)
            v = self.ev(s.value, st)
            self.setattr(o, t.attr, self.augop(s.op, cur, v, st, s), st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev_index(t.slice, st)
            cur = self.getitem(o, k, st, t)
            v = self.ev(s.value, st)
            self.setitem(o, k, self.augop(s.op, cur, v, st, s), st, t)

    def augop(self, op, cur, v, st, node):
        if isinstance(op, ast.Add) and cur.op == 'obj' and cur.args[1] == 'list':
            c = self.as_seq(v, st, node)
            self.event('mutate', [cur, v], {}, st, node, how='+=')
            st.d[('c', cur.args[0])] = cat(self.content(st, cur), c)
            return cur
        if cur.ty == 'ndarray' or cur.op == 'obj' and cur.args[1] in ('set', 'dict') or \
                cur.op in ('sym', 'attr') and cur.ty in ('seq', 'list', 'dict*'):
            self.event('mutate', [cur, v], {}, st, node, how='+=')
        return self.binop(op, cur, v, st, node)

    def s_If(self, s, st):
        c = self.truth(self.ev(s.test, st), st, s)
        self.branch(c, st, lambda q: self.block(s.body, q), lambda q: self.block(s.orelse, q))

    def s_Assert(self, s, st):
        c = self.truth(self.ev(s.test, st), st, s)

        def fail(q):
            self.raise_exc('AssertionError', [], q, s)
        self.branch(c, st, lambda q: None, fail)

    def s_Global(self, s, st):
        self.frame.globals_decl.update(s.names)

    def s_Nonlocal(self, s, st):
        self.frame.nonlocals.update(s.names)

    def s_Raise(self, s, st):
        if s.exc is None:
            exc = st.d.get(('h', 'curexc')) or fresh('exc')
        else:
            exc = self.ev(s.exc, st)
            if s.cause is not None:
                self.ev(s.cause, st)
        if exc.op == 'class' or exc.op == 'ext':
            exc = self.call(exc, [], [], st, s)
        self.do_raise(exc, st, s)

    def do_raise(self, exc, st, node):
        e = self.event('raise', [exc], {}, st, node)
        self.raises.append((State(st.d, st.pc), exc, e))
        raise Dead()

    def raise_exc(self, name, args, st, node):
        exc = mk('excv', self.ext.resolve('builtins.' + name), tuple(args), ty='obj')
        self.do_raise(exc, st, node)

    def maybe_raise(self, name, cond, args, st, node):
        """raise builtin exception `name` when cond holds"""
        cond = self.decide(cond, st)
        if cond is FALSE:
            return
        if cond is TRUE:
            self.raise_exc(name, args, st, node)
        s2 = st.fork(cond)
        try:
            self.raise_exc(name, args, s2, node)
        except Dead:
            pass
        st.assume(not_(cond))

    def s_Break(self, s, st):
        self.frame.loops[-1][0].append((State(st.d, st.pc), None))
        raise Dead()

    def s_Continue(self, s, st):
        self.frame.loops[-1][1].append((State(st.d, st.pc), None))
        raise Dead()

    # --- try
    def exc_class(self, exc):
        if exc.op == 'excv':
            return exc.args[0]
        if exc.op == 'obj' and exc.args[1] == 'inst':
            return self.objs[exc.args[0]]['cls']
        return None

    def exc_mro(self, c):
        """names of all classes above c (package classes as 'mod.Name')"""
        if c is None:
            return ['?']
        if c.op == 'class':
            ci = self.classes[c.args[0]]
            out = ['%s.%s' % (ci.mod, ci.name)]
            for b in ci.bases:
                out += [x for x in self.exc_mro(b) if x not in out]
            return out
        if c.op == 'ext':
            name = c.args[0]
            if name.startswith('builtins.'):
                k = getattr(_bi, name[9:], None)
                if isinstance(k, type):
                    return ['builtins.' + x.__name__ for x in k.__mro__]
            base = self.ext.EXC_BASES.get(name, 'Exception')
            k = getattr(_bi, base)
            return [name] + ['builtins.' + x.__name__ for x in k.__mro__]
        return ['?']

    def class_name(self, c):
        if c.op == 'class':
            ci = self.classes[c.args[0]]
            return '%s.%s' % (ci.mod, ci.name)
        if c.op == 'ext':
            n = c.args[0]
            if n in ('builtins.IOError', 'builtins.EnvironmentError', 'builtins.OSError'):
                return 'builtins.OSError'
            return n
        return '?'

    def matches(self, exc, types):
        c = self.exc_class(exc)
        mro = [x if x not in ('builtins.IOError', 'builtins.EnvironmentError') else 'builtins.OSError'
               for x in self.exc_mro(c)]
        return any(self.class_name(t) in mro for t in types)

    def s_Try(self, s, st):
        outer_raises = self.raises
        fr = self.frame
        nret = len(fr.returns)
        loops_before = [(len(b), len(c)) for b, c in fr.loops]
        mine = []
        self.raises = mine
        self.in_try += 1
        entry = State(dict(st.d), st.pc)
        alive = True
        handler_types = [self.handler_types(h, st) for h in s.handlers]
        tid = self.new_id()
        ev0 = len(self.events)
        self.try_stack.append((tid, handler_types))
        if s.finalbody:
            self.guards.append(tid)
        catch_all = [i for i, t in enumerate(handler_types)
                     if t is None or any(x.op == 'ext' and x.args[0] == 'builtins.BaseException' for x in t)]
        hid = ('h', tid)
        if catch_all:
            self.guards.append(hid)
        try:
            self.block(s.body, st)
        except Dead:
            alive = False
        finally:
            if catch_all:
                self.guards.pop()
            self.try_stack.pop()
            self.in_try -= 1
            self.raises = outer_raises
        bodyev = self.events[ev0:]
        after = []
        alive2 = alive
        fin_raises = []
        sink = fin_raises if s.finalbody else outer_raises
        self.raises = sink
        if alive and s.orelse:
            try:
                self.block(s.orelse, st)
            except Dead:
                alive2 = False
        if alive2:
            after.append((st.fork(), None))
        remaining = []
        normal = list(after)
        left = []
        for lst, n0 in [(fr.returns, nret)] + [(b, n[0]) for (b, c), n in zip(fr.loops, loops_before)] + \
                [(c, n[1]) for (b, c), n in zip(fr.loops, loops_before)]:
            left += lst[n0:]
        byh = {}
        for r in mine:
            for i, h in enumerate(s.handlers):
                if handler_types[i] is None or self.matches(r[1], handler_types[i]):
                    byh.setdefault(i, []).append(r)
                    r[2].x['caught'] = True
                    r[2].x.setdefault('handlers', []).append((self.frame.mod, h.lineno))
                    break
            else:
                remaining.append(r)
        for i, h in enumerate(s.handlers):
            rs = byh.get(i, [])
            items = [(State(dict(q.d), q.pc), x) for q, x, _ in rs]
            # implicit exceptions of the external calls in the body
            imp = self.implicit(bodyev, handler_types[i], entry, tid, i)
            if imp is not None and not getattr(self, 'no_implicit', False):
                items.append(imp)
            if not items:
                continue
            q, exc = self.join_many(items)
            q = State(dict(q.d), q.pc)
            pc0 = q.pc
            via = [r[2] for r in rs] + (self.may_raise(bodyev, handler_types[i]) if imp is not None else [])
            if h.name:
                q.d[self.name_slot(h.name, True)] = exc
            old = q.d.get(('h', 'curexc'))
            q.d[('h', 'curexc')] = exc
            nr = len(fr.returns) + sum(len(b) + len(c) for b, c in fr.loops)
            if i in catch_all:
                self.leaving.append(hid)
            try:
                self.block(h.body, q)
                after.append((q, None))
                completes = True
            except Dead:
                completes = len(fr.returns) + sum(len(b) + len(c) for b, c in fr.loops) > nr
            finally:
                if i in catch_all:
                    self.leaving.pop()
            if completes:
                self.event('swallow', [], {}, q, h, pc0=pc0, via=via, types=handler_types[i])
            if completes and imp is not None and imp[0].pc[len(entry.pc):]:
                # what the body completes with is the alternative to the exception
                for z in normal + left:
                    z[0].assume(not_(imp[0].pc[-1]))
        sink.extend(remaining)
        self.raises = outer_raises
        if s.finalbody:
            self.guards.pop()
        if s.finalbody:
            fid = ('finally', tid, self.frame.mod, s.lineno)
            self.in_finally.append(fid)
            self.leaving.append(tid)
            try:
                # exceptional exits
                for q, exc, e in fin_raises:
                    q2 = State(dict(q.d), q.pc)
                    nr = len(fr.returns) + sum(len(b) + len(c) for b, c in fr.loops)
                    try:
                        self.block(s.finalbody, q2)
                        outer_raises.append((q2, exc, e))
                    except Dead:
                        if len(fr.returns) + sum(len(b) + len(c) for b, c in fr.loops) > nr:
                            self.event('swallow', [], {}, q2, s, pc0=q.pc, via=[e], types=None)
                if leaves(s.finalbody):
                    imp = self.implicit(bodyev, None, entry, tid, 'f')
                    if imp is not None:
                        self.event('swallow', [], {}, entry, s, pc0=imp[0].pc, via=self.may_raise(bodyev, None),
                                   types=None)
                # returns / breaks / continues leaving the try
                for lst, n0 in [(fr.returns, nret)] + [(b, n[0]) for (b, c), n in zip(fr.loops, loops_before)] + \
                        [(c, n[1]) for (b, c), n in zip(fr.loops, loops_before)]:
                    moved = lst[n0:]
                    del lst[n0:]
                    for q, v in moved:
                        q2 = State(dict(q.d), q.pc)
                        try:
                            self.block(s.finalbody, q2)
                            lst.append((q2, v))
                        except Dead:
                            pass
            finally:
                self.in_finally.pop()
                self.leaving.pop()
        if not after:
            if s.finalbody:
                self.event('finally', [], {}, entry, s, tid=tid)
            raise Dead()
        q, _ = self.join_many(after)
        st.replace(State(dict(q.d), q.pc))
        if s.finalbody:
            self.in_finally.append(('finally', tid, self.frame.mod, s.lineno))
            self.leaving.append(tid)
            try:
                self.block(s.finalbody, st)
            finally:
                self.in_finally.pop()
                self.leaving.pop()

    s_TryStar = s_Try

    try_stack = []

    def handler_types(self, h, st):
        if h.type is None:
            return None
        t = self.ev(h.type, st)
        if t.op == 'tuple':
            return list(t.args)
        return [t]

    def may_raise(self, evs, types):
        """the events of a body that can raise one of the types"""
        out = []
        for e in evs:
            for name in self.ext.MAY_RAISE.get(e.kind, ()):
                if types is None or self.matches(mk('excv', self.ext.resolve(name), (), ty='obj'), types):
                    out.append(e)
                    break
        return out

    def implicit(self, evs, types, entry, tid, i):
        """state at the handler for exceptions raised by modelled externals"""
        hit = None
        for e in evs:
            for name in self.ext.MAY_RAISE.get(e.kind, ()):
                if types is None:
                    hit = (e, name)
                    break
                x = mk('excv', self.ext.resolve(name), (), ty='obj')
                if self.matches(x, types):
                    hit = (e, name)
                    break
            if hit:
                break
        if hit is None:
            return None
        e, name = hit
        c = mk('sym', 'raises:%s:%s' % (e.kind, tid), ty='bool')
        q = entry.fork()
        q.assume(c)
        # slots possibly changed by the partially executed body are unknown;
        # the handlers analysed here never read them
        exc = mk('excv', self.ext.resolve(name), (mk('sym', 'excmsg:%d' % tid, ty='str'),), ty='obj')
        for x in self.may_raise(evs, types):
            x.x['implicit_caught'] = True
        return (q, exc)

    # --- with
    def s_With(self, s, st):
        self.with_items(s, list(s.items), st)

    def with_items(self, s, items, st):
        if not items:
            self.block(s.body, st)
            return
        it = items[0]
        ev0 = len(self.events)
        ctx = self.ev(it.context_expr, st)
        self.enter_with(ctx, it, s, st, lambda q: self.with_items(s, items[1:], q), ev0)

    def enter_with(self, ctx, it, s, st, body, ev0):
        if ctx.op == 'phi':
            return self.branch(ctx.args[0], st,
                               lambda q: self.enter_with(ctx.args[1], it, s, q, body, ev0),
                               lambda q: self.enter_with(ctx.args[2], it, s, q, body, ev0))
        if ctx.op == 'gen' and self.gens[ctx.args[0]].get('ctxman'):
            fr = self.frame

            def consumer(v, q):
                save = self.frame
                self.frame = fr
                try:
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v, q)
                    body(q)
                finally:
                    self.frame = save
                return NONE
            self.run_gen(ctx, st, consumer)
            return
        closing = None
        val = ctx
        if ctx.op == 'closing':
            val = closing = ctx.args[0]
        elif ctx.op == 'obj' and ctx.args[1] == 'file':
            closing = ctx
        elif ctx.op == 'obj' and ctx.args[1] == 'inst':
            m = self.find_method(ctx, '__enter__', st)
            if m is not None:
                val = self.call(mk('bound', m, ctx), [], [], st, s)
        elif ctx.op == 'suppress':
            pass
        for e in self.events[ev0:]:
            if e.res is not None and (e.res is closing or e.res is ctx):
                e.x['managed'] = True
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, st)
        outer_raises = self.raises
        fr = self.frame
        nret = len(fr.returns)
        loops_before = [(len(b), len(c)) for b, c in fr.loops]
        mine = []
        self.raises = mine
        alive = True
        wid = self.new_id()
        self.guards.append(wid)
        entry = State(dict(st.d), st.pc)
        bev0 = len(self.events)
        resumed = []
        try:
            body(st)
        except Dead:
            alive = False
        finally:
            self.raises = outer_raises
            self.guards.pop()

        def leave(q, how):
            self.leaving.append(wid)
            try:
                leave_(q, how)
            finally:
                self.leaving.pop()

        def leave_(q, how):
            if closing is not None:
                self.event('close', [closing], {}, q, s, how=how)
                oid = closing.args[0]
                q.d[('f', oid, 'closed')] = TRUE
            elif ctx.op == 'obj' and ctx.args[1] == 'inst':
                m = self.find_method(ctx, '__exit__', q)
                if m is not None:
                    self.call(mk('bound', m, ctx), [NONE, NONE, NONE] if how == 'normal' else
                              [fresh('exctype'), fresh('excval'), fresh('tb')], [], q, s)
        for q, exc, e in mine:
            q2 = State(dict(q.d), q.pc)
            if ctx.op == 'suppress' and self.matches(exc, list(ctx.args)):
                e.x['caught'] = True
                resumed.append((q2, None))
                self.event('swallow', [], {}, q2, s, pc0=q.pc, via=[e], types=list(ctx.args))
                continue
            leave(q2, 'exc')
            outer_raises.append((q2, exc, e))
        for lst, n0 in [(fr.returns, nret)] + [(b, n[0]) for (b, c), n in zip(fr.loops, loops_before)] + \
                [(c, n[1]) for (b, c), n in zip(fr.loops, loops_before)]:
            for k in range(n0, len(lst)):
                q, v = lst[k]
                q2 = State(dict(q.d), q.pc)
                leave(q2, 'exit')
                lst[k] = (q2, v)
        if ctx.op == 'suppress':
            imp = self.implicit(self.events[bev0:], list(ctx.args), entry, wid, 's')
            if imp is not None:
                self.event('swallow', [], {}, imp[0], s, pc0=imp[0].pc, types=list(ctx.args),
                           via=self.may_raise(self.events[bev0:], list(ctx.args)))
                resumed.append((imp[0], None))
                if alive:
                    st.assume(not_(imp[0].pc[-1]))
        if resumed:
            if alive:
                resumed.append((st.fork(), None))
            q, _ = self.join_many(resumed)
            st.replace(State(dict(q.d), q.pc))
            alive = True
        if not alive:
            raise Dead()
        leave(st, 'normal')

    # --- loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        fr = self.frame
        target_assign = lambda v, q: self.assign(s.target, v, q)

        def body(v, q):
            save = self.frame
            self.frame = fr
            try:
                target_assign(v, q)
                self.block(s.body, q)
            finally:
                self.frame = save
        self.run_loop(it, body, st, s, s.orelse)

    def run_loop(self, it, body, st, node, orelse=()):
        """iterate body over it, handling break/continue/else"""
        fr = self.frame
        brk = []

        def consumer(v, q):
            cont = []
            fr.loops.append((brk, cont))
            alive = True
            try:
                body(v, q)
            except Dead:
                alive = False
            finally:
                fr.loops.pop()
            items = ([(q.fork(), None)] if alive else []) + cont
            if not items:
                raise Dead()
            if len(items) > 1 or not alive:
                q2, _ = self.join_many(items)
                q.replace(State(dict(q2.d), q2.pc))
            return NONE
        alive = True
        self.pending_breaks.append(brk)
        try:
            self.iterate(it, consumer, st, node, brk)
            if orelse:
                self.block(orelse, st)
        except Dead:
            alive = False
        finally:
            self.pending_breaks.pop()
        items = ([(st.fork(), None)] if alive else []) + brk
        if not items:
            raise Dead()
        if len(items) > 1 or not alive:
            q, _ = self.join_many(items)
            st.replace(State(dict(q.d), q.pc))

    pending_breaks = []     # where the breaks of the enclosing loops are collected

    def iterate(self, it, consumer, st, node, brk=None):
        """drive consumer(value, state) over an iterable term"""
        it = simp(st.pc, it) if it.op in ('phi', 'tab') else it
        if it.op == 'phi':
            self.branch(it.args[0], st,
                        lambda q: self.iterate(it.args[1], consumer, q, node, brk),
                        lambda q: self.iterate(it.args[2], consumer, q, node, brk))
            return
        if it.op == 'gen':
            self.run_gen(it, st, consumer)
            return
        if it.op == 'obj' and it.ty == 'list' and st.d.get(('c', it.args[0])) is not None \
                and st.d[('c', it.args[0])].op == 'filt':
            j, x, c, n = st.d[('c', it.args[0])].args

            def c6(v, q):
                self.branch(v.args[1], q, lambda r: consumer(v.args[0], r), lambda r: None)
            self.iterate(mk('smap', j, mk('tuple', x, c, ty='tuple'), n, ty='seq'), c6, st, node, brk)
            return
        if it.op == 'it_enum':
            slot = ('h', self.new_id())
            st.d[slot] = it.args[1]

            def c2(v, q):
                k = q.d[slot]
                q.d[slot] = add(k, ONE)
                return consumer(mk('tuple', k, v, ty='tuple'), q)
            self.iterate(it.args[0], c2, st, node, brk)
            return
        if it.op == 'it_map':
            f = it.args[0]

            def c3(v, q):
                return consumer(self.call(f, [v], [], q, node), q)
            self.iterate(it.args[1], c3, st, node, brk)
            return
        if it.op == 'it_filter':
            f = it.args[0]

            def c4(v, q):
                t = v if f is NONE else self.call(f, [v], [], q, node)
                self.branch(self.truth(t, q, node), q, lambda r: consumer(v, r), lambda r: None)
            self.iterate(it.args[1], c4, st, node, brk)
            return
        if it.op == 'it_chain':
            for x in it.args:
                self.iterate(x, consumer, st, node, brk)
            return
        if it.op == 'it_zip':
            its = it.args
            gens = [i for i, x in enumerate(its) if self.is_lazy(x)]
            if len(gens) == 1:
                g = gens[0]
                slot = ('h', self.new_id())
                st.d[slot] = ZERO
                seqs = [None if i == g else self.as_indexable(x, st, node) for i, x in enumerate(its)]

                def c5(v, q):
                    k = q.d[slot]
                    q.d[slot] = add(k, ONE)
                    return consumer(mk('tuple', *[v if i == g else self.index_of(seqs[i], k, q)
                                                  for i in range(len(its))], ty='tuple'), q)
                self.iterate(its[g], c5, st, node, brk)
                return
            if not gens:
                seqs = [self.as_indexable(x, st, node) for x in its]
                lens = [self.index_len(x) for x in seqs]
                lens = [l for l in lens if l is not None]
                n = lens[0] if lens else ZERO
                for l in lens[1:]:
                    if l is n:
                        continue
                    if is_cint(l) and is_cint(n):
                        n = l if cval(l) < cval(n) else n
                        continue
                    c = self.decide(le(n, l), st)
                    n = phi(c, n, l)
                self.count_loop(n, lambda i, q: mk('tuple', *[self.index_of(x, i, q) for x in seqs], ty='tuple'),
                                consumer, st, node, brk)
                return
        if it.op == 'obj' and it.args[1] == 'inst':
            m = self.find_method(it, '__iter__', st)
            if m is not None:
                r = self.call(mk('bound', m, it), [], [], st, node)
                if r is it:
                    nx = self.find_method(it, '__next__', st)
                    self.while_next(it, nx, consumer, st, node, brk)
                    return
                self.iterate(r, consumer, st, node, brk)
                return
        seq = self.as_indexable(it, st, node)
        if seq.op in ('phi', 'cat') and self.enumerable(seq):
            self.each_of(simp(st.pc, seq), consumer, st, node)
            return
        n = self.index_len(seq)
        if n is None:
            n = fresh('iterlen', 'int')
        self.count_loop(n, lambda i, q: self.index_of(seq, i, q), consumer, st, node, brk)

    def enumerable(self, seq):
        """a list of given elements, of which some are there only on a condition"""
        if seq.op in ('seq', 'tuple'):
            return len(seq.args) <= 64
        if seq.op == 'phi':
            return all(self.enumerable(x) for x in seq.args[1:])
        return seq.op == 'cat' and seq.ty not in ('str', 'bytes') and all(self.enumerable(x) for x in seq.args)

    def each_of(self, seq, consumer, st, node):
        if seq.op == 'phi':
            # what both have in common is there in any case
            a, b = [list(x.args) if x.op == 'cat' else [x] for x in seq.args[1:]]
            xs, ys = [list(x.pop(0).args) if x[0].op in ('seq', 'tuple') else [] for x in (a, b)]
            while xs and ys and xs[0] is ys[0]:
                consumer(xs.pop(0), st)
                ys.pop(0)
            a, b = [([mk('seq', *x, ty='seq')] if x else []) + y for x, y in ((xs, a), (ys, b))]
            rest = [cat(*x) if x else mk('seq', ty='seq') for x in (a, b)]
            self.branch(seq.args[0], st, lambda q: self.each_of(simp(q.pc, rest[0]), consumer, q, node),
                        lambda q: self.each_of(simp(q.pc, rest[1]), consumer, q, node))
        elif seq.op == 'cat':
            for x in seq.args:
                self.each_of(x, consumer, st, node)
        else:
            for x in seq.args:
                consumer(x, st)

    def while_next(self, it, nx, consumer, st, node, brk):
        """iterator-protocol object: __next__ until StopIteration"""
        def body(i, q):
            mine = []
            save = self.raises
            self.raises = mine
            try:
                v = self.call(mk('bound', nx, it), [], [], q, node)
            finally:
                self.raises = save
            for r in mine:
                if self.matches(r[1], [self.ext.resolve('builtins.StopIteration')]):
                    r[2].x['caught'] = True
                    brk.append((State(dict(r[0].d), r[0].pc), None))
                else:
                    self.raises.append(r)
            consumer(v, q)
        self.count_loop(fresh('iterlen', 'int'), lambda i, q: i, lambda v, q: body(v, q), st, node, brk)

    def is_lazy(self, x):
        if x.op in ('gen', 'it_map', 'it_filter', 'it_enum', 'it_chain'):
            return True
        return x.op == 'obj' and x.args[1] == 'inst'

    def as_indexable(self, x, st, node):
        """(kind, term): something with a length and an element function"""
        if x.op == 'range':
            return x
        if x.op in ('it_count', 'it_repeat'):
            return x
        if x.op == 'it_zip':
            return x
        if x.op == 'it_rev':
            y = self.as_indexable(x.args[0], st, node)
            if y.op in ('seq', 'tuple'):
                return mk(y.op, *y.args[::-1], ty=y.ty)
            return mk('it_rev', y)
        return self.as_seq(x, st, node)

    def index_len(self, x):
        if x.op == 'range':
            return self.range_len(x)
        if x.op in ('it_count',):
            return None
        if x.op == 'it_repeat':
            return x.args[1] if len(x.args) > 1 else None
        if x.op == 'it_rev':
            return self.index_len(x.args[0])
        return length(x)

    def range_len(self, r):
        a, b, s = r.args
        if is_cint(s) and cval(s) > 0:
            return fdiv(sub(add(sub(b, a), s), ONE), s)
        if is_cint(s) and cval(s) < 0:
            s = neg(s)
            return fdiv(sub(add(sub(a, b), s), ONE), s)
        # symbolic step, assumed positive
        return fdiv(sub(add(sub(b, a), s), ONE), s)

    def index_of(self, x, i, st):
        if x.op == 'range':
            return add(x.args[0], mul(x.args[2], i))
        if x.op == 'it_count':
            return add(x.args[0], mul(x.args[1], i))
        if x.op == 'it_repeat':
            return x.args[0]
        if x.op == 'it_rev':
            return self.index_of(x.args[0], sub(sub(self.index_len(x.args[0]), ONE), i), st)
        return simp_at(st, at(x, i))

    def count_loop(self, n, elem, consumer, st, node, brk=None):
        n = simp(st.pc, n)
        if is_cint(n):
            k = cval(n)
            if k <= 512:
                for i in range(k):
                    consumer(elem(const(i), st), st)
                return
        if not is_cint(n):
            c = self.decide(ge0(n), st)
            if c is FALSE:
                return
            if c is not TRUE:
                n = phi(c, n, ZERO)
        self.sym_loop(n, elem, consumer, st, node, brk)

    def lv(self, lid, slot, idx, ty):
        return mk('lv', lid, slot, idx, ty=ty)

    def sym_loop(self, n, elem, consumer, st, node, brk=None, cond=None):
        self.stats['loops'] += 1
        lid = self.new_id()
        idx = mk('sym', 'idx#%d' % lid, ty='int')
        site = '%s.py:%d' % (self.frame.mod, getattr(node, 'lineno', 0))
        head = {}                 # slot -> term at the head of iteration idx
        solved = {}               # slot -> closed form f(idx)
        exits = {}                # slot -> value after the loop where it differs from f(n)
        loop = Loop(lid, idx, n, site)
        loop.uid0 = fresh('loopmark').uid
        loop.pre_pc = st.pc
        loop.pre_seq = len(self.events)
        loop.outer = tuple(self.loopstack)
        self.loops.append(loop)
        nbrk = len(brk) if brk is not None else 0

        def run(record):
            q = st.fork()
            for sl, t in head.items():
                q.d[sl] = t
            if n is not None:
                q.assume(ge0(sub(sub(n, ONE), idx)))
            save = (self.events, self.raises, self.stack[:], self.n)
            fr = self.frame
            marks = self.mark_collectors()
            if not record:
                self.events = []
                self.raises = []
            self.loopstack.append(loop)
            alive = True
            try:
                try:
                    if cond is not None:
                        c = self.truth(cond(q), q, node)
                        run.cond = c
                        q.assume(c)
                    loop.body_pc = q.pc
                    consumer(elem(idx, q), q)
                except Dead:
                    alive = False
            finally:
                self.loopstack.pop()
                if not record:
                    self.events, self.raises = save[0], save[1]
                    run.early = self.reset_collectors(marks, brk, nbrk)
            return q if alive else None
        run.cond = None
        run.early = False
        for rnd in range(8):
            q = run(False)
            if q is None:
                break
            changed = False
            for sl in self.absent:
                # what the body found unset and then set is there in the next iteration
                if sl in q.d and sl not in st.d and sl[1] < lid and self.absent[sl] > lid:
                    o = next((x for x in self.read_on if x.args[0] == sl[1]), None) if sl[0] == 'a' else None
                    ca = self.class_attr(self.cls_of(o), sl[2], st) if o is not None else None
                    if ca is not None and ca.op not in ('func', 'prop'):
                        st.d[sl] = ca
                    else:
                        st.d[sl] = mk('sym', 'unset#%d' % self.new_id(), ty=None)
                        self.unmodelled.append(('%s is set by an earlier iteration only' % (sl[2],), site))
                    changed = True
            if changed:
                continue
            for sl, v0 in st.d.items():
                v = q.d.get(sl)
                if v is None:
                    continue
                h = head.get(sl, v0)
                if sl not in head:
                    if v is not h:
                        head[sl] = self.lv(lid, sl, idx, v0.ty if v0.ty == v.ty else
                                           ('int' if v0.ty in INTLIKE and v.ty in INTLIKE else v0.ty if v.op == 'lv' else None))
                        changed = True
            if changed:
                continue
            for sl in list(head):
                if sl in solved:
                    continue
                lvt = head[sl]
                f = self.solve(lid, sl, lvt, idx, st.d[sl], q.d.get(sl, lvt), n, exits, loop.uid0)
                if f is not None:
                    solved[sl] = f
                    head[sl] = f
                    changed = True
            if not changed:
                break
        self.resolve_lvs(lid, solved, head, exits, idx)
        if n is None:
            # while loop: derive the trip count from the solved condition
            n2 = self.trip_from_cond(run.cond, idx)
            if n2 is None or run.early:
                n2 = mk('sym', 'trip#%d' % lid, ty='int')
                loop.has_break = True
            else:
                c = self.decide(ge0(n2), st)
                n2 = n2 if c is TRUE else phi(c, n2, ZERO)
            loop.trip = n2
        loop.has_break = loop.has_break or bool(run.early)
        loop.heads = dict(head)
        nn = loop.trip
        q = run(True)
        loop.end = dict((sl, q.d.get(sl)) for sl in head) if q is not None else {}
        loop.end_pc = q.pc if q is not None else None
        loop.post_seq = len(self.events)
        loop.init = dict((sl, st.d.get(sl)) for sl in head)
        # exit state
        for sl in head:
            if sl in exits:
                st.d[sl] = exits[sl]
            elif sl in solved:
                st.d[sl] = self.close_exit(solved[sl], idx, nn)
            else:
                st.d[sl] = self.lv(lid, sl, nn, head[sl].ty)
        if q is None:
            # the body never completes normally: zero iterations or an early exit
            st.assume(eq0(nn))
        # break/return states carry the iteration guard; leave them as they are

    def resolve_lvs(self, lid, solved, head, exits, idx):
        '''closed forms found in the same round still mention each other's loop values'''
        def fix(t):
            for _ in range(6):
                m = {}
                for a in atoms(t):
                    if a.op == 'lv' and a.args[0] == lid and a.args[1] in solved:
                        f = solved[a.args[1]]
                        if a is not f:
                            m[a] = subst(f, {idx: a.args[2]})
                if not m:
                    return t
                u = subst(t, m)
                if u is t:
                    return t
                t = u
            return t
        for sl in list(solved):
            f = fix(solved[sl])
            if f is not solved[sl]:
                solved[sl] = f
                head[sl] = f
        for sl in list(exits):
            exits[sl] = fix(exits[sl])

    def close_exit(self, f, idx, n):
        return subst(f, {idx: n})

    def mark_collectors(self):
        fr = self.frame
        out = []
        f = self.frames_active
        for x in f:
            out.append((x, len(x.returns), [(b, len(b), c, len(c)) for b, c in x.loops]))
        return out, [(b, len(b)) for b in self.pending_breaks]

    def reset_collectors(self, marks, brk, nbrk):
        early = False
        for b, nb in marks[1]:
            if len(b) > nb:
                early = True
                del b[nb:]
        for x, n, ls in marks[0]:
            if len(x.returns) > n:
                early = True
                del x.returns[n:]
            for b, nb, c, nc in ls:
                if len(b) > nb:
                    early = True
                    del b[nb:]
                if len(c) > nc:
                    del c[nc:]
        if brk is not None and len(brk) > nbrk:
            early = True
            del brk[nbrk:]
        return early

    def trip_from_cond(self, c, idx):
        if c is None:
            return None
        if c.op == 'not' and c.args[0].op == 'eq0':
            # i != n  with unit step
            p = to_poly(c.args[0].args[0])
            k = p.get((idx,), 0)
            if abs(k) == 1 and not any(idx in m for m in p if m != (idx,)):
                p.pop((idx,))
                r = from_poly(p)
                r = neg(r) if k == 1 else r
                if not _has_lv(r):
                    return r
            return None
        if c.op == 'and':
            return None
        if c.op != 'ge0':
            return None
        p = to_poly(c.args[0])
        k = p.get((idx,), 0)
        if k == 0:
            # step times idx with a symbolic step
            ms = [m for m in p if idx in m]
            if len(ms) == 1 and p[ms[0]] == -1:
                l = list(ms[0])
                l.remove(idx)
                if idx in l:
                    return None
                step = from_poly({tuple(l): 1})
                p.pop(ms[0])
                a = from_poly(p)
                if _has_lv(a):
                    return None
                return add(fdiv(a, step), ONE)
            return None
        if k >= 0 or any(idx in m for m in p if m != (idx,)):
            return None
        p.pop((idx,))
        a = from_poly(p)
        if _has_lv(a):
            return None
        return add(fdiv(a, const(-k)), ONE)

    def solve(self, lid, slot, lvt, idx, v0, v, n=None, exits=None, uid0=0):
        """closed form (as a function of idx) of a loop-carried slot"""
        if v is lvt:
            return v0
        if v0.ty in ('int', None) and v.ty == 'int' and (v.op == 'poly' or v.op == 'lv'):
            p = to_poly(v)
            if p.get((lvt,), 0) == 1:
                p = dict(p)
                p.pop((lvt,))
                inc = from_poly(p)
                if _varies(inc, uid0, idx):
                    return None
                if not contains(inc, idx) and not _has_lv(inc, lid):
                    return add(v0, mul(inc, idx))
                if n is not None and contains(inc, idx) and not _has_lv(inc, lid):
                    # every iteration but the last one adds the same amount
                    early = simp((ge0(idx), ge0(sub(sub(n, const(2)), idx))), inc)
                    if not contains(early, idx):
                        lastinc = simp((eq(idx, sub(n, ONE)), ge0(sub(n, ONE))), subst(inc, {idx: sub(n, ONE)}))
                        exits[slot] = phi(ge0(sub(n, ONE)),
                                          add(add(v0, mul(early, sub(n, ONE))), lastinc), v0)
                        return add(v0, mul(early, idx))
            return None
        if v.op == 'cat' and v.args[0] is lvt:
            x = cat(*v.args[1:])
            if contains(x, lvt) or _varies(x, uid0, idx):
                return None
            j = mk('sym', 'idxb#%d' % self.new_id(), ty='int')
            xj = subst(x, {idx: j})
            if x.op == 'seq' and len(x.args) == 1:
                return cat(v0, smap(j, xj.args[0] if xj.op == 'seq' else xj, idx))
            if x.ty in ('bytes', 'str'):
                return cat(v0, bmap(j, xj, idx))
            return None
        if v.op == 'phi' and v0.op == 'seq' and not v0.args and lvt in v.args[1:]:
            # a list of those elements a condition holds for
            more = v.args[2 if v.args[1] is lvt else 1]
            if more.op == 'cat' and more.args[0] is lvt and len(more.args) == 2 and more.args[1].op == 'seq' \
                    and len(more.args[1].args) == 1:
                x, c = more.args[1].args[0], v.args[0] if v.args[2] is lvt else not_(v.args[0])
                if not any(contains(y, lvt) or _varies(y, uid0, idx) for y in (x, c)):
                    j = mk('sym', 'idxb#%d' % self.new_id(), ty='int')
                    return mk('filt', j, subst(x, {idx: j}), subst(c, {idx: j}), idx, ty='seq')
        if v.op == 'upd' and v.args[0] is lvt and v.args[1] is idx and not contains(v.args[2], lvt) \
                and not _varies(v.args[2], uid0, idx):
            j = mk('sym', 'idxb#%d' % self.new_id(), ty='int')
            return mk('fill', v0, j, subst(v.args[2], {idx: j}), idx, ty='seq')
        return None

    def s_While(self, s, st):
        fr = self.frame
        test, body = s.test, s.body
        # while True: if c: break; ...   ==  while not c: ...
        if isinstance(test, ast.Constant) and test.value and body and isinstance(body[0], ast.If) \
                and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break) and not body[0].orelse \
                and not s.orelse:
            test = ast.copy_location(ast.UnaryOp(ast.Not(), body[0].test), body[0].test)
            body = body[1:]
        brk = []

        def one(v, q):
            cont = []
            fr.loops.append((brk, cont))
            alive = True
            save = self.frame
            self.frame = fr
            try:
                self.block(body, q)
            except Dead:
                alive = False
            finally:
                self.frame = save
                fr.loops.pop()
            items = ([(q.fork(), None)] if alive else []) + cont
            if not items:
                raise Dead()
            if len(items) > 1 or not alive:
                q2, _ = self.join_many(items)
                q.replace(State(dict(q2.d), q2.pc))
        # constant unrolling
        alive = True
        try:
            for k in range(64):
                mark = len(self.events)
                probe = st.fork()
                ev_save, self.events = self.events, []
                rs_save, self.raises = self.raises, []
                try:
                    c = self.decide(self.truth(self.ev(test, probe), probe, s), probe)
                finally:
                    self.events, self.raises = ev_save, rs_save
                if c is TRUE and not (isinstance(test, ast.Constant)):
                    self.truth(self.ev(test, st), st, s)
                    one(None, st)
                    continue
                if c is FALSE:
                    self.truth(self.ev(test, st), st, s)
                    break
                # symbolic
                self.sym_loop(None, lambda i, q: None, one, st, s, brk,
                              cond=lambda q: self.ev(test, q))
                c = self.truth(self.ev(test, st), st, s)
                st.assume(not_(c))
                break
            else:
                self.event('unmodelled:while', [], {}, st, s)
            if s.orelse:
                self.block(s.orelse, st)
        except Dead:
            alive = False
        items = ([(st.fork(), None)] if alive else []) + brk
        if not items:
            raise Dead()
        if len(items) > 1 or not alive:
            q, _ = self.join_many(items)
            st.replace(State(dict(q.d), q.pc))

    # --------------------------------------------------------- generators
    def run_gen(self, g, st, consumer):
        info = self.gens[g.args[0]]
        if 'comp' in info:
            fr = info['frame']
            save = self.frame
            saved_stack = self.stack

            def inner(v, q):
                s2 = self.frame
                self.frame = save
                try:
                    return consumer(v, q)
                finally:
                    self.frame = s2
            self.frame = fr
            self.frames_active.append(fr)
            try:
                self.comp_loops(info['comp'].generators, 0, st,
                                lambda q: inner(self.ev(info['comp'].elt, q), q), info['first'])
            finally:
                self.frame = save
                self.frames_active.pop()
            return
        fi, fr = info['func'], info['frame']
        if self.stack.count(fi.qual) > 2:
            self.event('unmodelled:recursion', [], {}, st, fi.node)
            return
        save = self.frame
        save_stack, save_loops = self.stack, self.loopstack

        def inner(v, q):
            s2, st2 = self.frame, self.stack
            self.frame, self.stack = save, save_stack
            try:
                return consumer(v, q)
            finally:
                self.frame, self.stack = s2, st2
        fr.consumer = inner
        self.frame = fr
        self.stack = self.stack + [fi.qual]
        self.stats['functions'].add(fi.qual)
        self.frames_active.append(fr)
        alive = True
        fr.returns = []
        try:
            self.block(fi.node.body, st)
        except Dead:
            alive = False
        finally:
            self.frame, self.stack = save, save_stack
            self.frames_active.pop()
        items = ([(st.fork(), NONE)] if alive else []) + fr.returns
        if not items:
            raise Dead()
        q, _ = self.join_many(items)
        st.replace(State(dict(q.d), q.pc))

    frames_active = []

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        if self.frame.consumer is None:
            self.event('unmodelled:yield', [], {}, st, e)
            return NONE
        self.frame.consumer(v, st)
        return NONE

    def e_YieldFrom(self, e, st):
        it = self.ev(e.value, st)
        cons = self.frame.consumer
        self.iterate(it, lambda v, q: cons(v, q), st, e)
        return NONE

    # ---------------------------------------------------------- assignment
    def name_slot(self, name, store=False):
        fr = self.frame
        if name in fr.globals_decl:
            return ('v', 'm:' + fr.mod, name)
        if name in fr.nonlocals:
            for f in reversed(fr.closure):
                if self.has_local(f, name):
                    return ('v', f, name)
        return ('v', fr.fid, name)

    def has_local(self, fid, name):
        ls = self.frame_locals.get(fid)
        return ls is not None and name in ls

    frame_locals = {}

    def assign_name(self, name, v, st):
        sl = self.name_slot(name, True)
        if sl[1].startswith('m:') if isinstance(sl[1], str) else False:
            if not self.module_phase and self.frame.fid != sl[1]:
                self.event('global_write', [const(sl[1][2:]), const(name), v], {}, st, self.cur_node)
        st.d[sl] = v

    cur_node = None

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.cur_node = t
            self.assign_name(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack_assign(t, v, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st), t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            self.setitem(o, self.ev_index(t.slice, st), v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack_assign(self, t, v, st):
        n = len(t.elts)
        if v.op == 'phi' and v.args[1].op == 'tuple' and v.args[2].op == 'tuple' and \
                len(v.args[1].args) == len(v.args[2].args):
            v = mk('tuple', *[phi(v.args[0], x, y) for x, y in zip(v.args[1].args, v.args[2].args)], ty='tuple')
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if v.op == 'gen' or v.op.startswith('it_'):
            v = self.as_seq(v, st, t)
        if v.op == 'obj' and v.args[1] in ('list', 'dict'):
            v = self.as_seq(v, st, t)
        if v.op in ('tuple', 'seq'):
            xs = v.args
            if star:
                k = star[0]
                after = n - k - 1
                for i in range(k):
                    self.assign(t.elts[i], xs[i], st)
                self.assign(t.elts[k], self.new_list(st, mk('seq', *xs[k:len(xs) - after], ty='seq')), st)
                for i in range(after):
                    self.assign(t.elts[k + 1 + i], xs[len(xs) - after + i], st)
                return
            if len(xs) != n:
                self.raise_exc('ValueError', [const('unpack')], st, t)
            for e, x in zip(t.elts, xs):
                self.assign(e, x, st)
            return
        if v.op in ('phi', 'tab'):
            vs = [self.elem_of(v, i, st) for i in range(n)]
        else:
            vs = [at(v, const(i)) for i in range(n)]
        for e, x in zip(t.elts, vs):
            self.assign(e, x, st)

    def elem_of(self, v, i, st):
        if v.op == 'phi':
            return phi(v.args[0], self.elem_of(v.args[1], i, st), self.elem_of(v.args[2], i, st))
        if v.op == 'tab':
            r = tab(v.args[0], [(k, self.elem_of(x, i, st)) for k, x in v.args[1]])
            return r
        if v.op == 'obj' and v.args[1] == 'list':
            return at(self.content(st, v), const(i))
        return at(v, const(i))

    # --------------------------------------------------------- expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.event('unmodelled:' + type(e).__name__, [], {}, st, e)
            return fresh('unk')
        r = m(e, st)
        return r

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.load_name(e.id, st, e)

    def note_absent(self, sl, o):
        if self.loopstack:
            self.absent[sl] = self.new_id()
            if o is not None and o not in self.read_on:
                self.read_on.append(o)

    def load_name(self, name, st, node):
        fr = self.frame
        if name not in fr.globals_decl:
            v = st.d.get(('v', fr.fid, name))
            if v is not None and not (fr.fid_is_module() and (fr.mod, name) in self.overrides):
                return v
            for f in reversed(fr.closure):
                v = st.d.get(('v', f, name))
                if v is not None:
                    return v
            if fr.locals and name in fr.locals:
                self.note_absent(('v', fr.fid, name), None)
                self.raise_exc('UnboundLocalError', [const(name)], st, node)
        if name == '__name__':
            return const(self.pkg + '.' + fr.mod)
        if name == '__file__':
            return const(fr.mod + '.py')
        if name == '__class__' and fr.func is not None and fr.func.cls is not None:
            return fr.func.cls
        return self.global_get(fr.mod, name, st, node)

    def e_Tuple(self, e, st):
        return mk('tuple', *self.elts(e.elts, st), ty='tuple')

    def elts(self, es, st):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                s = self.as_seq(self.ev(x.value, st), st, x)
                if s.op in ('seq', 'tuple'):
                    out.extend(s.args)
                else:
                    out.append(mk('splat', s))
            else:
                out.append(self.ev(x, st))
        return out

    def mkseq(self, xs):
        parts = []
        for x in xs:
            parts.append(x.args[0] if x.op == 'splat' else mk('seq', x, ty='seq'))
        if not parts:
            return mk('seq', ty='seq')
        return cat(*parts)

    def e_List(self, e, st):
        return self.new_list(st, self.mkseq(self.elts(e.elts, st)))

    def e_Set(self, e, st):
        return self.new_set(st, self.mkseq(self.elts(e.elts, st)))

    def e_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, st)
                items = self.dict_merge(items, self.dict_items(d, st, e))
            else:
                kk = self.ev(k, st)
                items = self.dict_merge(items, [(kk, self.ev(v, st))])
        return self.new_dict(st, items)

    def dict_merge(self, items, more):
        out = list(items)
        for k, v in more:
            for i, (kk, _) in enumerate(out):
                if kk is k:
                    out[i] = (k, v)
                    break
            else:
                out.append((k, v))
        return out

    def dict_items(self, d, st, node):
        """known (key, value) pairs of a mapping value, or None"""
        if d.op == 'obj' and d.args[1] == 'dict':
            c = self.content(st, d)
            if c.op == 'dict':
                return list(c.args)
            return [(mk('anykey', c), mk('at', c, mk('anykey', c)))]
        if d.op == 'obj' and d.args[1] == 'inst':
            ks = self.call_method(d, 'keys', [], st, node)
            seq = self.as_seq(ks, st, node)
            if seq.op in ('seq', 'tuple'):
                return [(k, self.getitem(d, k, st, node)) for k in seq.args]
        return [(mk('anykey', d), mk('at', d, mk('anykey', d)))]

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def go(i, q):
            v = self.ev(e.values[i], q)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, q, e)
            rest = lambda r: go(i + 1, r)
            keep = lambda r: self.narrow(v, r)
            return self.branch(c, q, rest, keep) if isand else self.branch(c, q, keep, rest)
        return go(0, st)

    def narrow(self, v, st):
        if v.ty == 'bool' and v.op != 'const':
            return self.decide(v, st)
        return v

    def e_IfExp(self, e, st):
        c = self.truth(self.ev(e.test, st), st, e)
        return self.branch(c, st, lambda q: self.ev(e.body, q), lambda q: self.ev(e.orelse, q))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v, st, e))
        if isinstance(e.op, ast.USub):
            if v.ty == 'float' and is_const(v):
                return const(-cval(v))
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return sub(const(-1), v)
        return fresh('unk')

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def seqlike(self, x):
        return x.ty in ('bytes', 'str', 'tuple', 'seq') or (x.op == 'obj' and x.args[1] == 'list')

    def distribute(self, f, xs, st, want):
        """apply f to the arguments, pushing through phi/tab on those where want(x)"""
        for i, x in enumerate(xs):
            if x.op == 'phi' and want(x):
                g = lambda y: xs[:i] + [y] + xs[i + 1:]
                return self.branch(x.args[0], st,
                                   lambda q: self.distribute(f, g(x.args[1]), q, want),
                                   lambda q: self.distribute(f, g(x.args[2]), q, want))
        return f(xs, st)

    def binop(self, op, a, b, st, node):
        if isinstance(op, ast.Add):
            if a.op == 'phi' and a.ty in ('list', None) and any(x.op == 'obj' for x in a.args[1:]):
                return self.distribute(lambda xs, q: self.binop(op, xs[0], xs[1], q, node), [a, b], st,
                                       lambda x: x.op == 'phi' and any(y.op == 'obj' for y in x.args[1:]))
            if b.op == 'phi' and b.ty in ('list', None) and any(x.op == 'obj' for x in b.args[1:]):
                return self.distribute(lambda xs, q: self.binop(op, xs[0], xs[1], q, node), [a, b], st,
                                       lambda x: x.op == 'phi' and any(y.op == 'obj' for y in x.args[1:]))
            if a.op == 'obj' and a.args[1] == 'list':
                return self.new_list(st, cat(self.content(st, a), self.as_seq(b, st, node)))
            if a.op == 'obj' and a.args[1] == 'inst':
                m = self.find_method(a, '__add__', st)
                if m is not None:
                    return self.call(mk('bound', m, a), [b], [], st, node)
            if self.seqlike(a) or self.seqlike(b):
                return cat(a, b)
            if a.ty == 'float' or b.ty == 'float':
                return self.floatop('fadd', a, b)
            if a.ty in INTLIKE or b.ty in INTLIKE or a.op in ('poly',) or b.op == 'poly':
                return add(a, b)
            return mk('add', a, b)
        if isinstance(op, ast.Sub):
            if a.ty == 'float' or b.ty == 'float':
                return self.floatop('fsub', a, b)
            if a.op == 'obj' and a.args[1] == 'set':
                return self.set_op('difference', a, b, st, node)
            return sub(a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if x.op == 'obj' and x.args[1] == 'list':
                    return self.new_list(st, self.rep_clamped(self.content(st, x), y, st))
                if x.ty in ('bytes', 'str', 'tuple', 'seq'):
                    return self.rep_clamped(x, y, st)
            if a.ty == 'float' or b.ty == 'float':
                return self.floatop('fmul', a, b)
            return mul(a, b)
        if isinstance(op, ast.Mod):
            if a.ty in ('str', 'bytes') or a.op in ('fmt',):
                return self.ext.percent_format(self, a, b, st, node)
            self.maybe_raise('ZeroDivisionError', eq0(b) if b.ty in INTLIKE else FALSE, [fmod(a, b)], st, node)
            return fmod(a, b)
        if isinstance(op, ast.FloorDiv):
            if a.ty == 'float' or b.ty == 'float':
                return self.floatop('ffloordiv', a, b)
            self.maybe_raise('ZeroDivisionError', eq0(b) if b.ty in INTLIKE else FALSE, [fdiv(a, b)], st, node)
            return fdiv(a, b)
        if isinstance(op, ast.Div):
            self.maybe_raise('ZeroDivisionError', eq0(b) if b.ty in INTLIKE else FALSE, [mk('div', a, b, ty='float')], st, node)
            if is_const(a) and is_const(b):
                return const(cval(a) / cval(b))
            return mk('div', a, b, ty='float')
        if isinstance(op, ast.Pow):
            if is_const(a) and is_const(b):
                return const(cval(a) ** cval(b))
            if a.op == 'const' and cval(a) == 2:
                return mk('shl', ONE, b, ty='int')
            return mk('pow', a, b, ty='int')
        if isinstance(op, ast.BitAnd):
            if a.op == 'obj' and a.args[1] == 'set':
                return self.set_op('intersection', a, b, st, node)
            return band(a, b) if a.ty != 'bool' or b.ty != 'bool' else and_(a, b)
        if isinstance(op, ast.BitOr):
            if a.op == 'obj' and a.args[1] == 'set':
                return self.set_op('union', a, b, st, node)
            if a.op == 'obj' and a.args[1] == 'dict':
                return self.new_dict(st, self.dict_merge(self.dict_items(a, st, node), self.dict_items(b, st, node)))
            if a.ty == 'bool' and b.ty == 'bool':
                return or_(a, b)
            return bor(b2i(a) if a.ty == 'bool' else a, b2i(b) if b.ty == 'bool' else b)
        if isinstance(op, ast.BitXor):
            if a.ty == 'bool' and b.ty == 'bool':
                return or_(and_(a, not_(b)), and_(not_(a), b))
            if a.op == 'obj' and a.args[1] == 'set':
                return self.set_op('symmetric_difference', a, b, st, node)
            return mk('bxor', *sorted([a, b], key=lambda t: t.uid), ty='int')
        if isinstance(op, ast.RShift):
            return shr(a, b)
        if isinstance(op, ast.LShift):
            return shl(b2i(a) if a.ty == 'bool' else a, b)
        return fresh('unk')

    def floatop(self, name, a, b):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                return const({'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y,
                              'ffloordiv': lambda: x // y}[name]())
            except Exception:
                pass
        return mk(name, a, b, ty='float')

    def rep_clamped(self, x, n, st):
        if is_cint(n):
            return rep(x, n)
        c = self.decide(ge0(n), st)
        if c is TRUE:
            return rep(x, n)
        if c is FALSE:
            return rep(x, ZERO)
        return rep(x, phi(c, n, ZERO))

    def set_op(self, name, a, b, st, node):
        x, y = self.as_seq(a, st, node), self.as_seq(b, st, node)
        if all(t.op in ('seq', 'tuple') and all(is_const(z) for z in t.args) for t in (x, y)):
            sx, sy = list(x.args), list(y.args)
            r = {'difference': [z for z in sx if z not in sy],
                 'intersection': [z for z in sx if z in sy],
                 'union': sx + [z for z in sy if z not in sx],
                 'symmetric_difference': [z for z in sx if z not in sy] + [z for z in sy if z not in sx]}[name]
            return self.new_set(st, mk('seq', *r, ty='seq'))
        return self.new_set(st, mk('setop', name, x, y, ty='seq'))

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            out = and_(out, self.compare(op, left, right, st, e))
            left = right
        return out

    def compare(self, op, a, b, st, node):
        if isinstance(op, ast.Is):
            if b is NONE:
                return is_none(a)
            if a is NONE:
                return is_none(b)
            if a.op == 'obj' and b.op == 'obj':
                return const(a is b)
            return eq(a, b)
        if isinstance(op, ast.IsNot):
            return not_(self.compare(ast.Is(), a, b, st, node))
        if isinstance(op, ast.Eq):
            return self.equals(a, b, st, node)
        if isinstance(op, ast.NotEq):
            return not_(self.equals(a, b, st, node))
        if isinstance(op, ast.In):
            return self.contains(b, a, st, node)
        if isinstance(op, ast.NotIn):
            return not_(self.contains(b, a, st, node))
        for x in (a, b):
            if is_const(x) and x.ty in ('float', 'str', 'bytes', 'tuple'):
                if is_const(a) and is_const(b):
                    x, y = cval(a), cval(b)
                    return const({ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y,
                                  ast.GtE: lambda: x >= y}[type(op)]())
        if a.ty == 'float' or b.ty == 'float' or a.ty in ('str', 'bytes', 'tuple') or b.ty in ('str', 'bytes', 'tuple'):
            if isinstance(op, ast.Gt):
                return mk('lt', b, a, ty='bool')
            if isinstance(op, ast.Lt):
                return mk('lt', a, b, ty='bool')
            if isinstance(op, ast.LtE):
                return not_(mk('lt', b, a, ty='bool'))
            return not_(mk('lt', a, b, ty='bool'))
        if (a.op == 'obj' and a.args[1] == 'set') or (b.op == 'obj' and b.args[1] == 'set'):
            x, y = self.as_seq(a, st, node), self.as_seq(b, st, node)
            if isinstance(op, (ast.Gt, ast.GtE)):
                x, y = y, x
            r = and_(*[self.seq_contains(y, z) for z in x.args]) if x.op == 'seq' and y.op == 'seq' else fresh('subset', 'bool')
            return r
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.LtE):
            return le(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.GtE):
            return le(b, a)
        return fresh('cmp', 'bool')

    def equals(self, a, b, st, node):
        for x, y in ((a, b), (b, a)):
            if x.op == 'obj' and x.args[1] == 'inst':
                m = self.find_method(x, '__eq__', st)
                if m is not None:
                    return self.truth(self.call(mk('bound', m, x), [y], [], st, node), st, node)
        if a.op == 'obj' and b.op == 'obj' and a.args[1] == b.args[1] and a.args[1] in ('list', 'set'):
            x, y = self.content(st, a), self.content(st, b)
            if x is y:
                return TRUE
            if x.op == 'seq' and y.op == 'seq':
                if a.args[1] == 'set':
                    if all(is_const(z) for z in x.args + y.args):
                        return const(set(x.args) == set(y.args))
                elif len(x.args) != len(y.args):
                    return FALSE
                else:
                    return and_(*[eq(p, q) for p, q in zip(x.args, y.args)])
            return mk('eq', *sorted([x, y], key=lambda t: t.uid), ty='bool')
        if a.op == 'obj' and a.args[1] == 'list' and b.op != 'obj':
            return eq(self.content(st, a), b) if b.ty in ('seq',) else eq(a, b)
        return eq(a, b)

    def contains(self, c, x, st, node):
        if c.op == 'phi' and (c.args[1].op == 'obj' or c.args[2].op == 'obj'):
            return phi(c.args[0], self.contains(c.args[1], x, st, node), self.contains(c.args[2], x, st, node))
        if c.op == 'obj' and c.args[1] == 'inst':
            m = self.find_method(c, '__contains__', st)
            if m is not None:
                return self.truth(self.call(mk('bound', m, c), [x], [], st, node), st, node)
            if self.is_mapping(c):
                ks = self.as_seq(self.call_method(c, 'keys', [], st, node), st, node)
                return self.seq_contains(ks, x)
        if c.op == 'obj' and c.args[1] == 'dict':
            d = self.content(st, c)
            if d.op == 'dict':
                return or_(*[eq(x, k) for k, _ in d.args])
            return mk('in', x, d, ty='bool')
        if c.op == 'range':
            a, b, s = c.args
            if s is ONE:
                return and_(le(a, x), lt(x, b))
        if c.op == 'const' and c.ty in ('str', 'bytes'):
            if is_const(x):
                try:
                    return const(cval(x) in cval(c))
                except TypeError:
                    return fresh('in', 'bool')
            if x.op == 'chr01':
                return or_(*[eq(x, const(ch)) for ch in cval(c)])
            return mk('in', x, c, ty='bool')
        if c.ty in ('str', 'bytes') or c.op in ('fmt', 'sym', 'at', 'attr', 'call'):
            return mk('in', x, c, ty='bool')
        return self.seq_contains(self.as_seq(c, st, node), x)

    def seq_contains(self, s, x):
        if s.op in ('seq', 'tuple'):
            return or_(*[eq(x, y) for y in s.args])
        if s.op == 'digits':
            return or_(*[eq(x, mk('chr01', y, ty='str')) for y in s.args])
        return mk('in', x, s, ty='bool')

    def truth(self, v, st, node):
        """boolean term for bool(v)"""
        if v.ty == 'bool':
            return v
        if v.op == 'const':
            return const(bool(cval(v)))
        if v.op == 'phi':
            return phi(v.args[0], self.truth(v.args[1], st, node), self.truth(v.args[2], st, node))
        if v.op == 'tab':
            vs = [(k, self.truth(x, st, node)) for k, x in v.args[1]]
            if all(is_const(x) for _, x in vs):
                return tm.tab_bool(v.args[0], [k for k, x in vs if x is TRUE], [k for k, _ in vs])
        if v.ty == 'int':
            return not_(eq0(v))
        if v.ty == 'none':
            return FALSE
        if v.ty in ('bytes', 'str') or v.op in ('tuple', 'seq', 'cat', 'smap', 'rep'):
            return not_(eq0(length(v)))
        if v.op in ('func', 'class', 'ext', 'module', 'bound', 'excv'):
            return TRUE
        if v.op == 'obj':
            k = v.args[1]
            if k in ('list', 'set'):
                return not_(eq0(length(self.content(st, v))))
            if k == 'dict':
                c = self.content(st, v)
                if c.op == 'dict':
                    return const(bool(c.args))
                return mk('truthy', c, ty='bool')
            if k == 'inst':
                for nm in ('__bool__', '__nonzero__', '__len__'):
                    m = self.find_method(v, nm, st)
                    if m is not None:
                        return self.truth(self.call(mk('bound', m, v), [], [], st, node), st, node)
            return TRUE
        return mk('truthy', v, ty='bool')

    # ------------------------------------------------------ subscripting
    def ev_index(self, e, st):
        if isinstance(e, ast.Slice):
            return mk('pyslice', *[self.ev(x, st) if x is not None else NONE
                                   for x in (e.lower, e.upper, e.step)])
        return self.ev(e, st)

    def e_Slice(self, e, st):
        return self.ev_index(e, st)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        k = self.ev_index(e.slice, st)
        return self.getitem(o, k, st, e)

    def getitem(self, o, k, st, node):
        if o.op == 'phi':
            o = simp(st.pc, o)
        if o.op == 'phi':
            return self.branch(o.args[0], st, lambda q: self.getitem(o.args[1], k, q, node),
                               lambda q: self.getitem(o.args[2], k, q, node))
        if k.op == 'pyslice':
            return self.getslice(o, k, st, node)
        if o.op == 'mview':
            o = o.args[0]
        if o.op == 'obj':
            kind = o.args[1]
            if kind == 'inst':
                m = self.find_method(o, '__getitem__', st)
                if m is not None:
                    return self.call(mk('bound', m, o), [k], [], st, node)
            if kind == 'dict':
                c = self.content(st, o)
                return self.dict_get(c, k, st, node)
            if kind == 'list':
                c = self.content(st, o)
                return self.seq_get(c, k, st, node)
            if kind.startswith('ext:') or kind == 'file':
                self.event('getitem', [o, k], {}, st, node)
                return mk('at', o, k)
        if o.op in ('tuple', 'seq', 'const', 'digits'):
            if o.op == 'const' and o.ty not in ('bytes', 'str'):
                self.raise_exc('TypeError', [const('not subscriptable')], st, node)
            return self.seq_get(o, k, st, node)
        if o.ty in ('bytes', 'str', 'seq', 'tuple') and o.op != 'sym':
            return self.seq_get(o, k, st, node)
        if o.ty == 'bytes':
            return self.seq_get(o, k, st, node)
        if o.op == 'range':
            return self.index_of(o, k, st)
        if o.op == 'ns':
            return mk('at', o, k)
        if o.op == 'fixeddict':
            for kk, v in o.args[0]:
                if kk is k:
                    return v
            return mk('at', o, k)
        r = mk('at', o, k, ty=None)
        if o.ty == 'str' and is_cint(k):
            n = length(o)
            # what is known to end in something is not empty
            ends = [not_(a) for a in set(a for c in st.pc for a in tm.atoms(c)) if a.op == 'call' and
                    a.args[0] == 'str.endswith' and a.args[1][0] is o and is_const(a.args[1][1]) and
                    len(cval(a.args[1][1])) >= (-cval(k) if cval(k) < 0 else cval(k) + 1)]
            self.maybe_raise('IndexError', and_(lt(n, const(-cval(k))) if cval(k) < 0 else le(n, k), *ends), [], st, node)
        self.event('subscript', [o, k], {}, st, node, res=r)
        return r

    def dict_get(self, c, k, st, node, default=None):
        k = simp(st.pc, k) if k.op in ('phi', 'tab') else k
        if k.op == 'phi' and c.op == 'dict':
            return self.branch(k.args[0], st, lambda q: self.dict_get(c, k.args[1], q, node, default),
                               lambda q: self.dict_get(c, k.args[2], q, node, default))
        if c.op == 'dict':
            anyk = False
            for kk, v in reversed(c.args):
                if kk is k:
                    return v
                if kk.op == 'anykey':
                    anyk = True
            if is_const(k):
                for kk, v in c.args:
                    if eq(kk, k) is TRUE:
                        return v
                if all(is_const(kk) for kk, _ in c.args):
                    if default is not None:
                        return default
                    self.raise_exc('KeyError', [k], st, node)
            elif all(is_const(kk) for kk, _ in c.args) and c.args:
                kt = set(kk.ty for kk, _ in c.args)
                miss = and_(*[not_(eq(k, kk)) for kk, _ in c.args])
                if default is None:
                    self.maybe_raise('KeyError', miss, [k], st, node)
                    live = [(kk, v) for kk, v in c.args if self.decide(eq(k, kk), st) is not FALSE]
                    if len(live) == 1:
                        return live[0][1]
                    return tab(k, live or c.args)
                live = list(c.args)
                return phi(self.decide(miss, st), default, tab(k, live))
            if anyk:
                for kk, v in c.args:
                    if kk.op == 'anykey':
                        return mk('at', kk.args[0], k)
            if not c.args and default is not None:
                return default
        r = mk('at', c, k)
        return r if default is None else mk('call', 'dict.get', (c, k, default), ())

    def seq_get(self, c, k, st, node):
        if c.op == 'phi':
            c = simp(st.pc, c)
        if k.ty not in ('int', 'bool', None):
            self.raise_exc('TypeError', [const('index')], st, node)
        if k.ty == 'bool':
            k = b2i(k)
            if k.op == 'b2i' and c.op in ('seq', 'tuple') and len(c.args) == 2:
                return phi(k.args[0], c.args[1], c.args[0])
        n = length(c)
        if is_cint(k) and is_cint(n):
            if not -cval(n) <= cval(k) < cval(n):
                self.raise_exc('IndexError', [], st, node)
            return at(c, k)
        if c.op in ('seq', 'tuple') and is_cint(n) and nonneg(k):
            self.maybe_raise('IndexError', le(n, k), [], st, node)
            live = [i for i in range(cval(n)) if self.decide(eq(k, const(i)), st) is not FALSE]
            r = tab(k, [(const(i), c.args[i]) for i in live])
            if r is not None:
                return r
        r = at(c, k)
        return simp_at(st, r)

    def getslice(self, o, k, st, node):
        lo, hi, step = k.args
        if o.op == 'mview':
            o = o.args[0]
        islist = o.op == 'obj' and o.args[1] == 'list'
        if o.op == 'obj' and o.args[1] == 'inst':
            m = self.find_method(o, '__getitem__', st)
            if m is not None:
                return self.call(mk('bound', m, o), [k], [], st, node)
        x = self.content(st, o) if islist else o
        if o.op == 'it_rev' or o.op == 'range':
            x = self.as_seq(o, st, node)
        wrap = (lambda t: self.new_list(st, t)) if islist else (lambda t: t)
        if x.op == 'binstr' and lo is not NONE and is_cint(lo) and cval(lo) == 2 and hi is NONE:
            return mk('binraw', x.args[0], ty='str')
        if step is not NONE and not (is_cint(step) and cval(step) == 1):
            if is_cint(step) and x.op in ('seq', 'tuple', 'const', 'digits') and \
                    (lo is NONE or is_cint(lo)) and (hi is NONE or is_cint(hi)):
                sl = slice(None if lo is NONE else cval(lo), None if hi is NONE else cval(hi), cval(step))
                if x.op == 'const':
                    return const(cval(x)[sl])
                return wrap(mk(x.op, *x.args[sl], ty=x.ty))
            if is_cint(step) and cval(step) == -1 and lo is NONE and hi is NONE:
                return wrap(mk('reversed', x, ty=x.ty))
            return wrap(mk('slice3', x, lo, hi, step, ty=x.ty))
        n = length(x)
        if x.op == 'sym' and not is_cint(n) and st.pc:
            n = simp(st.pc, n)

        def norm(v, dflt):
            if v is NONE:
                return dflt
            if is_cint(v):
                c = cval(v)
                if c < 0:
                    r = add(n, v)
                    if is_cint(r) and cval(r) < 0:
                        return ZERO
                    return r
                if is_cint(n):
                    return const(min(c, cval(n)))
                return v
            # symbolic bound: negative constants plus len are handled, others kept
            p = to_poly(v)
            if self.decide(lt(v, ZERO), st) is TRUE:
                return add(n, v)
            if is_cint(n) or True:
                c = self.decide(le(v, n), st)
                if c is FALSE:
                    return n
            return v
        a, b = norm(lo, ZERO), norm(hi, n)
        if is_cint(a) and is_cint(b) and cval(a) > cval(b):
            b = a
        if hi is not NONE and not is_cint(n) and x.ty != 'bytes' and x.op not in ('cat', 'const') and is_cint(b) and islist:
            return wrap(mk('slice', x, a, b, ty=x.ty))
        return wrap(slice_(x, a, b))

    def setitem(self, o, k, v, st, node):
        if o.op == 'phi':
            o = simp(st.pc, o)
        if o.op == 'phi':
            self.branch(o.args[0], st, lambda q: self.setitem(o.args[1], k, v, q, node),
                        lambda q: self.setitem(o.args[2], k, v, q, node))
            return
        if o.op == 'obj':
            kind = o.args[1]
            if kind == 'inst':
                m = self.find_method(o, '__setitem__', st)
                if m is not None:
                    self.call(mk('bound', m, o), [k, v], [], st, node)
                    return
            if kind == 'dict':
                c = self.content(st, o)
                self.event('mutate', [o], {}, st, node, how='setitem', key=k)
                if c.op == 'dict':
                    st.d[('c', o.args[0])] = mk('dict', *self.dict_merge(list(c.args), [(k, v)]), ty='dictc')
                else:
                    st.d[('c', o.args[0])] = mk('dictupd', c, k, v, ty='dictc')
                return
            if kind == 'list':
                c = self.content(st, o)
                self.event('mutate', [o], {}, st, node, how='setitem', key=k)
                if k.op == 'pyslice':
                    lo, hi, step = k.args
                    if lo is NONE and hi is NONE:
                        st.d[('c', o.args[0])] = self.as_seq(v, st, node)
                        return
                    st.d[('c', o.args[0])] = mk('seqv', self.new_id(), ty='seq')
                    return

                def upd(c):
                    if c.op == 'phi':
                        return phi(c.args[0], upd(c.args[1]), upd(c.args[2]))
                    if c.op == 'seq' and is_cint(k) and -len(c.args) <= cval(k) < len(c.args):
                        xs = list(c.args)
                        xs[cval(k)] = v
                        return mk('seq', *xs, ty='seq')
                    return mk('upd', c, k, v, ty='seq')
                st.d[('c', o.args[0])] = upd(c)
                return
        self.event('setitem', [o, k, v], {}, st, node)

    # -------------------------------------------------------- attributes
    def e_Attribute(self, e, st):
        return self.getattr(self.ev(e.value, st), e.attr, st, e)

    def mro(self, ct):
        out = [ct]
        if ct.op == 'class':
            for b in self.classes[ct.args[0]].bases:
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        return out

    def class_attr(self, ct, name, st):
        for c in self.mro(ct):
            if c.op == 'class':
                v = st.d.get(('a', 'C%d' % c.args[0], name))
                if v is not None:
                    return v
        return None

    def cls_of(self, o):
        return self.objs[o.args[0]]['cls']

    def find_method(self, o, name, st):
        v = self.class_attr(self.cls_of(o), name, st)
        if v is not None and v.op == 'func' and self.funcs[v.args[0]].abstract:
            pass
        return v

    def is_mapping(self, o):
        return any(c.op == 'ext' and c.args[0].split('.')[-1] in ('MutableMapping', 'Mapping') for c in self.mro(self.cls_of(o)))

    def getattr(self, o, name, st, node, default=None):
        op = o.op
        if op == 'phi':
            o2 = simp(st.pc, o)
            if o2 is not o:
                return self.getattr(o2, name, st, node, default)
            return self.branch(o.args[0], st, lambda q: self.getattr(o.args[1], name, q, node, default),
                               lambda q: self.getattr(o.args[2], name, q, node, default))
        if op == 'tab' and any(v.op in ('obj', 'func', 'tuple', 'class') for _, v in o.args[1]):
            vals = []
            for k, v in o.args[1]:
                vals.append((k, self.getattr(v, name, st, node, default)))
            if all(v.op == 'bound' for _, v in vals):
                return tab(o.args[0], vals)
            return tab(o.args[0], vals)
        if op == 'obj':
            kind = o.args[1]
            if kind == 'inst':
                cls = self.cls_of(o)
                ca = self.class_attr(cls, name, st)
                if ca is not None and ca.op == 'prop':
                    return self.call(mk('bound', ca.args[0], o), [], [], st, node)
                v = st.d.get(('a', o.args[0], name))
                if v is not None:
                    return v
                if ca is None or ca.op != 'func':
                    self.note_absent(('a', o.args[0], name), o)
                if ca is not None:
                    return self.bind(ca, o, cls)
                if name == '__class__':
                    return cls
                if name == '__dict__':
                    items = [(const(k[2]), v) for k, v in st.d.items() if k[0] == 'a' and k[1] == o.args[0]]
                    return self.new_dict(st, items)
                if self.is_mapping(o) and name in ('keys', 'items', 'values', 'get', 'update', 'pop', 'setdefault'):
                    return mk('mixin', o, name)
                m = self.class_attr(cls, '__getattr__', st)
                if m is not None:
                    return self.call(mk('bound', m, o), [const(name)], [], st, node)
                ext = [c for c in self.mro(cls) if c.op == 'ext' and c.args[0] not in ('builtins.object',)]
                if ext and any(c.args[0].split('.')[0] not in ('builtins', 'collections', 'abc') for c in ext):
                    return mk('attr', o, name)
                if default is not None:
                    return default
                self.raise_exc('AttributeError', [const(self.class_name(cls)), const(name)], st, node)
            if kind == 'file':
                return self.ext.file_attr(self, o, name, st, node)
            if kind in ('list', 'dict', 'set'):
                return mk('method', o, name)
            if kind == 'ns':
                v = st.d.get(('a', o.args[0], name))
                if v is None:
                    v = self.ext.namespace_attr(self, o, name, st)
                    if v is None:
                        if default is not None:
                            return default
                        self.raise_exc('AttributeError', [const('Namespace'), const(name)], st, node)
                    st.d[('a', o.args[0], name)] = v
                return v
            if kind.startswith('ext:'):
                v = st.d.get(('a', o.args[0], name))
                if v is not None:
                    return v
                return mk('method', o, name)
        if op == 'module':
            m = o.args[0]
            v = self.overrides.get((m, name)) if not self.module_phase else None
            if v is None:
                v = st.d.get(('v', 'm:' + m, name))
            if v is not None:
                if not self.module_phase:
                    self.reads_global.setdefault((m, name), v)
                return v
            if m == '__init__' and name in self.trees:
                self.import_module(name)
                return self.modterm(name)
            if default is not None:
                return default
            self.raise_exc('AttributeError', [const(m), const(name)], st, node)
        if op == 'ext':
            v = st.d.get(('a', 'ext:' + o.args[0], name))
            if v is not None:
                return v
            return self.ext.resolve(o.args[0] + '.' + name)
        if op == 'class':
            v = self.class_attr(o, name, st)
            if v is not None:
                if v.op == 'func' and self.funcs[v.args[0]].kind == 'class':
                    return mk('bound', v, o)
                if v.op == 'static':
                    return v.args[0]
                if v.op == 'classm':
                    return mk('bound', v.args[0], o)
                return v
            ci = self.classes[o.args[0]]
            if name == '__name__':
                return const(ci.name)
            if name == '__mro__':
                return mk('tuple', *self.mro(o), ty='tuple')
            for b in self.mro(o)[1:]:
                if b.op == 'ext' and name in ('__init__', '__call__', '__setitem__', '__getitem__'):
                    return self.ext.resolve(b.args[0] + '.' + name)
            if default is not None:
                return default
            self.raise_exc('AttributeError', [const(ci.name), const(name)], st, node)
        if op == 'super':
            cls, self_ = o.args
            start = self.mro(self.cls_of(self_) if self_.op == 'obj' else self_)
            i = start.index(cls) + 1 if cls in start else 1
            for c in start[i:]:
                if c.op == 'class':
                    v = st.d.get(('a', 'C%d' % c.args[0], name))
                    if v is not None:
                        if v.op == 'prop':
                            return self.call(mk('bound', v.args[0], self_), [], [], st, node)
                        return self.bind(v, self_, c)
            return mk('superext', self_, name)
        if op == 'func':
            fi = self.funcs[o.args[0]]
            if name == '__name__':
                return const(fi.name)
            if name == '__doc__':
                return const(fi.doc)
            v = st.d.get(('a', 'F%d' % o.args[0], name))
            if v is not None:
                return v
            return mk('attr', o, name)
        if op == 'excv':
            return self.ext.exc_attr(self, o, name, st, node, default)
        if op == 'struct':
            if name == 'size':
                return const(tm_struct_size(o.args[0]))
            return mk('method', o, name)
        if op == 'tuple' and name in ('_replace', '_asdict'):
            return mk('method', o, name)
        if op == 'nt':
            ci_fields = o.args[0]
            if name in ci_fields:
                return o.args[1].args[ci_fields.index(name)]
        if o.ty in ('str', 'bytes', 'int', 'float', 'tuple', 'seq', 'bool') or op in ('fmt', 'mview'):
            return mk('method', o, name)
        return self.ext.opaque_attr(self, o, name, st, node)

    def bind(self, v, o, cls):
        if v.op == 'func':
            fi = self.funcs[v.args[0]]
            return mk('bound', v, o)
        if v.op == 'static':
            return v.args[0]
        if v.op == 'classm':
            return mk('bound', v.args[0], cls)
        return v

    def setattr(self, o, name, v, st, node):
        if o.op == 'phi':
            o2 = simp(st.pc, o)
            if o2 is not o:
                return self.setattr(o2, name, v, st, node)
            self.branch(o.args[0], st, lambda q: self.setattr(o.args[1], name, v, q, node),
                        lambda q: self.setattr(o.args[2], name, v, q, node))
            return
        if o.op == 'obj':
            if o.args[1] == 'inst':
                ca = self.class_attr(self.cls_of(o), name, st)
                if ca is not None and ca.op == 'prop':
                    if len(ca.args) > 1:
                        self.call(mk('bound', ca.args[1], o), [v], [], st, node)
                        return
                    self.raise_exc('AttributeError', [const(name)], st, node)
                m = self.class_attr(self.cls_of(o), '__setattr__', st)
                if m is not None and m.op == 'func':
                    self.call(mk('bound', m, o), [const(name), v], [], st, node)
                    return
            meta = self.objs.get(o.args[0])
            if isinstance(meta, dict) and meta.get('caller'):
                self.event('mutate', [o], {}, st, node, how='setattr', key=const(name), value=v)
            elif o.args[0] <= self.owned and not self.module_phase:
                self.event('mutate', [o], {}, st, node, how='setattr', key=const(name), value=v)
            st.d[('a', o.args[0], name)] = v
            return
        if o.op == 'class':
            st.d[('a', 'C%d' % o.args[0], name)] = v
            if not self.module_phase:
                self.event('class_write', [o, const(name), v], {}, st, node)
            return
        if o.op == 'module':
            if not self.module_phase:
                self.event('global_write', [const(o.args[0]), const(name), v], {}, st, node)
            st.d[('v', 'm:' + o.args[0], name)] = v
            return
        if o.op == 'func':
            if not self.module_phase:
                self.event('class_write', [o, const(name), v], {}, st, node)
            st.d[('a', 'F%d' % o.args[0], name)] = v
            return
        self.event('setattr', [o, const(name), v], {}, st, node)

    owned = 0       # objects with smaller numbers existed before the operation analysed

    # --------------------------------------------------------------- calls
    def e_Call(self, e, st):
        f = self.ev(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.as_seq(self.ev(a.value, st), st, a)
                if s.op in ('seq', 'tuple'):
                    args.extend(s.args)
                elif s.op == 'phi' and all(x.op in ('seq', 'tuple') for x in s.args[1:]) and \
                        len(s.args[1].args) == len(s.args[2].args):
                    args.extend(phi(s.args[0], x, y) for x, y in zip(s.args[1].args, s.args[2].args))
                else:
                    args.append(mk('splat', s))
            else:
                args.append(self.ev(a, st))
        kw = []
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, st)
                kw.extend(self.kwitems(d, st, e))
            else:
                kw.append((k.arg, self.ev(k.value, st)))
        return self.call(f, args, kw, st, e)

    def kwitems(self, d, st, node):
        out = []
        if d.op == 'phi':
            d = simp(st.pc, d)
        if d.op == 'phi':
            a, b = self.kwitems(d.args[1], st, node), self.kwitems(d.args[2], st, node)
            if [k for k, _ in a] == [k for k, _ in b]:
                return [(k, phi(d.args[0], x, y)) for (k, x), (_, y) in zip(a, b)]
        for k, v in self.dict_items(d, st, node):
            if k.op == 'const':
                out.append((cval(k), v))
            else:
                out.append(('**', v))
        return out

    def call(self, f, args, kw, st, node):
        self.stats['calls'] += 1
        op = f.op
        if op == 'func':
            return self.call_func(f, args, kw, st, node)
        if op == 'bound':
            return self.call(f.args[0], [f.args[1]] + list(args), kw, st, node)
        if op == 'static':
            return self.call(f.args[0], args, kw, st, node)
        if op == 'class':
            return self.instantiate(f, args, kw, st, node)
        if op == 'ext':
            return self.ext.call_ext(self, f.args[0], args, kw, st, node)
        if op == 'method':
            return self.ext.call_method(self, f.args[0], f.args[1], args, kw, st, node)
        if op == 'mixin':
            return self.ext.call_mixin(self, f.args[0], f.args[1], args, kw, st, node)
        if op == 'depr':
            return self.call(f.args[0], args, kw, st, node)
        if op == 'partial':
            a = list(f.args[1].args)
            k = list(f.args[2])
            k = [(n, v) for n, v in k if n not in [x for x, _ in kw]]
            return self.call(f.args[0], a + list(args), k + list(kw), st, node)
        if op == 'ctxman':
            g = self.call(f.args[0], args, kw, st, node)
            if g.op == 'gen':
                self.gens[g.args[0]]['ctxman'] = True
            return g
        if op == 'obj' and f.args[1] == 'inst':
            m = self.find_method(f, '__call__', st)
            if m is not None:
                return self.call(mk('bound', m, f), args, kw, st, node)
        if op == 'phi':
            f2 = simp(st.pc, f)
            if f2 is not f:
                return self.call(f2, args, kw, st, node)
            return self.branch(f.args[0], st, lambda q: self.call(f.args[1], args, kw, q, node),
                               lambda q: self.call(f.args[2], args, kw, q, node))
        if op == 'tab' and any(v.op in ('obj', 'func', 'bound', 'class', 'ext') for _, v in f.args[1]):
            return self.call_tab(f, args, kw, st, node)
        if op == 'superext':
            return self.ext.call_superext(self, f.args[0], f.args[1], args, kw, st, node)
        if op == 'const':
            self.raise_exc('TypeError', [const('not callable')], st, node)
        if op == 'structclass':
            return mk('struct', cval(args[0]) if args else '?')
        if op == 'ntclass':
            fields = f.args[1]
            vals = list(args)
            d = dict(kw)
            for x in fields[len(vals):]:
                vals.append(d.get(x, NONE))
            return mk('nt', fields, mk('tuple', *vals, ty='tuple'), ty='tuple')
        return self.ext.call_opaque(self, f, args, kw, st, node)

    def call_tab(self, f, args, kw, st, node):
        """table-dispatched call: evaluate each entry under its key"""
        x, items = f.args
        items = [(k, v) for k, v in items if self.decide(eq(x, k), st) is not FALSE]

        def go(i, q):
            k, v = items[i]
            if i == len(items) - 1:
                return self.call(v, args, kw, q, node)
            return self.branch(eq(x, k), q, lambda r: self.call(v, args, kw, r, node), lambda r: go(i + 1, r))
        pc0, d0 = st.pc, st.d
        # fast path: pure entries collapse into a table of results
        vals = []
        pure = True
        for k, v in items:
            q = st.fork(eq(x, k))
            n0 = len(self.events)
            r0 = len(self.raises)
            try:
                r = self.call(v, args, kw, q, node)
            except Dead:
                pure = False
                break
            if len(self.raises) != r0 or any(q.d.get(kk) is not vv for kk, vv in d0.items()):
                pure = False
                break
            vals.append((k, r))
        if pure:
            t = tab(x, vals)
            if t is not None:
                return t
        del self.events[n0:]
        del self.raises[r0:]
        return go(0, st)

    def bind_args(self, fi, args, kw, st, node):
        a = fi.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        env = {}
        kw = list(kw)
        args = list(args)
        if any(x.op == 'splat' for x in args):
            # unknown positional tail: pass element terms
            out = []
            for x in args:
                if x.op == 'splat':
                    for i in range(max(0, len(names) - len(out))):
                        out.append(at(x.args[0], const(i)))
                else:
                    out.append(x)
            args = out
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = mk('tuple', *extra, ty='tuple')
        elif extra:
            self.raise_exc('TypeError', [const('too many positional arguments for %s' % fi.qual)], st, node)
        rest = []
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw:
            if k in names or k in konly:
                if k in env:
                    self.raise_exc('TypeError', [const('multiple values for %s' % k)], st, node)
                env[k] = v
            else:
                rest.append((k, v))
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(st, [(const(k), v) for k, v in rest])
        elif rest:
            self.raise_exc('TypeError', [const('unexpected keyword %s for %s' % (rest[0][0], fi.qual))], st, node)
        nd = len(fi.defaults)
        for i, n in enumerate(names):
            if n not in env:
                j = i - (len(names) - nd)
                if j >= 0:
                    env[n] = fi.defaults[j]
                else:
                    self.raise_exc('TypeError', [const('missing argument %s for %s' % (n, fi.qual))], st, node)
        for n, d in zip(konly, fi.kwdefaults):
            if n not in env:
                if d is None:
                    self.raise_exc('TypeError', [const('missing keyword %s' % n)], st, node)
                env[n] = d
        return env

    def call_func(self, f, args, kw, st, node):
        fi = self.funcs[f.args[0]]
        hook = self.hooks.get(fi.qual)
        if hook is not None and not self.module_phase:
            r = hook(self, fi, args, kw, st, node)
            if r is not None:
                return r
        if self.stack.count(fi.qual) >= 3 or len(self.stack) > 60:
            r = fresh('rec:' + fi.qual)
            self.event('recursion', list(args), dict(kw), st, node, res=r, callee=fi.qual)
            return r
        env = self.bind_args(fi, args, kw, st, node)
        self.stats['functions'].add(fi.qual)
        fid = self.new_id()
        fr = Frame(fid, fi, fi.mod, fi.closure)
        fr.locals = self.local_names(fi)
        self.frame_locals[fid] = fr.locals
        for k, v in env.items():
            st.d[('v', fid, k)] = v
        self.event_call(fi, env, st, node)
        if fi.is_gen:
            g = mk('gen', fid)
            self.gens[fid] = {'func': fi, 'frame': fr}
            return g
        save = self.frame
        self.frame = fr
        self.stack.append(fi.qual)
        self.frames_active.append(fr)
        alive = True
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.ev(fi.node.body, st)
                fr.returns.append((st.fork(), v))
            else:
                self.block(fi.node.body, st)
                fr.returns.append((st.fork(), NONE))
        except Dead:
            pass
        finally:
            self.frame = save
            self.stack.pop()
            self.frames_active.pop()
        if not fr.returns:
            raise Dead()
        q, v = self.join_many(fr.returns)
        d = q.d if len(fr.returns) == 1 else dict(q.d)
        if not fr.captured:
            d = dict((k, x) for k, x in d.items() if not (k[0] == 'v' and k[1] == fid))
        st.replace(State(d, q.pc))
        if v.ty == 'bool' and v.op != 'const':
            v = self.decide(v, st)
        return v

    hooks = {}

    def event_call(self, fi, env, st, node):
        if fi.qual in self.trace_calls:
            self.event('call:' + fi.qual, [], env, st, node)

    trace_calls = set()

    _locals_cache = {}

    def local_names(self, fi):
        c = self._locals_cache.get(fi.node)
        if c is not None:
            return c
        names = set()
        decl = set()
        if not isinstance(fi.node, ast.Lambda):
            stack = list(fi.node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
                    continue
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    decl.update(n.names)
                if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
        a = fi.node.args
        for x in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', []):
            names.add(x.arg)
        names -= decl
        self._locals_cache[fi.node] = names
        return names

    def instantiate(self, ct, args, kw, st, node):
        mro = self.mro(ct)
        ci = self.classes[ct.args[0]]
        ext = [c for c in mro if c.op == 'ext']
        isexc = any(c.op == 'ext' and self.is_exc_class(c) for c in mro)
        init = self.class_attr(ct, '__init__', st)
        if isexc and init is None:
            return mk('excv', ct, tuple(args), ty='obj')
        if any(c.op == 'ntclass' for c in ci.bases):
            nt = [c for c in ci.bases if c.op == 'ntclass'][0]
            return self.call(nt, args, kw, st, node)
        o = self.alloc('inst', {'cls': ct, 'site': (self.frame.mod, getattr(node, 'lineno', 0))})
        if isexc:
            st.d[('a', o.args[0], 'args')] = mk('tuple', *args, ty='tuple')
        if init is not None:
            self.call(mk('bound', init, o), args, kw, st, node)
        elif ci.fields is not None:
            self.init_fields(ci, o, args, kw, st, node)
        elif args or kw:
            if not any(c.op == 'ext' and c.args[0] not in ('builtins.object',) for c in mro):
                self.raise_exc('TypeError', [const('%s() takes no arguments' % ci.name)], st, node)
            self.event('ext_init', [o] + list(args), dict(kw), st, node)
        return o

    def init_fields(self, ci, o, args, kw, st, node):
        d = dict(kw)
        vals = list(args)
        for i, (n, dv) in enumerate(ci.fields):
            if i < len(vals):
                v = vals[i]
            elif n in d:
                v = d[n]
            elif dv is not None:
                v = dv
            else:
                self.raise_exc('TypeError', [const('missing %s' % n)], st, node)
            st.d[('a', o.args[0], n)] = v

    def is_exc_class(self, c):
        if c.op == 'ext' and not c.args[0].startswith('builtins.') and c.args[0] not in self.ext.EXC_BASES and \
                not c.args[0].endswith(('Error', 'Exception', 'Warning')):
            return False
        return 'builtins.BaseException' in self.exc_mro(c)

    def call_method(self, o, name, args, st, node, kw=()):
        return self.call(self.getattr(o, name, st, node), list(args), list(kw), st, node)

    def e_Lambda(self, e, st):
        return self.make_func(e, st, '<lambda>')

    # ------------------------------------------------------- comprehensions
    def comp_frame(self):
        fr = self.frame
        fr.captured = True
        f = Frame(self.new_id(), fr.func, fr.mod, fr.closure + ((fr.fid,) if not fr.fid_is_module() else ()))
        f.returns = []
        return f

    def comp_loops(self, gens, i, st, leaf, first=None):
        if i == len(gens):
            leaf(st)
            return
        g = gens[i]
        it = first if (i == 0 and first is not None) else self.ev(g.iter, st)
        fr = self.frame

        def body(v, q):
            save = self.frame
            self.frame = fr
            try:
                self.assign(g.target, v, q)

                def conds(j, r):
                    if j == len(g.ifs):
                        self.comp_loops(gens, i + 1, r, leaf)
                        return
                    self.branch(self.truth(self.ev(g.ifs[j], r), r, g.ifs[j]), r,
                                lambda s: conds(j + 1, s), lambda s: None)
                conds(0, q)
            finally:
                self.frame = save
            return NONE
        self.iterate(it, body, st, g.iter)

    def run_comp(self, e, st, leaf):
        first = self.ev(e.generators[0].iter, st)
        f = self.comp_frame()
        save = self.frame
        self.frame = f
        self.frames_active.append(f)
        try:
            self.comp_loops(e.generators, 0, st, leaf, first)
        finally:
            self.frame = save
            self.frames_active.pop()

    def e_ListComp(self, e, st):
        o = self.new_list(st, mk('seq', ty='seq'))
        sl = ('c', o.args[0])

        def leaf(q):
            v = self.ev(e.elt, q)
            q.d[sl] = cat(q.d[sl], mk('seq', v, ty='seq'))
        self.run_comp(e, st, leaf)
        return o

    def e_SetComp(self, e, st):
        o = self.e_ListComp(e, st)
        return self.new_set(st, self.content(st, o))

    def e_DictComp(self, e, st):
        o = self.new_dict(st, [])
        sl = ('c', o.args[0])

        def leaf(q):
            k = self.ev(e.key, q)
            v = self.ev(e.value, q)
            c = q.d[sl]
            if c.op == 'dict':
                q.d[sl] = mk('dict', *self.dict_merge(list(c.args), [(k, v)]), ty='dictc')
            else:
                q.d[sl] = mk('dictupd', c, k, v, ty='dictc')
        self.run_comp(e, st, leaf)
        return o

    def e_GeneratorExp(self, e, st):
        first = self.ev(e.generators[0].iter, st)
        f = self.comp_frame()
        self.gens[f.fid] = {'comp': e, 'frame': f, 'first': first}
        return mk('gen', f.fid)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st)
                spec = self.ev(v.format_spec, st) if v.format_spec is not None else const('')
                if v.conversion == 114:
                    x = self.ext.call_ext(self, 'builtins.repr', [x], [], st, e)
                elif v.conversion == 115:
                    x = self.ext.call_ext(self, 'builtins.str', [x], [], st, e)
                parts.append(self.ext.format_value(self, x, spec, st, e))
        if all(is_const(p) for p in parts):
            return const(''.join(str(cval(p)) for p in parts))
        if len(parts) == 1 and parts[0].ty == 'str':
            return parts[0]
        return cat(*[p if p.ty == 'str' else mk('fmt', p, ty='str') for p in parts])

    def e_FormattedValue(self, e, st):
        return self.e_JoinedStr(ast.JoinedStr([e]), st)

    def e_Starred(self, e, st):
        return mk('splat', self.as_seq(self.ev(e.value, st), st, e))

    # ----------------------------------------------------------- sequences
    def as_seq(self, x, st, node):
        """immutable sequence term with the elements of iterable x"""
        op = x.op
        if op in ('seq', 'tuple', 'cat', 'rep', 'smap', 'upd', 'digits', 'fill') and x.ty in ('seq', 'tuple', 'str', 'bytes'):
            return x
        if op == 'obj' and x.args[1] in ('list', 'set'):
            return self.content(st, x)
        if op == 'obj' and x.args[1] == 'dict':
            c = self.content(st, x)
            if c.op == 'dict' and not any(k.op == 'anykey' for k, _ in c.args):
                return mk('seq', *[k for k, _ in c.args], ty='seq')
            return mk('keys', c, ty='seq')
        if op == 'const' and x.ty in ('str', 'bytes'):
            return mk('seq', *[const(y) for y in cval(x)], ty='seq')
        if op == 'const':
            self.raise_exc('TypeError', [const('not iterable')], st, node)
        if op == 'range':
            n = self.range_len(x)
            if is_cint(n):
                return mk('seq', *[add(x.args[0], mul(x.args[2], const(i))) for i in range(max(0, cval(n)))], ty='seq') \
                    if cval(n) <= 512 else mk('rangeseq', *x.args, ty='seq')
            j = mk('sym', 'idxb#%d' % self.new_id(), ty='int')
            return smap(j, add(x.args[0], mul(x.args[2], j)), n)
        if op == 'it_repeat' and len(x.args) > 1:
            return self.rep_clamped(mk('seq', x.args[0], ty='seq'), x.args[1], st)
        if op in ('gen', 'it_map', 'it_filter', 'it_enum', 'it_zip', 'it_chain') or \
                (op == 'obj' and x.args[1] == 'inst') or op == 'it_rev':
            if op == 'it_rev':
                s = self.as_seq(x.args[0], st, node)
                if s.op in ('seq', 'tuple'):
                    return mk('seq', *reversed(s.args), ty='seq')
                return mk('reversed', s, ty='seq')
            o = self.new_list(st, mk('seq', ty='seq'))
            sl = ('c', o.args[0])

            def cons(v, q):
                q.d[sl] = cat(q.d[sl], mk('seq', v, ty='seq'))
                return NONE
            self.iterate(x, cons, st, node)
            return st.d[sl]
        if op == 'phi':
            a, b = x.args[1], x.args[2]
            return self.branch(x.args[0], st, lambda q: self.as_seq(a, q, node), lambda q: self.as_seq(b, q, node))
        if op == 'nt':
            return x.args[1]
        if op == 'mview':
            return self.as_seq(x.args[0], st, node)
        return x


def simp_at(st, t):
    """drop the gates the path condition already decides"""
    if t.op == 'phi' and st.pc:
        return simp(st.pc, t)
    return t


def _has_lv(t, lid=None):
    return any(x.op == 'lv' and (lid is None or x.args[0] == lid) for x in atoms(t))


def _varies(t, uid0, idx):
    """does t mention an unknown that arose inside the loop (a new one in every iteration)?"""
    return any(x.op == 'sym' and x.uid > uid0 and x is not idx and '#' in x.args[0]
               and not x.args[0].startswith('idxb#') for x in atoms(t))


def tm_struct_size(fmt):
    import struct
    return struct.calcsize(fmt)


def _fid_is_module(self):
    return isinstance(self.fid, str) and self.fid.startswith('m:')


Frame.fid_is_module = _fid_is_module

# loop variables depend on the iteration index
_old_children = tm.children


def _children(t):
    if t.op == 'lv':
        return (t.args[2],)
    return _old_children(t)


_old_rebuild = tm.rebuild


def _rebuild(t, f):
    if t.op == 'lv':
        i = f(t.args[2])
        return t if i is t.args[2] else mk('lv', t.args[0], t.args[1], i, ty=t.ty)
    return _old_rebuild(t, f)


tm.children = _children
tm.rebuild = _rebuild
