"""Which external functions the source of the package refers to.

Names are resolved through the import statements, so that an alias is seen as
what it stands for; names bound by the program itself are not references to
builtins. Only modules that an entry module imports (transitively) count."""
import ast
import builtins
import symtable     # noqa  (scopes are computed below; kept for the names of the scope kinds)

from .terms import *   # noqa

ENTRIES = ('__init__', 'cli', 'append', 'file_io', 'numpy_io', 'memory_io')
MOVES = {'six.moves.cPickle': 'pickle', 'six.moves.builtins': 'builtins', 'six.exec_': 'builtins.exec',
         'six.moves.reload_module': 'importlib.reload', 'six.moves.copyreg': 'copyreg', '__builtin__': 'builtins',
         'cPickle': 'pickle', '_pickle': 'pickle', 'posix': 'os', 'nt': 'os', 'numpy.core': 'numpy'}
FLOW = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp,
        ast.GeneratorExp)


class Ref(object):
    __slots__ = ('name', 'mod', 'line', 'node')

    def __init__(self, name, mod, node):
        self.name, self.mod, self.line, self.node = name, mod, getattr(node, 'lineno', 0), node

    @property
    def site(self):
        return 'bloscpack/%s.py:%d' % (self.mod, self.line)


def reachable(trees):
    todo, seen = [e for e in ENTRIES if e in trees], set()
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        for n in ast.walk(trees[m]):
            if isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level == 0:
                    if not base.startswith('bloscpack'):
                        continue
                    base = base[len('bloscpack'):].lstrip('.')
                if base in trees:
                    todo.append(base)
                for a in n.names:
                    q = (base + '.' if base else '') + a.name
                    if q in trees:
                        todo.append(q)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.startswith('bloscpack.') and a.name[10:] in trees:
                        todo.append(a.name[10:])
    return sorted(seen)


class Scope(object):
    def __init__(self, parent, kind):
        self.parent, self.kind = parent, kind
        self.names = {}         # name -> external dotted name, or None if bound to something else
        self.outer = set()

    def bind(self, name, what=None):
        if name in self.outer:
            s = self
            while s.parent is not None:
                s = s.parent
            s.names.setdefault(name, what)
            return
        if self.names.get(name, what) != what:
            # bound twice: an external meaning, if any, stays possible
            what = self.names[name] or what
        self.names[name] = what

    def look(self, name):
        s, first = self, True
        while s is not None:
            if name in s.names and name not in s.outer and (first or s.kind != 'class'):
                return True, s.names[name]
            first = False
            s = s.parent
        return False, None


def canon(n):
    for k, v in MOVES.items():
        if n == k or n.startswith(k + '.'):
            return v + n[len(k):]
    return n


class Scanner(ast.NodeVisitor):
    def __init__(self, mod, tree):
        self.mod = mod
        self.refs = []
        self.scope = Scope(None, 'module')
        self.fill(tree.body, self.scope)
        for s in tree.body:
            self.visit(s)

    # bindings of one scope
    def fill(self, body, sc):
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Global):
                sc.outer.update(n.names)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                sc.bind(n.name)
                todo.extend(n.decorator_list)
                continue
            if isinstance(n, (ast.Lambda,)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        sc.bind(a.asname, canon(a.name))
                    else:
                        sc.bind(a.name.split('.')[0], a.name.split('.')[0])
                continue
            if isinstance(n, ast.ImportFrom):
                if n.level == 0 and not (n.module or '').startswith('bloscpack'):
                    for a in n.names:
                        sc.bind(a.asname or a.name, canon('%s.%s' % (n.module, a.name)))
                else:
                    for a in n.names:
                        sc.bind(a.asname or a.name)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                sc.bind(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                sc.bind(n.name)
            # x = os.remove keeps the meaning
            todo.extend(ast.iter_child_nodes(n))

    def dotted(self, n):
        """external dotted name an expression stands for"""
        if isinstance(n, ast.Name):
            bound, what = self.scope.look(n.id)
            if bound:
                return what
            return 'builtins.' + n.id if hasattr(builtins, n.id) or n.id in ('unicode', 'reload', 'execfile') else None
        if isinstance(n, ast.Attribute):
            b = self.dotted(n.value)
            return canon(b + '.' + n.attr) if b else None
        if isinstance(n, ast.Call):
            f = self.dotted(n.func)
            if f == 'builtins.getattr' and len(n.args) >= 2:
                b = self.dotted(n.args[0])
                if b and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                    return canon(b + '.' + n.args[1].value)
        return None

    def ref(self, name, node):
        self.refs.append(Ref(name, self.mod, node))

    def visit_Import(self, n):
        for a in n.names:
            self.ref('import ' + canon(a.name), n)

    def visit_ImportFrom(self, n):
        if n.level == 0 and not (n.module or '').startswith('bloscpack'):
            for a in n.names:
                self.ref('import ' + canon('%s.%s' % (n.module, a.name)), n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            d = self.dotted(n)
            if d:
                self.ref(d, n)

    def visit_Attribute(self, n):
        d = self.dotted(n)
        if d and not (isinstance(n.ctx, ast.Store)):
            self.ref(d, n)
            return
        self.ref('.' + n.attr, n)
        self.visit(n.value)

    def visit_Call(self, n):
        d = self.dotted(n)
        if d:
            self.ref(d, n)
        self.generic_visit(n)

    def inner(self, n, kind, body, names=()):
        sc = Scope(self.scope, kind)
        for x in names:
            sc.bind(x)
        self.fill(body, sc)
        save, self.scope = self.scope, sc
        for b in body:
            self.visit(b)
        self.scope = save

    def func(self, n):
        a = n.args
        for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None] + getattr(n, 'decorator_list', []):
            self.visit(d)
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        self.inner(n, 'func', n.body if isinstance(n.body, list) else [n.body], names)

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = func

    def visit_ClassDef(self, n):
        for d in n.bases + [k.value for k in n.keywords] + n.decorator_list:
            self.visit(d)
        self.inner(n, 'class', n.body)

    def comp(self, n):
        sc = Scope(self.scope, 'comp')
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    sc.bind(x.id)
        save, self.scope = self.scope, sc
        self.generic_visit(n)
        self.scope = save

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp


def scan(C):
    """(modules, references) of everything reachable from the entry modules"""
    if 'scan' not in C.cache:
        mods = reachable(C.I.trees)
        refs = []
        for m in mods:
            refs += Scanner(m, C.I.trees[m]).refs
        C.cache['scan'] = (mods, refs)
    return C.cache['scan']


def matches(name, pats):
    """name is one of the dotted names, or a member of one that ends in '.*'"""
    if name.startswith('import '):
        name = name[7:]
    parts = name.split('.')
    return any(matches1('.'.join([parts[i].lstrip('_') if i else parts[i]] + parts[i + 1:]), pats)
               for i in range(len(parts)))


def matches1(name, pats):
    for p in pats:
        if p.endswith('.*'):
            if name == p[:-2] or name.startswith(p[:-1]):
                return True
        elif name == p or name.startswith(p + '.'):
            return True
    return False


# ------------------------------------------------------------- sets
ORDERLESS = ('sorted', 'set', 'frozenset', 'any', 'all', 'sum', 'min', 'max', 'len', 'bool')
SEQUENCING = ('list', 'tuple', 'enumerate', 'zip', 'iter', 'map', 'filter', 'next', 'dict', 'reversed')


def set_order(C):
    """expressions whose value depends on the iteration order of a set"""
    out = []
    for m in scan(C)[0]:
        tree = C.I.trees[m]
        modsets = names_of_sets(tree.body, {})
        for f in [tree] + [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]:
            own = modsets if f is tree else names_of_sets(f.body, modsets)
            parents = {}
            for n in local(f):
                for c in ast.iter_child_nodes(n):
                    parents[c] = n
            for n in local(f):
                e = None
                if isinstance(n, ast.For) and is_set(n.iter, own) and effectful(n.body):
                    e = n
                elif isinstance(n, (ast.ListComp, ast.GeneratorExp)) and is_set(n.generators[0].iter, own):
                    p = parents.get(n)
                    if not (isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ORDERLESS):
                        e = n
                elif isinstance(n, ast.Call) and any(is_set(a, own) for a in n.args):
                    if isinstance(n.func, ast.Name) and n.func.id in SEQUENCING or \
                            isinstance(n.func, ast.Attribute) and n.func.attr == 'join':
                        p = parents.get(n)
                        if not (isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ORDERLESS):
                            e = n
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and \
                        not n.args and is_set(n.func.value, own):
                    e = n
                elif isinstance(n, ast.Starred) and is_set(n.value, own):
                    e = n
                if e is not None:
                    out.append(Ref('iteration order of a set', m, e))
    return out


def local(f):
    """nodes of a function without those of the functions in it"""
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def names_of_sets(body, outer):
    vals = {}
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    vals.setdefault(t.id, []).append(n.value)
                else:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            vals.setdefault(x.id, []).append(None)
        elif isinstance(n, (ast.For, ast.With, ast.NamedExpr)):
            for x in ast.walk(n.target if hasattr(n, 'target') else ast.Tuple([i.optional_vars for i in n.items
                                                                              if i.optional_vars], ast.Store())):
                if isinstance(x, ast.Name):
                    vals.setdefault(x.id, []).append(None)
        todo.extend(ast.iter_child_nodes(n))
    res = dict(outer)
    for _ in range(3):
        for k, vs in vals.items():
            res[k] = all(v is not None and is_set(v, res) for v in vs)
    return res


def is_set(e, env):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Name):
        return bool(env.get(e.id))
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset'):
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('difference', 'union', 'intersection', 'copy',
                                                                'symmetric_difference'):
            return is_set(e.func.value, env)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
        return is_set(e.left, env) or is_set(e.right, env) and not isinstance(e.left, ast.Constant)
    return False


def effectful(body):
    """a loop body that does more than checking and raising"""
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.AugAssign, ast.Break, ast.Return)):
                return True
            if isinstance(n, ast.Assign) and not all(isinstance(t, ast.Name) for t in n.targets):
                return True
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                f = n.value.func
                if not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'log'):
                    return True
    return False
