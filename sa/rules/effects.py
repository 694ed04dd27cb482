"""Rules over effects: what the package refers to, which files it opens, what it changes."""
from ..contexts import *   # noqa
from ..spec import *   # noqa
from ..scan import scan, set_order, matches

# ------------------------------------------------------------------ C21
EXECUTES = [
    'builtins.eval', 'builtins.exec', 'builtins.execfile', 'builtins.compile', 'builtins.__import__', 'builtins.globals',
    'builtins.__builtins__', 'builtins.breakpoint', 'builtins.input.__self__',
    'importlib.*', 'imp.*', 'runpy.*', 'pkgutil.*', 'zipimport.*', 'code.*', 'codeop.*', 'pickle.*', 'pickletools.*',
    'marshal.*', 'shelve.*', 'copyreg.*', 'dill.*', 'cloudpickle.*', 'joblib.*', 'jsonpickle.*', 'yaml.*', 'dbm.*',
    'subprocess.*', 'multiprocessing.*', 'pty.*', 'commands.*', 'ctypes.*', 'cffi.*', 'webbrowser.*', 'popen2.*',
    'os.system', 'os.popen', 'os.popen2', 'os.popen3', 'os.fork', 'os.forkpty', 'os.startfile', 'os.posix_spawn',
    'os.posix_spawnp', 'os.execl', 'os.execle', 'os.execlp', 'os.execlpe', 'os.execv', 'os.execve', 'os.execvp',
    'os.execvpe', 'os.spawnl', 'os.spawnle', 'os.spawnlp', 'os.spawnlpe', 'os.spawnv', 'os.spawnve', 'os.spawnvp',
    'os.spawnvpe', 'asyncio.create_subprocess_exec', 'asyncio.create_subprocess_shell', 'sys.modules', 'sys.settrace',
    'types.FunctionType', 'types.CodeType', 'numpy.load', 'numpy.loads', 'numpy.save', 'numpy.savez',
    'numpy.savez_compressed', 'numpy.lib.format.*', 'numpy.lib.npyio.*', 'numpy.f2py.*', 'numpy.ctypeslib.*',
    'numpy.frompyfunc', 'blosc.pack_array', 'blosc.unpack_array', 'blosc.toplevel.*', 'platform.popen', 'site.*',
    'logging.config.*', 'socketserver.*', 'timeit.*', 'cProfile.*', 'profile.*', 'doctest.*',
]
# a function chosen by name out of one of these modules can be any of the above
ANY_FUNCTION = ('os', 'sys', 'builtins', 'numpy', 'blosc', 'types', 'importlib', 'subprocess', 'pickle')
REFLECTIVE = ('.__globals__', '.__builtins__', '.__subclasses__', '.__code__', '.__reduce__', '.__reduce_ex__',
              '.__setstate__', '.__import__', '.__loader__', '.__spec__')
ND_PICKLES = ('dump', 'dumps', '__reduce__', '__reduce_ex__', '__setstate__')


def all_contexts(C, main=True):
    out = [pack_ctx(C, k, True, k in ('file', 'bytes_file', 'bytes')) for k in PACKS]
    out += [unpack_ctx(C, k) for k in UNPACKS] + [mem_unpack_ctx(C)]
    out += [append_ctx(C, 'inst'), append_ctx(C, 'inst', True), rewrite_ctx(C), rewrite_ctx(C, True)]
    if main:
        out += [main_ctx(C, s) for s in SUBS]
    return out


SUBS = ('compress', 'decompress', 'append', 'info', None)


def c21(C, R, tier):
    mods, refs = scan(C)
    for m in mods:
        mine = [x for x in refs if x.mod == m]
        bad = [x for x in mine if matches(x.name, EXECUTES) or x.name in REFLECTIVE]
        R.ok(not bad, '%s.py refers to nothing that executes, unpickles or imports what it is given' % m,
             ', '.join('%s (%s)' % (x.site, x.name) for x in bad[:5]),
             'references: %s' % sorted(set(x.name for x in bad)))
        for x in mine:
            if x.name == 'builtins.getattr' and hasattr(x.node, 'id'):
                pass
        dyn = [(n, b) for n, b in dynamic_getattr(C, m) if b.split('.')[0] in ANY_FUNCTION]
        R.ok(not dyn, '%s.py looks up no function by a name it computes' % m,
             ', '.join('bloscpack/%s.py:%d' % (m, n.lineno) for n, b in dyn), str([b for _, b in dyn]))
    for r in all_contexts(C):
        R.context(r)
        bad = [e for e in r.events if matches(e.kind, EXECUTES)]
        R.ok(not bad, '%s: executes nothing it reads' % r.name, site_of(bad), str([e.kind for e in bad[:5]]), r)
        dyn = [e for e in r.events if e.kind == 'dynattr' and e.args[0].op in ('ext', 'module')]
        R.ok(not dyn, '%s: no function is selected by file content' % r.name, site_of(dyn),
             str([(show(e.args[0]), show(e.args[1])[:60]) for e in dyn[:3]]), r)
        nd = [e for e in r.events if e.kind in ('nd.method', 'opaque_method') and len(e.args) > 1 and
              is_const(e.args[1]) and cval(e.args[1]) in ND_PICKLES]
        R.ok(not nd, '%s: nothing is pickled' % r.name, site_of(nd), '', r)
        obj = [e for e in r.events if e.kind == 'opaque_call' and from_file(e.args[0])]
        R.ok(not obj, '%s: nothing read from a file is called' % r.name, site_of(obj),
             str([show(e.args[0])[:80] for e in obj[:3]]), r)


def from_file(t):
    return any(a.op in ('rd', 'fval') for a in atoms(t))


def dynamic_getattr(C, m):
    import ast
    from ..scan import Scanner
    s = Scanner(m, C.I.trees[m])
    out = []

    class V(Scanner):
        def visit_Call(self, n):
            f = self.dotted(n.func)
            if f == 'builtins.getattr' and len(n.args) >= 2 and not isinstance(n.args[1], ast.Constant):
                b = self.dotted(n.args[0])
                if b:
                    out.append((n, b))
            if f == 'builtins.vars' and n.args:
                b = self.dotted(n.args[0])
                if b:
                    out.append((n, b))
            Scanner.visit_Call(self, n)

        def visit_Attribute(self, n):
            if n.attr == '__dict__':
                b = self.dotted(n.value)
                if b:
                    out.append((n, b))
            Scanner.visit_Attribute(self, n)
    V(m, C.I.trees[m])
    return out


# ------------------------------------------------------------------ C22
CHANGES_FILES = [
    'os.remove', 'os.unlink', 'os.rename', 'os.renames', 'os.replace', 'os.rmdir', 'os.removedirs', 'os.mkdir',
    'os.makedirs', 'os.truncate', 'os.ftruncate', 'os.link', 'os.symlink', 'os.mkfifo', 'os.mknod', 'os.open', 'os.fdopen',
    'os.creat', 'os.chmod', 'os.fchmod', 'os.chown', 'os.utime', 'os.write', 'os.pwrite', 'os.writev', 'os.sendfile',
    'os.copy_file_range', 'os.tmpfile', 'os.posix_fallocate', 'os.chdir', 'os.setxattr', 'os.removexattr',
    'shutil.move', 'shutil.copy', 'shutil.copy2', 'shutil.copyfile', 'shutil.copytree', 'shutil.rmtree', 'shutil.copymode',
    'shutil.copystat', 'shutil.chown', 'shutil.make_archive', 'shutil.unpack_archive', 'tempfile.*', 'mmap.*', 'io.FileIO',
    '_io.FileIO', 'io.open_code', 'gzip.*', 'bz2.*', 'lzma.*', 'zipfile.*', 'tarfile.*', 'sqlite3.*', 'fileinput.*',
    'numpy.save', 'numpy.savez', 'numpy.savez_compressed', 'numpy.savetxt', 'numpy.memmap', 'numpy.lib.format.open_memmap',
    'builtins.file', 'socket.*', 'urllib.*', 'http.*', 'ftplib.*', 'fcntl.*', 'blosc.store_at', 'logging.FileHandler',
]
FILE_METHODS = ('.tofile', '.unlink', '.write_bytes', '.write_text', '.touch', '.symlink_to', '.hardlink_to', '.rmdir')
SAME_PATH = ('os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'os.fspath', 'os.path.expanduser', 'builtins.str',
             'os.fsencode', 'os.fsdecode')


def path_root(t):
    while t is not None and t.op == 'call' and t.args[0] in SAME_PATH and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def alternatives(t, F=()):
    """the values a term can have under facts, without the decisions between them"""
    if t.op == 'phi':
        out = []
        for c, x in ((t.args[0], t.args[1]), (not_(t.args[0]), t.args[2])):
            if not contradictory(list(F) + [c]):
                out += alternatives(x, tuple(F) + (c,))
        return out
    return [t]


def opens(r):
    return [e for e in r.events if e.kind == 'open']


def opaque_files(r):
    """files reached in a way the model has no idea of"""
    for e in r.events:
        if e.kind.startswith(('pathlib.', 'contextlib.ExitStack', 'os.fdopen')) and not r.unmodelled:
            r.unmodelled.append((e.site, e.kind))
    return r


def mode_of(e):
    ms = [cval(m) if is_const(m) else None for m in alternatives(e.arg(1, 'mode') or const('r'), e.pc)]
    return ms


READS = (frozenset('rb'),)
WRITES = (frozenset('wb'), frozenset('w+b'), frozenset('xb'), frozenset('x+b'))
UPDATES = (frozenset('r+b'),)


def roles(C, r):
    """path term -> allowed modes, and which of them may be written"""
    k = r.kind if hasattr(r, 'kind') else 'append'
    if r.name.startswith('pack:'):
        return {INF: READS} if k == 'file' else {}, {OUTF: WRITES} if k in ('file', 'bytes_file', 'nd_file') else {}
    if r.name.startswith('unpack:'):
        return ({INF: READS} if k in ('file', 'bytes_file', 'nd_file') else {}), {OUTF: WRITES} if k == 'file' else {}
    if r.name.startswith(('append', 'rewrite')):
        return {NEW: READS, ORIG: READS}, {ORIG: UPDATES}
    s = r.sub
    a = lambda n: arg(n, C, s)
    TEXT = READS + (frozenset('r'), frozenset('rt'))
    if s == 'compress':
        return {a('in_file'): READS, a('metadata'): TEXT}, {'out': WRITES}
    if s == 'decompress':
        return {a('in_file'): READS}, {'out': WRITES}
    if s == 'append':
        return {a('new_file'): READS, a('original_file'): READS, a('metadata'): TEXT}, {a('original_file'): UPDATES}
    if s == 'info':
        return {a('file_'): READS}, {}
    return {}, {}


def output_names(C, s, F):
    """the names the command line derives for the output"""
    i, o = arg('in_file', C, s), arg('out_file', C, s)
    res = [o]
    if s == 'compress':
        res.append(cat(i, const('.blp')))
    else:
        res.append(slice_(i, ZERO, sub(length(i), const(4))))
        res.append(mk('slice', i, ZERO, const(-4), ty='str'))
    return res


def is_output(C, s, p, F):
    if any(same(list(F), p, q) or p is q for q in output_names(C, s, F)):
        return True
    i = arg('in_file', C, s)
    return p.op == 'call' and contains(p, i) and s == 'decompress'


def c22(C, R, tier):
    mods, refs = scan(C)
    for m in mods:
        bad = [x for x in refs if x.mod == m and (matches(x.name, CHANGES_FILES) or x.name in FILE_METHODS)]
        R.ok(not bad, '%s.py refers to nothing that removes, renames or writes files past open()' % m,
             ', '.join('%s (%s)' % (x.site, x.name) for x in bad[:5]), '')
    for r in all_contexts(C):
        R.context(r)
        opaque_files(r)
        reads, writes = roles(C, r)
        writable = {}
        for e in opens(r):
            given = r.name.startswith(('append_fp', 'rewrite')) and e.func == '?' or e.line == 0
            for p in alternatives(e.arg(0, 'file'), e.pc):
                p = path_root(p)
                for m in mode_of(e):
                    if m is None:
                        R.undecided.append(('%s: mode of a file' % r.name, e.site, show(e.arg(1, 'mode'))[:80]))
                        continue
                    ms = frozenset(m)
                    ok = p in reads and ms in reads[p] or p in writes and ms in writes[p] or \
                        'out' in writes and ms in writes['out'] and is_output(C, r.sub, p, e.pc)
                    R.ok(ok, '%s: only the named files are opened, in the mode of their role' % r.name, e.site,
                         '%s opened with mode %r' % (show(p)[:100], m), r)
                    writable.setdefault(e.res, True)
                    if ms in READS or ms in (frozenset('r'), frozenset('rt')):
                        writable[e.res] = False
        for e in r.events:
            if e.kind in ('write', 'truncate') and e.args[0].op == 'obj':
                w = writable.get(e.args[0])
                meta = C.I.objs.get(e.args[0].args[0]) or {}
                if meta.get('name') == 'mem':
                    w = meta.get('init') is EMPTYB or w
                R.ok(w is not False, '%s: nothing is written to an input' % r.name, e.site, show(e.args[0])[:80], r)
        bad = [e for e in r.events if matches(e.kind, CHANGES_FILES) or e.kind == 'file.truncate']
        R.ok(not bad, '%s: no file is removed, renamed or created past open()' % r.name, site_of(bad),
             str([e.kind for e in bad[:4]]), r)


# ------------------------------------------------------------------ C24
CALLS_OUT = ('read', 'write', 'seek', 'getsize', 'json.loads', 'json.dumps', 'ast.literal_eval', 'struct.unpack',
             'struct.pack', 'zlib.decompress', 'zlib.compress', 'blosc.decompress', 'blosc.decompress_ptr',
             'blosc.compress', 'blosc.compress_ptr', 'decode', 'numpy.dtype', 'numpy.empty', 'subscript', 'opaque_call',
             'opaque_method', 'open', 'conv:int', 'conv:float', 'conv:inf', 'sys.exit', 'truncate', 'readinto', 'raise')


def given_files(r):
    """file objects the caller handed in"""
    return [e.res for e in opens(r) if e.line == 0]


def c24(C, R, tier):
    cs = all_contexts(C)
    if tier == 'thorough':
        cs += [pack_ctx(C, k, False, False) for k in ('file', 'bytes_file', 'nd_file')]
    for r in cs:
        R.context(r)
        opaque_files(r)
        given = given_files(r)
        for e in opens(r):
            o = e.res
            if o in given:
                cl = [x for x in r.events if x.kind == 'close' and x.args[0] is o]
                R.ok(not cl, '%s: a file object of the caller is left open' % r.name, site_of(cl), '', r)
                continue
            sl = ('f', o.args[0], 'closed')
            if r.st is not None and not contradictory(list(r.st.pc) + [opened_here(e, r)]):
                v = r.st.d.get(sl)
                R.ok(v is not None and closed(list(r.st.pc), v, e), '%s: the file is closed at the end' % r.name, e.site,
                     'closed: %s' % (show(v)[:120] if v is not None else 'not decided'), r)
            for q, x, ev in r.raises:
                v = q.d.get(sl)
                if v is None or v is NONE:
                    continue        # not opened on this path
                R.ok(closed(list(q.pc), v, e), '%s: the file is closed when %s is raised' % (r.name, exc_label(C, x)),
                     '%s, %s' % (e.site, ev.site), 'closed: %s' % show(v)[:120], r)
            closes = [x for x in r.events if x.kind == 'close' and x.args[0] is o]
            tokens = set(t for x in closes for t in x.x.get('by', ()))
            for x in r.events:
                if x.kind in CALLS_OUT and o in x.x.get('open', ()) and x is not e and x.seq > e.seq:
                    if x.kind == 'raise' and not x.x.get('caught') and False:
                        continue
                    R.ok(any(t in tokens for t in x.x['guards']) or in_leaving(x, closes),
                         '%s: the file is closed if an operation on the way fails' % r.name, '%s, %s' % (e.site, x.site),
                         'no with block or finally that closes it is active', r)
        uses = [x for x in r.events if x.kind == 'use_closed' and not contradictory(list(x.pc) + [x.x['closed']])]
        R.ok(not uses, '%s: no file is used after it was closed' % r.name, site_of(uses), '', r)


def in_leaving(x, closes):
    return False


def opened_here(e, r):
    return and_(*e.pc) if e.pc else TRUE


def closed(F, v, e):
    if v is TRUE:
        return True
    return holds(F, v) or holds(F + list(e.pc), v)


def exc_label(C, x):
    try:
        return C.I.class_name(C.I.exc_class(x)).split('.')[-1]
    except Exception:
        return 'an exception'


# ------------------------------------------------------------------ C28
NONDETERMINISTIC = [
    'time.*', 'datetime.*', 'random.*', 'secrets.*', 'uuid.*', 'os.urandom', 'os.getrandom', 'os.environ', 'os.environb',
    'os.getenv', 'os.getpid', 'os.getppid', 'os.getlogin', 'os.getcwd', 'os.times', 'os.cpu_count', 'os.getloadavg',
    'os.uname', 'socket.*', 'getpass.*', 'platform.*', 'locale.*', 'builtins.id', 'builtins.hash', 'numpy.random.*',
    'threading.*', 'os.listdir', 'os.scandir', 'os.stat', 'os.path.getmtime', 'os.path.getctime', 'os.path.getatime',
    'sys.argv', 'gc.*', 'weakref.*', 'tracemalloc.*', 'resource.*', 'signal.*', 'calendar.*', 'blosc.clib_info.*',
]
LIB_STATE = ['blosc.set_nthreads', 'blosc.set_blocksize', 'blosc.set_releasegil', 'blosc.init', 'blosc.destroy',
             'blosc.free_resources', 'numpy.seterr', 'numpy.setbufsize', 'sys.setrecursionlimit', 'os.umask', 'os.nice',
             'numpy.set_printoptions', 'os.putenv', 'warnings.simplefilter', 'warnings.filterwarnings', 'locale.setlocale',
             'json.encoder.*']


def c28(C, R, tier):
    mods, refs = scan(C)
    lib = [m for m in mods if m != 'cli']
    for m in lib:
        bad = [x for x in refs if x.mod == m and matches(x.name, NONDETERMINISTIC)]
        R.ok(not bad, '%s.py refers to no clock, random source, environment or object identity' % m,
             ', '.join('%s (%s)' % (x.site, x.name) for x in bad[:5]), '')
    so = [x for x in set_order(C) if x.mod in lib]
    R.ok(not so, 'nothing depends on the iteration order of a set', ', '.join(x.site for x in so), '')
    for r in all_contexts(C, False) + [pack_ctx(C, k, True, False, 'none') for k in PACKS] + [append_ctx(C, 'none')]:
        R.context(r)
        bad = [e for e in r.events if matches(e.kind, NONDETERMINISTIC)]
        R.ok(not bad, '%s: uses no clock, random source, environment or object identity' % r.name, site_of(bad),
             str([e.kind for e in bad[:4]]), r)
        bad = [e for e in r.events if e.kind in ('global_write', 'class_write')]
        R.ok(not bad, '%s: assigns to no module, class or function' % r.name, site_of(bad),
             str([show(e.args[1])[:40] for e in bad[:4]]), r)
        bad = [e for e in r.events if matches(e.kind, LIB_STATE)]
        R.ok(not bad, '%s: leaves the state of the libraries alone' % r.name, site_of(bad), str([e.kind for e in bad[:4]]),
             r)
        bad = [e for e in r.events for o in touched(C, e) if o.op == 'obj' and o.args[0] <= C.I.base_n or
               o.op == 'ext' or rooted(o) is not None and rooted(o).op in ('ext', 'module', 'class', 'func')]
        R.ok(not bad, '%s: changes no object that outlives the call (constants, defaults, class attributes)' % r.name,
             site_of(bad), str([(show(e.args[0])[:40], e.x.get('how')) for e in bad[:4]]), r)


MUTATORS = ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__',
            'update', 'setdefault', 'popitem', 'add', 'discard', 'resize', 'setflags', 'fill', 'put', 'itemset',
            'partition', '__setattr__', '__iadd__', 'difference_update', 'intersection_update', 'setfield', 'release',
            'frombytes', 'fromlist', 'byteswap')


def touched(C, e):
    """the objects an event changes"""
    if e.kind == 'mutate' or e.kind in ('setitem', 'setattr', 'delitem'):
        return alternatives(e.args[0], e.pc)
    if e.kind in ('opaque_method', 'nd.method') and len(e.args) > 1 and is_const(e.args[1]) and \
            cval(e.args[1]) in MUTATORS:
        if cval(e.args[1]) == 'byteswap' and not (len(e.args) > 2 or e.kw):
            return []
        return alternatives(e.args[0], e.pc)
    if e.kind in ('numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal', 'random.shuffle'):
        return alternatives(e.args[0], e.pc) if e.args else []
    return []


def rooted(t):
    """the object a term is a part of"""
    while t is not None and t.op in ('attr', 'at', 'getitem', 'slice', 'item', 'index', 'mview') and t.args:
        n = t.args[0]
        if not hasattr(n, 'op'):
            return None
        t = n
    return t


# ------------------------------------------------------------------ C29
def c29(C, R, tier):
    cs = all_contexts(C, False) + [append_ctx(C, 'open dict')]
    for r in cs:
        R.context(r)
        own = getattr(r, 'own', ())
        for e in r.events:
            for o in touched(C, e):
                if o.op == 'obj':
                    if o.args[0] > r.owned or o.args[0] <= C.I.base_n or o.args[0] in r.given_io:
                        continue
                    R.ok(False, '%s: the objects of the caller are left as they are' % r.name, e.site,
                         '%s of %s' % (e.x.get('how'), (C.I.objs.get(o.args[0]) or {}).get('caller', o.args[1])), r)
                else:
                    x = rooted(o)
                    if x is None or x.op != 'sym' or x.ty in ('int', 'str', 'bytes', 'bool'):
                        continue
                    R.ok(False, '%s: the objects of the caller are left as they are' % r.name, e.site,
                         '%s of %s' % (e.x.get('how'), show(x)[:40]), r)
        bad = [e for e in r.events if e.kind == 'readinto' or e.kind == 'numpy.frombuffer_write']
        n = len([e for e in r.events if touched(C, e)])
        R.ok(True, '%s: %d changes of objects examined' % (r.name, n))
        # the arguments compare equal afterwards
        if r.st is not None and r.box.get('pre') is not None:
            pre = r.box['pre']
            for sl, v in pre.d.items():
                if sl[0] in ('a', 'c') and isinstance(sl[1], int) and C.I.base_n < sl[1] <= r.owned and \
                        sl[1] not in r.given_io and not inside_io(C, r, sl[1]):
                    w = r.st.d.get(sl)
                    R.ok(w is v or w is not None and same(list(r.st.pc), w, v), '%s: an argument object holds the same '
                         'values afterwards' % r.name, '', '%s: %s -> %s' % (sl[2:], show(v)[:60],
                                                                            show(w)[:60] if w is not None else None), r)


def inside_io(C, r, oid):
    return oid in r.given_io
