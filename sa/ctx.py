"""Entry contexts: the public operations of the package, each evaluated once
on symbolic arguments."""
import os

from .terms import *   # noqa
from . import terms as tm
from .interp import Interp, Frame, Dead, AnalysisBroken, State


class Result(object):
    """outcome of evaluating one entry point"""

    def __init__(self, name):
        self.name = name
        self.events = []
        self.raises = []
        self.ret = None
        self.st = None
        self.params = {}
        self.kind, self.box = '', {}

    def of(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    @property
    def escaping(self):
        return [(s, x, e) for s, x, e in self.raises]


class Node(object):
    lineno = 0


class Ctx(object):
    def __init__(self, root):
        self.I = Interp(root)
        self.cache = {}
        self.prelude = None         # changes the state every context starts from

    def variant(self, prelude):
        """the same package, started from a changed state"""
        c = Ctx.__new__(Ctx)
        c.I, c.cache, c.prelude = self.I, {}, prelude
        return c

    def module(self, mod):
        if mod not in self.I.trees:
            raise AnalysisBroken('module bloscpack.%s is missing' % mod)
        return mod

    def get(self, mod, name):
        v = self.I.base.d.get(('v', 'm:' + self.module(mod), name))
        if v is None:
            raise AnalysisBroken('bloscpack.%s.%s is missing' % (mod, name))
        return v

    def inst(self, st, mod, cls, fields, **meta):
        """an instance of a class of the package with the given fields (the caller's object)"""
        c = self.get(mod, cls)
        m = {'cls': c, 'site': ('?', 0)}
        m.update(meta)
        o = self.I.alloc('inst', m)
        for k, v in fields.items():
            st.d[('a', o.args[0], k)] = v
        return o

    def run(self, name, body, setup=None):
        """body(I, st, N) -> return term, evaluated on a fork of the loaded package"""
        I = self.I
        r = Result(name)
        st = I.base.fork()
        if self.prelude is not None:
            self.prelude(st)
        I.events, I.raises, I.loops = [], [], []
        I.unmodelled = []
        I.dec_memo = {}
        I.with_depth, I.in_finally, I.in_try = [], [], 0
        I.loopstack, I.stack = [], []
        I.absent, I.read_on = {}, []
        I.owned = I.base_n
        I.pending_breaks = []
        I.guards, I.leaving, I.opened = [], [], []
        I.frames_active = []
        fr = Frame(I.new_id(), None, 'caller', ())
        I.frame = fr
        try:
            r.ret = body(I, st, Node())
            r.st = st
        except Dead:
            r.ret = None
            r.st = None
        except AnalysisBroken:
            raise
        except Exception as e:      # the evaluator met something it was not written for
            if os.environ.get('SA_DEBUG'):
                raise
            r.ret = r.st = None
            I.unmodelled.append(('analyser: %r' % e, ''))
        r.events, r.raises, r.loops = I.events, I.raises, I.loops
        r.unmodelled = list(I.unmodelled)
        r.owned = I.owned
        r.given_io = set()
        return r

    def call(self, name, mod, fname, args=(), kw=(), st_setup=None):
        def body(I, st, N):
            f = self.get(mod, fname)
            a = args(st) if callable(args) else list(args)
            k = kw(st) if callable(kw) else list(kw)
            return I.call(f, list(a), list(k), st, N)
        return self.run(name, body)

    def inst_call(self, st, mod, cls, kw, **meta):
        """instantiate a class of the package through its constructor (the caller's object)"""
        o = self.I.call(self.get(mod, cls), [], list(kw.items()), st, Node())
        if o.op == 'obj' and meta:
            (self.I.objs[o.args[0]] or {}).update(meta)
        return o
