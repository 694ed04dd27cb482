"""Rules over the argument objects and headers: which keys they have and what
reading, setting and validating them does."""
import itertools

from ..contexts import *   # noqa
from ..spec import *   # noqa
from .cli import pcs

TIMES10 = 'ten times the number given'
# documented parameters and defaults, in the order of the documentation
ARGS = {
    'BloscArgs': ('args', [('typesize', 8), ('clevel', 7), ('shuffle', True), ('cname', 'blosclz')]),
    'BloscpackArgs': ('args', [('offsets', True), ('checksum', 'adler32'), ('max_app_chunks', TIMES10)]),
    'MetadataArgs': ('args', [('magic_format', b'JSON'), ('meta_checksum', 'adler32'), ('meta_codec', 'zlib'),
                              ('meta_level', 6), ('max_meta_size', TIMES10)]),
}
HEADERS = {
    'BloscpackHeader': ('headers', [('format_version', 3), ('offsets', False), ('metadata', False), ('checksum', 'None'),
                                    ('typesize', 0), ('chunk_size', -1), ('last_chunk', -1), ('nchunks', -1),
                                    ('max_app_chunks', 0)]),
    'MetadataHeader': ('headers', [('magic_format', b''), ('meta_options', '00000000'), ('meta_checksum', 'None'),
                                   ('meta_codec', 'None'), ('meta_level', 0), ('meta_size', 0), ('max_meta_size', 0),
                                   ('meta_comp_size', 0), ('user_codec', b'')]),
}
LISTS = {'BloscArgs': ('BLOSC_ARGS', 'DEFAULT_BLOSC_ARGS', '_check_blosc_args'),
         'BloscpackArgs': ('BLOSCPACK_ARGS', 'DEFAULT_BLOSCPACK_ARGS', '_check_bloscpack_args'),
         'MetadataArgs': ('METADATA_ARGS', 'DEFAULT_METADATA_ARGS', '_check_metadata_arguments')}
TYPES = {bool: 'bool', int: 'int', str: 'str', bytes: 'bytes'}


def matches_default(C, st, F, v, want):
    if want is TIMES10:
        x = S('a count', 'int')
        r = quiet_call(C, st, v, [x])
        return r is not None and same(F, r, mul(const(10), x))
    return v is not None and v is const(want) or (v is not None and v.op == 'const' and
                                                  type(v.args[0]) is type(want) and same(F, v, const(want)))


def strs(C, st, t):
    """the constant strings of a sequence, None where it has others"""
    t = norm([], C.I.as_seq(t, st, Node()))
    if t.op not in ('seq', 'tuple') or not all(x.op == 'const' for x in t.args):
        return None
    return [x.args[0] for x in t.args]


def refused(C, r, what):
    """every way the operation ends is an exception of that class"""
    return r.st is None and r.raises and all('builtins.' + what in C.I.exc_mro(C.I.exc_class(x)) for _, x, _ in r.raises)


def ends_in(C, r):
    return 'returns' if r.st is not None else ', '.join(C.I.exc_mro(C.I.exc_class(x))[0] for _, x, _ in r.raises)


def type_of(d):
    return 'int' if d is TIMES10 else TYPES[type(d)]


def value(k, d):
    return S('value of ' + k, type_of(d))


def mapping(C, R, cls, mod, doc):
    keys = [k for k, _ in doc]
    I = C.I
    # made without arguments
    box = {}

    def body(I, st, N):
        o = I.call(C.get(mod, cls), [], [], st, N)
        m = lambda n: I.getattr(o, n, st, N)
        box['keys'] = strs(C, st, I.call(m('__iter__'), [], [], st, N))
        box['viewed'] = strs(C, st, I.call(m('keys'), [], [], st, N))
        box['len'] = I.call(m('__len__'), [], [], st, N)
        box['bytes'] = strs(C, st, m('bytes_attributes'))
        box['pairs'] = I.as_seq(I.call(m('items'), [], [], st, N), st, N)
        for k in keys:
            box['item', k] = I.getitem(o, const(k), st, N)
            box['attr', k] = m(k)
        box['st'] = st.fork()
        return o
    r = R.context(C.run('%s()' % cls, body))
    R.ok(r.st is not None, '%s() can be made' % cls, '', ends_in(C, r), r)
    if r.st is not None:
        F = list(r.st.pc)
        for w in ('keys', 'viewed'):
            R.ok(box[w] is not None and sorted(box[w]) == sorted(keys), '%s(): its keys are the documented ones' % cls, '',
                 str(box[w]), r)
        R.ok(same(F, box['len'], const(len(keys))), '%s(): its length is the number of keys' % cls, '', show(box['len']), r)
        R.ok(box['bytes'] is not None and set(box['bytes']) <= set(keys), '%s(): its byte sizes are among the keys' % cls,
             '', str(box['bytes']), r)
        for k, d in doc:
            for w in ('item', 'attr'):
                R.ok(matches_default(C, box['st'], F, box[w, k], d), '%s(): %s is %s' % (cls, k, d if d is TIMES10 else repr(d)),
                     '', show(box[w, k])[:100], r)
        p = norm(F, box['pairs'])
        R.ok(p.op == 'seq' and len(p.args) == len(keys) and
             all(x.op == 'tuple' and x.args[0].op == 'const' and same(F, x.args[1], box['item', x.args[0].args[0]])
                 for x in p.args if x.op == 'tuple' and ('item', cval(x.args[0])) in box),
             '%s(): its items are its keys and their values' % cls, '', show(p)[:150], r)
    # made with all arguments, by name and by position
    vals = dict((k, value(k, d)) for k, d in doc)
    for how in ('name', 'position'):
        box = {}

        def body(I, st, N):
            o = I.call(C.get(mod, cls), [vals[k] for k in keys] if how == 'position' else [],
                       [(k, vals[k]) for k in keys] if how == 'name' else [], st, N)
            for k in keys:
                box[k] = I.getitem(o, const(k), st, N)
            return o
        r = R.context(C.run('%s(arguments by %s)' % (cls, how), body))
        if r.st is None:
            R.ok(False, '%s: can be made' % r.name, '', ends_in(C, r), r)
            continue
        F = list(r.st.pc)
        for k in keys:
            R.ok(same(F, norm(F, box[k]), vals[k]), '%s: %s is the value given' % (r.name, k), '', show(box[k])[:120], r)
    r = R.context(C.run('%s(unknown argument)' % cls,
                        lambda I, st, N: I.call(C.get(mod, cls), [], [('no_such_key', const(1))], st, N)))
    R.ok(refused(C, r, 'TypeError'), '%s: an unknown argument is refused' % r.name, '', ends_in(C, r), r)
    # reading, setting and deleting any key
    k, v = S('key', 'str'), S('new value')
    known = or_(*[eq(k, const(x)) for x in keys])
    for op, args in (('__getitem__', [k]), ('__setitem__', [k, v])):
        def body(I, st, N):
            o = I.call(C.get(mod, cls), [], [], st, N)
            return I.call(I.getattr(o, op, st, N), args, [], st, N)
        r = R.context(C.run('%s.%s of any key' % (cls, op), body))
        if r.st is not None:
            R.ok(holds(list(r.st.pc), known), '%s: unknown keys are refused' % r.name, '', pcs(r.st.pc), r)
        bad = [x for q, x, _ in r.raises if 'builtins.KeyError' not in I.exc_mro(I.exc_class(x)) and
               not contradictory(list(q.pc))]
        R.ok(not bad, '%s: unknown keys are refused with KeyError' % r.name, '',
             ', '.join(I.exc_mro(I.exc_class(x))[0] for x in bad), r)
        known_refused = [q for q, x, _ in r.raises if not holds(list(q.pc), not_(known))]
        R.ok(not known_refused, '%s: documented keys are not refused' % r.name, '',
             '; '.join(pcs(q.pc) for q in known_refused[:2]), r)
    for key, d in doc:
        v = S('new value', type_of(d))
        box = {}

        def body(I, st, N):
            o = I.call(C.get(mod, cls), [], [], st, N)
            box['was'] = dict((x, I.getitem(o, const(x), st, N)) for x in keys)
            I.call(I.getattr(o, '__setitem__', st, N), [const(key), v], [], st, N)
            box['now'] = dict((x, I.getitem(o, const(x), st, N)) for x in keys)
            box['attr'] = I.getattr(o, key, st, N)
            c = I.call(I.getattr(o, 'copy', st, N), [], [], st, N)
            box['copied'] = dict((x, I.getitem(c, const(x), st, N)) for x in keys)
            box['class'] = I.cls_of(c) is I.cls_of(o) and c is not o
            I.call(I.getattr(c, '__setitem__', st, N), [const(key), S('other value')], [], st, N)
            box['after'] = I.getitem(o, const(key), st, N)
            return o
        r = R.context(C.run('%s: set %s' % (cls, key), body))
        if r.st is None:
            R.ok(False, '%s: succeeds' % r.name, '', ends_in(C, r), r)
            continue
        F = list(r.st.pc)
        R.ok(same(F, box['now'][key], v) and same(F, box['attr'], v), '%s: key and attribute have the new value' % r.name, '',
             show(box['now'][key])[:100], r)
        ch = [x for x in keys if x != key and not (box['now'][x] is box['was'][x] or same(F, box['now'][x], box['was'][x]))]
        R.ok(not ch, '%s: no other key changes' % r.name, '', ', '.join(ch), r)
        df = [x for x in keys if not (box['copied'][x] is box['now'][x] or same(F, box['copied'][x], box['now'][x]))]
        R.ok(not df and box['class'], '%s: a copy has the same class and values' % r.name, '', ', '.join(df), r)
        R.ok(same(F, box['after'], v), '%s: changing a copy leaves the original alone' % r.name, '',
             show(box['after'])[:100], r)
    def body(I, st, N):
        o = I.call(C.get(mod, cls), [], [], st, N)
        return I.call(I.getattr(o, '__delitem__', st, N), [k], [], st, N)
    r = R.context(C.run('%s.__delitem__' % cls, body))
    R.ok(r.st is None, '%s: keys can not be deleted' % r.name, '', ends_in(C, r), r)
    for op in ('__str__', '__repr__', 'pformat'):
        def body(I, st, N):
            o = I.call(C.get(mod, cls), [], [(x, vals[x]) for x in keys], st, N)
            box['raises'] = len(I.raises)
            return I.call(I.getattr(o, op, st, N), [], [], st, N)
        r = R.context(C.run('%s.%s' % (cls, op), body))
        bad = [x for _, x, _ in r.raises[box['raises']:]]
        R.ok(r.st is not None and not bad, '%s: does not fail' % r.name, '',
             ', '.join(I.exc_mro(I.exc_class(x))[0] for x in bad), r)


def lists(C, R, cls, doc):
    keys = [k for k, _ in doc]
    lst, dflt, check = LISTS[cls]
    box = {}

    def body(I, st, N):
        box['list'] = strs(C, st, C.get('args', lst))
        box['items'] = dict((k, I.getitem(C.get('args', dflt), const(k), st, N)) for k in keys)
        box['keys'] = strs(C, st, I.call(I.getattr(C.get('args', dflt), 'keys', st, N), [], [], st, N))
        box['st'] = st.fork()
        return NONE
    r = R.context(C.run('%s and %s' % (lst, dflt), body))
    if r.st is None:
        R.ok(False, '%s: every key has a default' % r.name, '', ends_in(C, r), r)
    else:
        for w, n in (('list', lst), ('keys', dflt)):
            R.ok(box[w] is not None and sorted(box[w]) == sorted(keys), '%s has the keys of %s' % (n, cls), '', str(box[w]), r)
        for k, d in doc:
            R.ok(matches_default(C, box['st'], [], box['items'][k], d), '%s: %s is the default of %s' % (dflt, k, cls), '',
                 show(box['items'][k])[:100], r)
    # validation, of every selection of the keys and of others
    for n in range(len(keys) + 1):
        for some in itertools.combinations(keys, n):
            for extra in ((), ('no_such_key',)):
                def body(I, st, N):
                    d = I.new_dict(st, [(const(x), S('value of ' + x)) for x in some + extra])
                    return I.call(C.get('args', check), [d], [], st, N)
                r = R.context(C.run('%s(%s)' % (check, ', '.join(some + extra)), body))
                if n == len(keys) and not extra:
                    R.ok(r.st is not None and not r.raises, '%s: complete arguments are accepted' % r.name, '', ends_in(C, r), r)
                else:
                    R.ok(refused(C, r, 'ValueError'), '%s: is refused with ValueError' % r.name, '', ends_in(C, r), r)
    def body(I, st, N):
        o = I.call(C.get('args', cls), [], [], st, N)
        return I.call(C.get('args', check), [o], [], st, N)
    r = R.context(C.run('%s(%s())' % (check, cls), body))
    R.ok(r.st is not None and not r.raises, '%s: argument objects are accepted' % r.name, '', ends_in(C, r), r)


def c32(C, R, tier):
    for cls, (mod, doc) in list(ARGS.items()) + list(HEADERS.items()):
        mapping(C, R, cls, mod, doc)
    for cls, (mod, doc) in ARGS.items():
        lists(C, R, cls, doc)
