"""Rules over sources and sinks: whether each class does what the core asks of it."""
from ..contexts import *   # noqa
from ..spec import *   # noqa
from .cli import pcs

N0 = Node()
PLAIN_SOURCES = ('file_io.PlainFPSource', 'memory_io.PlainMemorySource', 'numpy_io.PlainNumpySource')
COMP_SINKS = ('file_io.CompressedFPSink', 'memory_io.CompressedMemorySink')
COMP_SOURCES = ('file_io.CompressedFPSource', 'memory_io.CompressedMemorySource')
PLAIN_SINKS = ('file_io.PlainFPSink', 'memory_io.PlainMemorySink', 'numpy_io.PlainNumpySink')
BASES = {'PlainSource': PLAIN_SOURCES, 'CompressedSink': COMP_SINKS, 'CompressedSource': COMP_SOURCES,
         'PlainSink': PLAIN_SINKS}
# what can not be left to the empty method of the base class, for files and in memory
NEEDED = {'PlainSource': ('__iter__', 'configure', 'compress_func'), 'CompressedSource': ('__iter__',),
          'PlainSink': ('put',), 'CompressedSink': ('configure', 'put', 'write_metadata')}
FILE_SINK = ('write_bloscpack_header', 'init_offsets', 'finalize')
# errors that mean that something is missing, not that the data is bad
BROKEN = ('builtins.AttributeError', 'builtins.NotImplementedError', 'builtins.TypeError', 'builtins.NameError')
# nothing is done to anything by these
HARMLESS = ('print', 'format', 'raise', 'subscript', 'isinstance', 'call', 'pprint.pformat', 'builtins.repr')


def labels(C, r):
    return ', '.join('%s at %s' % (C.I.exc_mro(C.I.exc_class(x))[0], e.site) for _, x, e in r.raises[:3]) or \
        ('completes' if r.st is not None else 'does not complete')


def broken(C, r, since=0):
    return [(x, e) for q, x, e in r.raises[since:] if any(b in C.I.exc_mro(C.I.exc_class(x)) for b in BROKEN)
            and not contradictory(list(q.pc))]


def make(C, I, st, name, **kw):
    mod, cls = name.split('.')
    c = C.get(mod, cls)
    if cls == 'PlainFPSource' or cls == 'CompressedFPSource':
        return I.call(c, [I.new_file(st, 'input', 'rb')], [], st, N0)
    if cls == 'PlainMemorySource':
        return I.call(c, [S('chunks', 'seq')], [], st, N0)
    if cls == 'PlainNumpySource':
        return I.call(c, [ARR], [], st, N0)
    if cls == 'CompressedFPSink' or cls == 'PlainFPSink':
        return I.call(c, [I.new_file(st, 'output', 'wb')], [], st, N0)
    if cls == 'CompressedMemorySource':
        snk = kw.get('sink')
        if snk is None:
            snk = make(C, I, st, 'memory_io.CompressedMemorySink')
            src = make(C, I, st, 'memory_io.PlainMemorySource')
            I.call(C.get('abstract_io', 'pack'), [src, snk, S('nchunks', 'int'), CSIZE, S('last_chunk', 'int')],
                   [('metadata', META)] if kw.get('meta', True) else [], st, N0)
        return I.call(c, [snk], [], st, N0)
    if cls == 'PlainNumpySink':
        return I.call(c, [META], [], st, N0)
    return I.call(c, [], [], st, N0)


def c33(C, R, tier):
    I = C.I
    st0 = I.base
    for base, names in BASES.items():
        for name in names:
            cls = C.get(*name.split('.'))
            r = R.context(C.run('class %s' % name, lambda I, st, N: NONE))
            R.ok('abstract_io.' + base in I.exc_mro(cls), '%s is a %s' % (name, base), '', '', r)
            need = NEEDED[base] + (FILE_SINK if name == 'file_io.CompressedFPSink' else ())
            for m in need:
                v = I.class_attr(cls, m, st0)
                f = v.args[0] if v is not None and v.op == 'prop' else v
                empty = f is None or (f.op == 'func' and I.funcs[f.args[0]].abstract)
                R.ok(not empty, '%s.%s is implemented' % (name, m), '', '', r)
    # every combination
    args = [S('nchunks', 'int'), CSIZE, S('last_chunk', 'int')]
    for s in PLAIN_SOURCES:
        for k in COMP_SINKS:
            for meta in (False, True):
                box = {}

                def body(I, st, N):
                    a, b = make(C, I, st, s), make(C, I, st, k)
                    box['n'] = len(I.raises)
                    return I.call(C.get('abstract_io', 'pack'), [a, b] + args, [('metadata', META)] if meta else [], st, N)
                r = R.context(C.run('pack %s into %s%s' % (s, k, ' with metadata' if meta else ''), body))
                bad = broken(C, r, box.get('n', 0))
                R.ok(r.st is not None and not bad, '%s: nothing is missing' % r.name, bad[0][1].site if bad else '',
                     labels(C, r), r)
                R.ok(any(e.kind == 'blosc.compress' or e.kind == 'blosc.compress_ptr' for e in r.events) and
                     any(e.loops for e in r.events if e.kind.startswith('blosc.compress')),
                     '%s: chunks are compressed' % r.name, '', '', r)
    for s in COMP_SOURCES:
        for k in PLAIN_SINKS:
            box = {}

            def body(I, st, N):
                a, b = make(C, I, st, s), make(C, I, st, k)
                box['n'] = len(I.raises)
                return I.call(C.get('abstract_io', 'unpack'), [a, b], [], st, N)
            r = R.context(C.run('unpack %s into %s' % (s, k), body))
            bad = broken(C, r, box.get('n', 0))
            R.ok(r.st is not None and not bad, '%s: nothing is missing' % r.name, bad[0][1].site if bad else '',
                 labels(C, r), r)
            R.ok(any(e.kind.startswith('blosc.decompress') and e.loops for e in r.events),
                 '%s: chunks are decompressed' % r.name, '', '', r)
    for k in PLAIN_SINKS:
        box = {}

        def body(I, st, N):
            b = make(C, I, st, k)
            box['n'] = len(I.events)
            return I.call(I.getattr(b, 'put', st, N), [S('compressed', 'bytes')], [], st, N)
        r = R.context(C.run('%s.put' % k, body))
        dec = [e for e in r.events[box.get('n', 0):] if e.kind.startswith('blosc.decompress')]
        if r.st is None or not dec:
            R.ok(False, '%s: decompresses the chunk' % r.name, '', labels(C, r), r)
            continue
        want = dec[0].res if dec[0].kind == 'blosc.decompress_ptr' else length(dec[0].res)
        R.ok(same(list(r.st.pc), norm([], r.ret), want), '%s: returns the size of the decompressed chunk' % r.name, '',
             show(r.ret)[:100], r)
    for s in COMP_SOURCES:
        for meta in (True, False):
            box = {}

            def body(I, st, N):
                a = make(C, I, st, s, meta=meta)
                box['n'] = len(I.raises)
                for n in ('nchunks', 'checksum_impl'):
                    I.getattr(a, n, st, N)
                return I.getattr(a, 'metadata', st, N)
            r = R.context(C.run('%s, packed with%s metadata' % (s, '' if meta else 'out'), body))
            R.ok(r.st is not None and not broken(C, r, box.get('n', 0)), '%s: it has what unpacking reads from it' % r.name,
                 '', labels(C, r), r)
            if r.st is not None and 'memory' in s:
                R.ok(same(list(r.st.pc), norm([], r.ret), META if meta else NONE), '%s: its metadata is what was packed' %
                     r.name, '', show(r.ret)[:100], r)

        def body(I, st, N):
            a = make(C, I, st, s)
            return I.call(C.get('numpy_io', 'unpack_ndarray'), [a], [], st, N)
        r = R.context(C.run('unpack_ndarray of %s' % s, body))
        bad = [b for b in broken(C, r) if b[1].func not in ('_conv',)]
        R.ok(r.st is not None and not bad, '%s: nothing is missing' % r.name, bad[0][1].site if bad else '', labels(C, r), r)
    for k in COMP_SINKS:
        def body(I, st, N):
            return I.call(C.get('numpy_io', 'pack_ndarray'), [ARR, make(C, I, st, k)], [], st, N)
        r = R.context(C.run('pack_ndarray into %s' % k, body))
        bad = broken(C, r)
        R.ok(r.st is not None and not bad, '%s: nothing is missing' % r.name, bad[0][1].site if bad else '', labels(C, r), r)
    # everything else is refused
    every = PLAIN_SOURCES + COMP_SINKS + COMP_SOURCES + PLAIN_SINKS
    others = ('a file', 'a list', 'None', 'anything')

    def thing(I, st, w):
        if w == 'a file':
            return I.new_file(st, 'some file', 'rb+')
        if w == 'a list':
            return I.new_list(st, mk('seq', ty='seq'))
        if w == 'None':
            return NONE
        if w == 'anything':
            return S('anything')
        return make(C, I, st, w)
    for fn, roles in (('pack', (PLAIN_SOURCES, COMP_SINKS)), ('unpack', (COMP_SOURCES, PLAIN_SINKS))):
        for i in (0, 1):
            for w in every + others:
                if w in roles[i]:
                    continue
                box = {}

                def body(I, st, N):
                    a = [thing(I, st, w), make(C, I, st, roles[1][0])] if i == 0 else \
                        [make(C, I, st, roles[0][0]), thing(I, st, w)]
                    box['e'], box['r'] = len(I.events), len(I.raises)
                    return I.call(C.get('abstract_io', fn), a + (args if fn == 'pack' else []), [], st, N)
                r = R.context(C.run('%s with %s as %s' % (fn, w, ('source', 'sink')[i]), body))
                rs = r.raises[box.get('r', 0):]
                first = [(x, e) for q, x, e in rs if 'builtins.TypeError' in I.exc_mro(I.exc_class(x))]
                if w == 'anything':
                    base = [b for b in BASES if BASES[b] is roles[i]][0]
                    R.ok(r.st is None or holds(list(r.st.pc), mk('isinst', S('anything'), C.get('abstract_io', base), ty='bool')),
                         '%s: only a %s is accepted' % (r.name, base), '',
                         pcs(r.st.pc) if r.st is not None else '', r)
                else:
                    R.ok(r.st is None and first and len(rs) == len(first), '%s: is refused with TypeError' % r.name, '',
                         labels(C, r), r)
                done = [e for e in r.events[box.get('e', 0):] if e.kind not in HARMLESS and first and e.seq < first[0][1].seq]
                R.ok(not done, '%s: nothing is done before' % r.name, site_of(done), ', '.join(e.kind for e in done[:4]), r)
