"""Rules over memory: how much of a file is held at a time."""
from ..contexts import *   # noqa
from ..spec import *   # noqa
from .pack import COMPRESS

DECOMP = ('blosc.decompress', 'blosc.decompress_ptr', 'blosc.unpack_array')
# terms whose value is a number or of a fixed size, whatever data they are computed from
SMALL = ('len', 'unpk', 'eq', 'ge', 'poly', 'isinst', 'tab', 'pk', 'not', 'and', 'or')


def holds_data(t, chunks, memo=None):
    """the value contains the bytes of a chunk, not just numbers computed from them"""
    memo = {} if memo is None else memo
    if not hasattr(t, 'op'):
        return any(holds_data(x, chunks, memo) for x in t) if isinstance(t, tuple) else False
    if t in memo:
        return memo[t]
    memo[t] = False
    if any(t is c for c in chunks):
        r = True
    elif t.ty in ('int', 'bool', 'float') or t.op in SMALL or \
            (t.op == 'call' and not str(t.args[0]).startswith(('blosc.', 'bytes', 'copy.'))):
        r = False
    elif t.op == 'phi':
        r = any(holds_data(x, chunks, memo) for x in t.args[1:])
    else:
        r = any(holds_data(x, chunks, memo) for x in t.args)
    memo[t] = r
    return r


def grows(t, sl, loop):
    """the value a variable has after an iteration contains what it had before"""
    h = loop.heads.get(sl)
    return (h is not None and contains(t, h)) or any_op(t, ('smap', 'bmap', 'fill'))


def any_op(t, ops, seen=None):
    seen = set() if seen is None else seen
    if not hasattr(t, 'op'):
        return any(any_op(x, ops, seen) for x in t) if isinstance(t, tuple) else False
    if t in seen:
        return False
    seen.add(t)
    return t.op in ops or any(any_op(x, ops, seen) for x in t.args)


def c30(C, R, tier):
    cs = [(pack_ctx(C, 'file', o, m), 'pack') for o, m in ((True, True), (False, False))]
    cs += [(unpack_ctx(C, 'file'), 'unpack'), (unpack_ctx(C, 'nd_file'), 'unpack'), (unpack_ctx(C, 'bytes_file'), 'unpack'),
           (append_ctx(C, 'inst'), 'append'), (append_ctx(C, 'none'), 'append')]
    for r, what in cs:
        R.context(r)
        if r.st is None:
            R.ok(False, '%s: completes' % r.name, '', '', r)
            continue
        given = input_files(C, r)
        reads = [e for e in r.events if e.kind == 'read' and e.args[0] in given]
        comp = [e for e in r.events if e.kind in COMPRESS + DECOMP]
        R.ok(bool(comp), '%s: chunks are handled' % r.name, '', '', r)
        for e in reads:
            n = e.arg(1, 'size')
            F = list(e.pc)
            if n is None or n is NONE or contradictory([ge0(n)]):
                R.ok(False, '%s: a read names how many bytes it reads' % r.name, e.site, 'reads all that is left', r)
                continue
            if what == 'pack':
                lim = r.plan[1]
            elif what == 'append' and e.args[0] is not r.src:
                lim = FileSpec(r.src).chunk_size
            else:
                lim = None
            if lim is not None:
                R.ok(holds(F, ge0(sub(lim, n))), '%s: a read of input takes at most one chunk' % r.name, e.site,
                     show(n)[:160], r)
            else:
                bad = too_much(n, e, comp)
                R.ok(not bad, '%s: a read takes one section or chunk' % r.name, e.site, bad, r)
        outer = [e.loops[0] for e in comp if e.loops]
        for e in comp:
            d = e.args[0]
            far = [x for x in reads if x.loops and (not e.loops or x.loops[0] is not e.loops[0]) and flows(x, d)]
            R.ok(not far, '%s: a chunk is read in the iteration that handles it' % r.name, e.site,
                 ', '.join(x.site for x in far), r)
        ws = [e for e in r.events if e.kind == 'write' and any(contains(e.args[1], c.res) for c in comp)]
        for e in ws:
            own = [c for c in comp if contains(e.args[1], c.res)]
            bad = [c for c in own if c.loops != e.loops and (c.loops or e.loops)]
            R.ok(not bad, '%s: a chunk is written in the iteration that handles it' % r.name, e.site,
                 ', '.join(c.site for c in bad), r)
        late = [e for e in r.events if e.kind == 'write' and e not in ws and comp and any_op(e.args[1], ('smap', 'bmap')) and
                any(flows(c, e.args[1]) for c in comp if c.loops)]
        R.ok(not late, '%s: no chunk is kept to be written later' % r.name, site_of(late), '', r)
        for lp in set(outer):
            chunks = [c.res for c in comp if c.res is not None and c.kind != 'blosc.decompress_ptr'] + \
                [x.res for x in reads if x.loops and x.loops[0] is lp and x.res is not None and
                 any(flows(x, c.args[0]) for c in comp)]
            kept = []
            for sl, h in lp.heads.items():
                v = lp.end.get(sl)
                if v is None or sl[0] in ('f', 'h'):
                    continue
                if grows(v, sl, lp) and holds_data(v, chunks):
                    kept.append((sl, v))
            R.ok(not kept, '%s: earlier chunks are not kept' % r.name, lp.site if isinstance(lp.site, str) else str(lp.site),
                 '; '.join('%s: %s' % (sl, show(v)[:120]) for sl, v in kept[:2]), r)
        # what the chunks go to is the file itself
        if what == 'pack' or r.name == 'unpack:file':
            tmp = [e for e in ws if e.args[0] not in opened_files(C, r)]
            R.ok(not tmp, '%s: chunks are written to the file' % r.name, site_of(tmp), '', r)


def opened_files(C, r):
    return [e.res for e in r.events if e.kind == 'open' and e.res is not None]


def input_files(C, r):
    fs = opened_files(C, r)
    out = []
    for e in r.events:
        if e.kind == 'read' and e.args[0] not in out and (e.args[0] in fs or not fs):
            out.append(e.args[0])
    return out


def flows(e, t):
    """what was read (or made) by the event, in some iteration, is part of the value"""
    if e.res is None:
        return False
    if contains(t, e.res):
        return True
    for x in subterms(t):
        if x.op == e.res.op and e.loops:
            for y in subterms(x):
                if y.op == 'sym' and str(y.args[0]).startswith('idx') and subst(x, {y: e.loops[0].idx}) is e.res:
                    return True
    return False


def subterms(t, seen=None):
    seen = {} if seen is None else seen
    if not hasattr(t, 'op'):
        if isinstance(t, tuple):
            for x in t:
                subterms(x, seen)
        return seen
    if t in seen:
        return seen
    seen[t] = 1
    for x in t.args:
        subterms(x, seen)
    return seen


def too_much(n, e, comp):
    """why a read of a compressed file takes more than a section or a chunk; '' if it does not"""
    inside = any(c.loops and e.loops and c.loops[0] is e.loops[0] for c in comp)

    def go(t, k):
        if t.op == 'poly':
            for mono, c in t.args[0]:
                if len(mono) > 1 and sum(1 for f in mono if field(f)) > 1:
                    return 'a product of numbers in the file: %s' % show(t)[:100]
                for f in mono:
                    b = go(f, k * c)
                    if b:
                        return b
        elif t.op == 'phi':
            return go(t.args[1], k) or go(t.args[2], k)
        elif t.op == 'sym' and str(t.args[0]).startswith('getsize'):
            return 'as many bytes as the file has'
        elif t.op == 'unpk' and t.args[0] in ('<q', '<Q') and (k > 8 or inside):
            return '%s times %d' % (show(t)[:100], k)
        elif field(t) and k > 1 and t.args[0] not in ('<q', '<Q'):
            return '%d times %s' % (k, show(t)[:100])
        return ''

    def field(f):
        return f.op == 'unpk' or f.op == 'phi' and (field(f.args[1]) or field(f.args[2]))
    return go(n, 1)
