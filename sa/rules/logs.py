"""Rules over messages: what a verbosity level may change."""
from ..contexts import *   # noqa
from ..spec import *   # noqa
from .effects import SUBS, exc_label
from .cli import pcs, formats

LEVELS = ('NORMAL', 'VERBOSE', 'DEBUG')
LV1, LV2 = S('level is NORMAL', 'bool'), S('level is VERBOSE', 'bool')
# computations that change nothing outside of themselves
SILENT = ('print', 'format', 'bad_format', 'sys.stdout.write', 'sys.stderr.write', 'sys.stdout.flush', 'sys.stderr.flush',
          'subscript', 'pprint.pformat', 'pprint.pprint', 'builtins.repr', 'decode', 'len')
MESSAGE_CODE = ('pretty.pretty_size', 'pretty.double_pretty_size', 'pretty.join_with_eol', 'log.verbose', 'log.debug',
                'log.normal', 'cli.log_metadata')


def level_slot(C):
    C.get('log', 'LEVEL')
    return ('v', 'm:log', 'LEVEL')


def levelled(C):
    sl = level_slot(C)

    def prelude(st):
        st.d[sl] = phi(LV1, const('NORMAL'), phi(LV2, const('VERBOSE'), const('DEBUG')))
    return C.variant(prelude)


def depends(t, on):
    return any(contains(t, x) for x in on)


def independent(C, R, r, on):
    bad = []
    for e in r.events:
        if e.kind in SILENT or e.kind == 'swallow':
            continue
        dep = [c for c in e.pc if depends(c, on)]
        if e.kind == 'class_write' or e.kind == 'global_write':
            if e.mod in ('log', 'cli'):
                continue
        if dep:
            bad.append((e, 'happens only if %s' % show(dep[0])[:120]))
            continue
        hit = [a for a in list(e.args) + list(e.kw.values()) if depends(a, on)]
        if hit and e.kind not in ('vars',):
            bad.append((e, 'with %s' % show(hit[0])[:120]))
    R.ok(not bad, '%s: what is done does not depend on the verbosity' % r.name, site_of([e for e, _ in bad]),
         '; '.join('%s at %s %s' % (e.kind, e.site, d) for e, d in bad[:3]), r)
    rs = [(x, e, c) for q, x, e in r.raises for c in q.pc if depends(c, on)]
    R.ok(not rs, '%s: what is raised does not depend on the verbosity' % r.name, site_of([e for _, e, _ in rs]),
         '; '.join('%s if %s' % (exc_label(C, x), show(c)[:120]) for x, e, c in rs[:2]), r)
    if r.st is not None:
        dep = [c for c in r.st.pc if depends(c, on)]
        R.ok(not dep, '%s: whether it completes does not depend on the verbosity' % r.name, '',
             '; '.join(show(c)[:120] for c in dep[:2]), r)
        if r.ret is not None:
            R.ok(not depends(r.ret, on), '%s: the result does not depend on the verbosity' % r.name, '',
                 show(r.ret)[:160], r)
    bad = []
    for e in r.events:
        if e.kind == 'raise' and not e.x.get('caught') and any(f in MESSAGE_CODE for f in e.stack) and \
                not contradictory(list(e.pc)):
            bad.append(e)
    R.ok(not bad, '%s: no message makes it fail' % r.name, site_of(bad), '', r)
    # a division that can fail although only messages use what it yields
    bad = []
    for q, x, e in r.raises:
        if x.op == 'excv' and x.args[0].args[0] == 'builtins.ZeroDivisionError' and x.args[1] and \
                not contradictory(list(q.pc) + has_content(C, r, e)) and not used(r, x.args[1][0]):
            bad.append(e)
    R.ok(not bad, '%s: nothing computed for messages alone makes it fail' % r.name, site_of(bad), '', r)


def has_content(C, r, at):
    """the sizes of files that something was read from (proved) or that were written to before"""
    out = []
    for g in r.events:
        if g.kind not in ('getsize', 'getvalue') or g.seq > at.seq or g.res is None:
            continue
        if g.kind == 'getvalue':
            if any(e.seq < g.seq and e.kind == 'write' and e.args[0] is g.args[0] for e in r.events):
                out.append(ge0(sub(length(g.res), ONE)))
            continue
        for e in r.events:
            if e.seq < at.seq and e.kind in ('read', 'write') and e.args[0].op == 'obj' and \
                    C.I.objs.get(e.args[0].args[0], {}).get('path') is g.args[0]:
                if e.kind == 'write' or not e.loops and e.res is not None and \
                        holds(list(at.pc), ge0(sub(length(e.res), ONE))):
                    out.append(ge0(sub(g.res, ONE)))
                    break
    return out


def used(r, v):
    """does anything but messages, and errors, depend on v?"""
    for e in r.events:
        if e.kind in SILENT or e.kind in ('swallow', 'raise'):
            continue
        if any(contains(a, v) for a in list(e.args) + list(e.kw.values()) + list(e.pc)):
            return True
    return r.ret is not None and contains(r.ret, v)


def prints(r):
    """conditions under which something is printed, the loops over lines left out"""
    out = []
    for e in r.events:
        if e.kind == 'print':
            ids = set(l.idx for l in e.loops)
            out.append([c for c in e.pc if not any(contains(c, i) for i in ids)])
    return out


def whole(R, r, msg):
    """every line of the message is printed, but for empty ones"""
    desc = '%s: every line of the message is printed' % r.name
    vague, why, site = None, 'no line is printed', ''
    for e in r.events:
        if e.kind not in ('print', 'sys.stdout.write'):
            continue
        site = e.site
        for a in e.args:
            parts = [x for x in atoms(a) if x.op == 'at' and x.args[0].op == 'call' and
                     x.args[0].args[0] in ('str.split', 'str.splitlines') and x.args[0].args[1][0] is msg]
            if not parts and contains(a, msg):
                if not e.loops:
                    if not e.pc:
                        R.ok(True, desc, '', '', r)
                        return
                    why = 'printed if %s' % pcs(e.pc)
                else:
                    vague = 'a form outside the model: %s' % show(a, -60)[:80]
            for line in parts:
                i, n = line.args[1], length(line.args[0])
                F = [ge0(i), ge0(sub(sub(n, i), ONE)), truthy(line), not_(eq(line, const('')))]
                left = [c for c in e.pc if not holds(F, c)]
                if not left and any(l.idx is i and l.trip is n and not l.has_break for l in e.loops):
                    R.ok(True, desc, '', '', r)
                    return
                why = 'a line is printed if %s' % pcs(left) if left else 'not all the lines are looked at'
    if vague:
        R.undecided.append((desc, site, vague))
    else:
        R.ok(False, desc, site, why, r)


def c31(C, R, tier):
    # the functions of the log module
    sl = level_slot(C)
    msg = S('message', 'str')
    for i, lv in enumerate(LEVELS):
        def pre(st, lv=lv):
            st.d[sl] = const(lv)
        D = C.variant(pre)
        for fn, args, show_at in (('normal', [msg], 0), ('verbose', [msg], 1), ('debug', [msg], 2),
                                  ('verbose', [msg, const('NORMAL')], 0), ('verbose', [msg, const('DEBUG')], 2),
                                  ('error', [msg], 0)):
            r = R.context(D.call('log.%s at %s' % (fn, lv), 'log', fn, args))
            ps = prints(r)
            want = show_at <= i
            R.ok(bool(ps) == want and (not ps or any(not p for p in ps)), '%s: the message is %s' %
                 (r.name + (' with level %s' % cval(args[1]) if len(args) > 1 else ''),
                  'printed' if want else 'not printed'), site_of([e for e in r.events if e.kind == 'print']),
                 str([pcs(p) for p in ps]), r)
            if want and ps:
                whole(R, r, msg)
            R.ok((r.st is None) == (fn == 'error'), '%s: %s' % (r.name, 'ends the program' if fn == 'error' else 'returns'),
                 '', '', r)
        r = R.context(D.call('set_level from %s' % lv, 'log', 'set_level', [S('new level', 'str')]))
        nl = S('new level', 'str')
        if r.st is None:
            R.ok(False, '%s: accepts a level' % r.name, '', '', r)
            continue
        F = list(r.st.pc)
        R.ok(holds(F, or_(*[eq(nl, const(x)) for x in LEVELS])), '%s: an unknown level is refused' % r.name, '', pcs(F), r)
        for x in LEVELS:
            G = F + [eq(nl, const(x))]
            R.ok(not contradictory(G) and same(G, norm(G, r.st.d.get(sl)), const(x)),
                 '%s: %s takes effect' % (r.name, x), '', show(r.st.d.get(sl))[:100], r)
        R.ok(any('builtins.ValueError' in C.I.exc_mro(C.I.exc_class(x)) for _, x, _ in r.raises),
             '%s: an unknown level is a ValueError' % r.name, '', '', r)
    D = levelled(C)
    on = [LV1, LV2]
    cs = [pack_ctx(D, k, True, k in ('file', 'bytes_file', 'bytes')) for k in PACKS]
    cs += [unpack_ctx(D, k) for k in UNPACKS] + [mem_unpack_ctx(D)]
    cs += [append_ctx(D, 'inst'), rewrite_ctx(D)]
    for r in cs:
        R.context(r)
        r.name = r.name + ' at any level'
        independent(C, R, r, on)
        formats(R, r)
    v, d = arg('verbose', C, None), arg('debug', C, None)
    for s in SUBS:
        r = R.context(main_ctx(C, s))
        independent(C, R, r, [v, d])
        if r.st is not None:
            lev = r.st.d.get(sl)
            for F, want in (([v, not_(d)], 'VERBOSE'), ([d, not_(v)], 'DEBUG'), ([not_(d), not_(v)], 'NORMAL')):
                F = list(r.st.pc) + F
                R.ok(lev is not None and same(F, norm(F, lev), const(want)), '%s: -%s sets the level' %
                     (r.name, {'VERBOSE': 'v', 'DEBUG': 'd'}.get(want, '- (neither)')), '', show(lev)[:100], r)
