"""Rules over numeric helpers of the package."""
from ..contexts import *   # noqa
from ..spec import *   # noqa

MAXN = 2 ** 63 - 1


def c17(C, R, tier):
    off, n = S('offsets', 'bool'), S('nchunks', 'int')
    used = and_(off, not_(eq(n, const(-1))))
    n_ok = [ge0(add(n, ONE)), ge0(sub(const(MAXN), n))]
    for what, g in (('an integer', S('max_app', 'int')), ('a function', S('max_app', 'callable')),
                    ('anything', S('max_app', None))):
        r = R.context(C.call('_handle_max_apps with %s' % what, 'args', '_handle_max_apps', [off, n, g]))
        site = 'args.py (_handle_max_apps)'
        if not R.ok(r.st is not None, '%s: completes' % r.name, site, 'no normal completion', r):
            continue
        F = list(r.st.pc)
        R.ok(holds(F, and_(*n_ok)), '%s: the chunk count is checked' % r.name, site, '', r)
        R.ok(same(F + [not_(used)], r.ret, ZERO), '%s: no capacity without offsets or with an unknown chunk count' % r.name,
             site, show(r.ret), r)
        U = F + flat([used])
        calls = []
        if what != 'an integer':
            calls = [x for x in atoms(norm(U, r.ret)) if x.op == 'call' and x.args[0] == 'apply' and x.args[1][0] is g]
            R.ok(bool(calls) and all(_args(x) == (n,) for x in calls), '%s: a function is applied to the chunk count' % r.name,
                 site, str([show(x) for x in calls]), r)
        v = g if what == 'an integer' else calls[0] if calls else None
        if v is not None:
            K = U + ([mk('hasattr', g, '__call__', ty='bool')] if what == 'anything' else [])
            vi = v
            spec = phi(ge0(sub(add(vi, n), const(MAXN + 1))), sub(const(MAXN), n), vi)
            R.ok(same(K, norm(K, r.ret), norm(K, spec)), '%s: the value is used, reduced to what the format can count' % r.name,
                 site, '%s vs %s' % (show(norm(K, r.ret)), show(spec)), r)
            R.ok(holds(K, ge0(vi)), '%s: negative values are refused' % r.name, site, '', r)
            if what != 'an integer':
                R.ok(holds(K, _isint(C, vi)), '%s: results that are not integers are refused' % r.name, site, '', r)
        if what == 'anything':
            Z = U + [not_(mk('hasattr', g, '__call__', ty='bool'))]
            R.ok(holds(Z, _isint(C, g)), '%s: values that are neither integers nor functions are refused' % r.name, site,
                 '', r)
        # result bounds
        q = norm(F, r.ret)
        R.ok(holds(F, ge0(q)) or all(holds(F + [c], ge0(norm(F + [c], r.ret))) for c in (used, not_(used))),
             '%s: the capacity is not negative' % r.name, site, show(q), r)
        R.ok(holds(U, ge0(sub(sub(const(MAXN), n), norm(U, r.ret)))), '%s: all chunks together can be counted' % r.name,
             site, show(q), r)
        # nothing valid is refused
        for s, x, e in r.raises:
            where = e.site if e is not None else site
            V = list(s.pc) + n_ok
            if v is not None:
                w = v
                ok = [ge0(w)] + ([ge0(sub(const(MAXN), w))] if what != 'a function' else [])
                if what == 'an integer':
                    V = V + ok
                elif what == 'a function':
                    V = V + ok + [_isint(C, w)]
                else:
                    h = mk('hasattr', g, '__call__', ty='bool')
                    V1 = V + [h, ge0(w), _isint(C, w)]
                    V2 = V + [not_(h), _isint(C, g), ge0(g), ge0(sub(const(MAXN), g))]
                    R.ok(contradictory(V1) and contradictory(V2), '%s: valid capacities are accepted' % r.name, where,
                         'raises %s' % show(x)[:80], r)
                    continue
            R.ok(contradictory(V), '%s: valid capacities are accepted' % r.name, where, 'raises %s' % show(x)[:80], r)


def _args(x):
    return tuple(x.args[1][1:])


def _isint(C, v):
    return mk('isinst', v, mk('ext', 'builtins.int'), ty='bool')
