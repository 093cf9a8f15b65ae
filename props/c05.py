"""C05: indexing selects what NumPy indexing selects; derivatives with respect to selections."""
from vlib import ops, views

RULE = ('A base (input or expression of 1-3 inputs) is indexed by 1-3 random NumPy index expressions in a chain (integers, slices with any bounds/step, ellipsis, '
        'new axes, lists, index arrays of any shape, masks, tuples); the value, its 0/1 Jacobian with respect to the base, and both after the source changed are compared with NumPy indexing of '
        'an array of positions; so they are after a source that is an input gained and lost rows, where this leaves the addressed elements the same. In a quarter of the cases the selecting operation itself is given positions as lists, masks, negative or two-dimensional arrays or slices, exchanged one for the next. Independently, the derivative of an expression with respect to a chain of non-repeating selections and views of an input is compared with the selected columns. '
        'Non-trivial: the selection is neither empty nor everything, or the chain has two or more steps.')
CASES = {'quick': 9000, 'thorough': 300000}
ASSUMPTIONS = ['selections with repeated elements are used for values and Jacobians, not as independent variables']


def generate(g, tier):
    from vlib import gen
    import numpy as np
    big = g.chance(15)
    if g.chance(50):
        d, made = gen.gen_dag(g, 'deriv', max_ops=3, min_ops=1, max_size=60 if big else 24, max_ndim=4)
        b = made[-1]
    else:
        d = gen.Dag(g, 'deriv', 60 if big else 24, 4)
        b = d.leaf()
    nodes, mp = gen.prune(d.nodes, [b])
    shp = list(d.vals[b].shape)
    p = np.arange(gen.size_of(shp)).reshape(shp)
    keys = []
    for _ in range(g.weighted([(60, 1), (28, 2), (12, 3)])):
        k = gen.index_key(g, list(p.shape))
        keys.append(k)
        p = np.atleast_1d(p[ops.key_of(k)])
    case = {'nodes': nodes, 'b': mp[b], 'keys': keys, 'seed': g.int(0, 9999), 'iter': int(g.chance(10)), 'rfirst': g.int(0, 1), 'grow': g.weighted([(60, 0), (25, 1), (15, 2)])}
    # derivative with respect to a view of one input, of a function of it
    leaves = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    w = g.pick(leaves)
    s = nodes[w]['v']['s'] or [1]
    case['w'] = w
    case['chain'] = views.gen_chain(g, s, g.weighted([(50, 1), (35, 2), (15, 3)]), index_pct=65)
    case['mode'] = g.pick(['fwd', 'rev', 'lop'])
    case['inside'] = int(g.chance(30))
    if g.chance(25):
        # the selecting operation itself, by positions in the flattened source
        n = gen.size_of(shp)
        case['sel'] = [gen_flat(g, n) for _ in range(g.int(1, 3))]
        case['upd'] = g.pick(['attr', 'set', 'call'])
    return case


def gen_flat(g, n):
    t = g.pick(['list', 'neg', 'mask', 'two', 'slice', 'uniq'])
    if t == 'slice':
        return {'k': t, 'v': [g.pick([None, 0, 1, -2]), g.pick([None, n, -1, 2]), g.pick([None, 1, 2, -1])]}
    if t == 'mask':
        return {'k': t, 'v': [g.int(0, 1) for _ in range(n)]}
    if t == 'uniq':
        return {'k': t, 'v': g.shuffled(list(range(n)))[:g.int(1, n)]}
    m = g.int(1, 4)
    v = [g.int(-n if t == 'neg' else 0, n - 1) for _ in range(2 * m if t == 'two' else m)]
    return {'k': t, 'v': [v[:m], v[m:]] if t == 'two' else v}


def flat_key(f):
    import numpy as np
    if f['k'] == 'slice':
        return slice(*f['v'])
    if f['k'] == 'mask':
        return np.array(f['v'], dtype=bool)
    return list(f['v']) if f['k'] == 'list' else np.array(f['v'])


def check_flat(case, ctx, base, bval, x, jac):
    """ch.Select with positions of any form, changed from one to the next."""
    import numpy as np
    import chumpy as ch
    from vlib.util import check_value, check_jac
    s = None
    for r, f in enumerate(case['sel']):
        key = flat_key(f)
        pos = np.arange(bval.size)[key]
        if s is None:
            s = ch.Select(a=base, idxs=key)
        elif case['upd'] == 'attr':
            s.idxs = key
        elif case['upd'] == 'set':
            s.set(idxs=key)
        else:
            s(idxs=key)
        where = 'Select by %s, form %d' % (f['k'], r)
        if case['rfirst']:
            check_value(s.r, bval.ravel()[pos], where + ': value', rtol=1e-9, atol=1e-10)
        S = np.zeros((pos.size, bval.size))
        S[np.arange(pos.size), pos.ravel()] = 1
        check_jac(s.dr_wrt(base), S, where + ': Jacobian', none_is_zero=False)
        check_value(s.r, bval.ravel()[pos], where + ': value', rtol=1e-9, atol=1e-10)
        if jac is not None:
            check_jac(ch.sin(s).dr_wrt(x), np.diag(np.cos(bval.ravel()[pos]).ravel()).dot(S).dot(jac), where + ': Jacobian of a function of it')
        if np.unique(pos).size == pos.size and pos.size:
            # as the independent variable
            g = ch.sin(base) * 2.0
            check_jac(g.dr_wrt(s), np.diag((2 * np.cos(bval)).ravel())[:, pos.ravel()], where + ': derivative with respect to it', none_is_zero=False)
        ctx.label('positions-' + f['k'])


def check(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_value, check_jac, dense
    nodes = [dict(n) for n in case['nodes']]
    built = ops.ch_build(ch, nodes)
    b = case['b']
    base = built[b]
    vals = ops.ref_eval(nodes)
    pos = np.arange(vals[b].size).reshape(vals[b].shape)
    v = base
    for k in case['keys']:
        v = v[ops.key_of(k)]
        pos = np.atleast_1d(pos[ops.key_of(k)])
    leaves = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    rng = np.random.RandomState(case['seed'])
    S = np.zeros((pos.size, vals[b].size))
    S[np.arange(pos.size), pos.ravel()] = 1
    for rnd in range(2):
        want = vals[b].ravel()[pos.ravel()].reshape(pos.shape)
        if case['rfirst']:
            check_value(v.r, want, 'round %d: value of the selection' % rnd, rtol=1e-9, atol=1e-10)
        J = v.dr_wrt(base)
        if base is not v:
            check_jac(J, S, 'round %d: Jacobian of the selection with respect to its source' % rnd, none_is_zero=False)
        check_value(v.r, want, 'round %d: value of the selection' % rnd, rtol=1e-9, atol=1e-10)
        require(len(v) == pos.shape[0] and tuple(v.shape) == pos.shape, 'len/shape of the selection are %s/%s, expected %s', len(v), v.shape, pos.shape)
        if ops.margin(nodes, vals, ops.needed(nodes, [b])) > 1e-3:
            for w in leaves:
                check_jac(v.dr_wrt(built[w]), S.dot(ops.ref_jac(nodes, b, w)), 'round %d: Jacobian of the selection with respect to input %d' % (rnd, w))
        # change the inputs and look again
        for w in leaves:
            nv = ops.dec(nodes[w]['v'])
            nv = nv + np.round(rng.uniform(0.01, 0.2, nv.shape) * 64) / 64
            built[w].x = nv.copy()
            nodes[w] = dict(nodes[w], v=ops.enc(nv))
        try:
            vals = ops.ref_eval(nodes)
        except np.linalg.LinAlgError:
            break
    if case.get('grow') and b in leaves:
        # the source gets more rows; a selection that addresses the same elements in the larger array stays what it is
        old = np.atleast_1d(vals[b])
        q = np.arange(old.size + case['grow'] * (old.size // max(1, old.shape[0]))).reshape((old.shape[0] + case['grow'],) + old.shape[1:])
        q0 = q
        try:
            for k in case['keys']:
                q = np.atleast_1d(q[ops.key_of(k)])
        except IndexError:
            q = None     # (a mask of the old shape)
        if q is not None and q.shape == pos.shape and np.array_equal(q, pos) and pos.size:
            nv = np.concatenate([old, old[:1].repeat(case['grow'], 0) + 1.5])
            base.x = nv.copy()
            S2 = np.zeros((pos.size, nv.size))
            S2[np.arange(pos.size), pos.ravel()] = 1
            if case['rfirst']:
                check_value(v.r, nv.ravel()[pos.ravel()].reshape(pos.shape), 'after the source grew: value of the selection', rtol=1e-12, atol=1e-12)
            check_jac(v.dr_wrt(base), S2, 'after the source grew: Jacobian of the selection', none_is_zero=False)
            check_value(v.r, nv.ravel()[pos.ravel()].reshape(pos.shape), 'after the source grew: value of the selection', rtol=1e-12, atol=1e-12)
            base.x = old.copy()
            check_jac(v.dr_wrt(base), S, 'after the source shrank again: Jacobian of the selection', none_is_zero=False)
            ctx.label('grown')
    if case.get('sel'):
        w = case['w']
        ok = ops.margin(nodes, vals, ops.needed(nodes, [b])) > 1e-3 and np.all(np.isfinite(vals[b]))
        if np.all(np.abs(np.atleast_1d(vals[b])) < 1e3):
            check_flat(case, ctx, base, np.atleast_1d(vals[b]), built[w], ops.ref_jac(nodes, b, w) if ok else None)
    if case['iter'] and b in leaves:
        got = [np.array(e.r) for e in base]
        x = vals[b]
        require(len(got) == len(x), 'iterating gives %d elements, expected %d', len(got), len(x))
        for e, f in zip(got, x):
            require(np.array_equal(np.atleast_1d(e), np.atleast_1d(f)), 'iterating gives %s, expected %s', e, f)
        ctx.label('iterate')
    # derivative with respect to a view
    w = case['w']
    x = built[w]
    s = np.shape(vals[w])
    p2 = views.positions(s, case['chain'])
    view = views.build(ch, x, case['chain'])
    check_value(view.r, vals[w].ravel()[p2.ravel()].reshape(p2.shape), 'value of the view', rtol=1e-12, atol=1e-12)
    wt = rng.randn(*s)
    f = ch.sin(x) * wt
    want = np.diag((np.cos(vals[w]) * wt).ravel())
    if case['inside']:
        # the view itself is also used in the expression: both paths count
        f = f.ravel() * ch.sum(view)
        sv = float(np.sum(vals[w].ravel()[p2.ravel()]))
        ind = np.zeros(x.size)
        ind[p2.ravel()] = 1
        want = want * sv + np.outer((np.sin(vals[w]) * wt).ravel(), ind)
        ctx.label('view-inside')
    want = want[:, p2.ravel()]
    if case['mode'] == 'fwd':
        J = f.dr_wrt(view)
    elif case['mode'] == 'rev':
        J = f.dr_wrt(view, reverse_mode=True)
    else:
        J = f.lop(view, np.eye(want.shape[0]))
        if want.size == 1 and np.size(J) == 1 and not hasattr(J, 'toarray'):
            J = np.reshape(np.asarray(J), (1, 1))
    check_jac(J, want, 'derivative with respect to a view (%s)' % case['mode'], none_is_zero=False)
    for k in case['keys']:
        ctx.label('key-%s' % ('tuple' if isinstance(k, list) else ('mask' if isinstance(k, dict) and 'mask' in k else ('array' if isinstance(k, dict) and 'ix' in k else 'single'))))
    for c in case['chain']:
        ctx.label('view-' + c['k'])
    return (0 < pos.size < vals[b].size) or len(case['keys']) > 1 or len(case['chain']) > 1
