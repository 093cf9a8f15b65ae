"""C17: queries have no side effects and their results are safe to keep."""
from vlib import ops

RULE = ('Two random graphs (often of the same form over different inputs, so that shape-keyed caches are shared) are built from arrays the check holds on to. A random history of value queries, '
        'Jacobian queries (forward, reverse, left products) on any node, whole and partial input changes and redefinitions of nothing else is run; every result is kept. After every step all kept results, '
        'all arrays ever handed to the library (operands, input arrays, multipliers, index arrays) and all unchanged inputs must be bit-identical to snapshots, returned values must refuse writing, '
        'a repeated query must return the same numbers, and values and derivatives of both graphs must equal the reference for their own inputs. '
        'Non-trivial: at least one input change after at least two results were kept, with a Jacobian among them.')
CASES = {'quick': 4500, 'thorough': 200000}
ASSUMPTIONS = ['the program does not write into arrays it handed to the library or into Jacobians it received',
               'points away from kinks for the derivative comparisons']


def generate(g, tier):
    from vlib import gen
    d, made = gen.gen_dag(g, 'deriv', max_ops=6, min_ops=1, max_size=16)
    o = gen.best_out(g, d, made)
    nodes, mp = gen.prune(d.nodes, [o])
    graphs = [nodes]
    if g.chance(60):
        # the same form over other inputs (its own leaves), perturbed
        n2 = []
        for n in nodes:
            n = dict(n)
            if n['o'] in ('leaf', 'const') and isinstance(n['v'], dict):
                n['v'] = {'s': n['v']['s'], 'd': [x * 1.125 + 0.0625 for x in n['v']['d']]}
            n2.append(n)
        graphs.append(n2)
    else:
        d2, made2 = gen.gen_dag(g, 'deriv', max_ops=4, min_ops=1, max_size=16)
        graphs.append(gen.prune(d2.nodes, [gen.best_out(g, d2, made2)])[0])
    steps = []
    for _ in range(g.int(4, 12)):
        k = g.int(0, 1) if g.chance(40) else 0
        ns = graphs[k]
        lv = [i for i, n in enumerate(ns) if n['o'] == 'leaf']
        t = g.weighted([(26, 'r'), (24, 'dr'), (14, 'rev'), (12, 'lop'), (16, 'set'), (8, 'item')])
        s = {'t': t, 'g': k}
        if t in ('r', 'dr', 'rev', 'lop'):
            c = [i for i, n in enumerate(ns) if n['o'] != 'const']
            s['n'] = len(ns) - 1 if g.chance(55) else g.pick(c)
            s['w'] = g.pick(lv)
            s['again'] = int(g.chance(25))
            if t == 'lop':
                s['k'], s['seed'] = g.int(1, 2), g.int(0, 99)
        else:
            i = g.pick(lv)
            s['n'] = i
            shp = ns[i]['v']['s']
            if t == 'set':
                # a small change, so that the graph stays in its domain
                s['f'] = g.pick([1.03125, 0.96875, 1.0625])
            else:
                s['at'] = g.int(0, gen.size_of(shp) - 1) if shp else 0
                s['f'] = g.pick([1.03125, 0.96875])
        steps.append(s)
    return {'graphs': graphs, 'steps': steps}


def parts(r):
    """The arrays a result consists of."""
    import numpy as np
    import scipy.sparse as sp
    if r is None or not hasattr(r, 'shape'):
        return []
    if sp.issparse(r):
        return [getattr(r, a) for a in ('data', 'indices', 'indptr', 'row', 'col', 'offsets') if isinstance(getattr(r, a, None), np.ndarray)]
    if isinstance(r, np.ndarray):
        return [r]
    return []


def check(case, ctx):
    import numpy as np
    import scipy.sparse as sp
    import chumpy as ch
    from vlib.util import require, check_value, check_jac, dense, close
    held = []
    ops.TRACK = held
    try:
        built = [ops.ch_build(ch, ns) for ns in case['graphs']]
    finally:
        ops.TRACK = None
    held = [(a, a.copy()) for a in held]
    specs = [[dict(n) for n in ns] for ns in case['graphs']]
    leaves = [[i for i, n in enumerate(ns) if n['o'] == 'leaf'] for ns in specs]
    kept = []
    change_after = False
    njac = 0
    margin = {}

    def ok(k):
        """still away from kinks?"""
        if k not in margin:
            with np.errstate(all='ignore'):
                margin[k] = ops.margin(specs[k], ops.ref_eval(specs[k]), range(len(specs[k]))) > 1e-3
        return margin[k]

    def verify(what):
        for a, c in held:
            require(np.array_equal(a, c), '%s modified an array that was handed to the library', what)
        for (w0, ps, cs) in kept:
            for a, c in zip(ps, cs):
                require(a.shape == c.shape and a.tobytes() == c.tobytes(), '%s changed the earlier result of %s', what, w0)
        for k in (0, 1):
            for i in leaves[k]:
                v = np.atleast_1d(ops.dec(specs[k][i]['v']))
                require(np.array_equal(np.atleast_1d(np.asarray(built[k][i].x)), v), '%s changed the value of input %d of graph %d', what, i, k)

    def query(s):
        y, x = built[s['g']][s['n']], built[s['g']][s['w']]
        if s['t'] == 'r':
            return y.r
        if s['t'] == 'dr':
            return y.dr_wrt(x)
        if s['t'] == 'rev':
            return y.dr_wrt(x, reverse_mode=True)
        lhs = np.round(np.random.RandomState(s['seed']).randn(s['k'], y.size) * 64) / 64
        held.append((lhs, lhs.copy()))
        return y.lop(x, lhs)

    for s in case['steps']:
        k, i = s['g'], s['n']
        ns = specs[k]
        what = '%s of node %d (%s) in graph %d' % (s['t'], i, ns[i]['o'], k)
        if s['t'] in ('set', 'item'):
            v = np.atleast_1d(ops.dec(ns[i]['v'])).copy()
            x = built[k][i]
            if s['t'] == 'set':
                v = v * s['f']
                x.x = v
                held.append((v, v.copy()))
            else:
                at = np.unravel_index(s['at'], v.shape)
                v[at] *= s['f']
                x[at] = v[at]
            ns[i]['v'] = ops.enc(v)
            margin.pop(k, None)
            if len(kept) >= 2 and njac:
                change_after = True
        else:
            with np.errstate(all='ignore'):
                base = ops.ref_eval(ns)
                if not all(np.all(np.isfinite(np.asarray(b, dtype=np.float64))) for b in base.values()) or not ok(k):
                    continue
            if s['t'] == 'lop' and not ops.depends(ns, i, s['w']):
                continue
            if s['t'] == 'lop' and i == s['w']:
                continue
            res = query(s)
            kept.append((what, parts(res), [p.copy() for p in parts(res)]))
            if s['t'] == 'r':
                check_value(res, base[i], what)
                require(not res.flags.writeable, 'the value returned for %s can be written to', what)
                try:
                    res[...] = 0.0
                    require(False, 'the value returned for %s accepts writing', what)
                except ValueError:
                    pass
            else:
                want = ops.ref_jac(ns, i, s['w'], base) if i != s['w'] else np.eye(base[i].size)
                if s['t'] == 'lop':
                    want = held[-1][1].dot(want)
                J = res
                if J is not None and not sp.issparse(J) and want.size == 1 and np.size(J) == 1:
                    J = np.reshape(np.asarray(J, dtype=np.float64), (1, 1))
                check_jac(J, want, what)
                njac += 1
            if s['again']:
                r2 = query(s)
                require((res is None) == (r2 is None), 'asking for %s again gives a different answer', what)
                if res is not None:
                    a, b = dense(res), dense(r2)
                    require(a.shape == b.shape and np.array_equal(a, b), 'asking for %s again gives a different answer', what)
        ctx.label(s['t'])
        verify(what)
    return change_after
