"""C02: reported Jacobians are the true derivatives, for any composition."""
from vlib import ops

RULE = ('A random DAG of 1-8 operations (elementwise, broadcasting, reductions, products, linear algebra, rearranging, stacking, lambdas; '
        'shared sub-expressions and repeated operands) away from kinks is built; the Jacobian of the output (and sometimes of a second node) '
        'with respect to every input is compared entrywise with a complex-step derivative of an independent NumPy program. '
        'Arrays of more than 65536 elements are generated, too (derivatives, by their products with vectors). '
        'Non-trivial: at least two operations on a differentiable path and a non-zero Jacobian.')
CASES = {'quick': 14000, 'thorough': 500000}
ASSUMPTIONS = ['inputs are kept away from points where the composed function is not differentiable',
               'derivatives the library documents as not implemented (cumsum along an axis, tuple axes, norm with ord/axis) are not requested']


def generate(g, tier):
    from vlib import gen, large
    if g.chance(1):
        return large.gen_large(g, (large.ELEM, large.ELEM, large.RED))
    if g.chance(1):
        s = gen.shape(g, 24, 3)
        return {'fn': g.pick(['var', 'std']), 'v': ops.enc(gen.values(g, s, 'generic')), 'axis': g.pick([None] + list(range(-len(s), len(s))))}
    big = g.chance(6)
    if g.chance(3):
        d, made = gen.gen_empty(g)
    else:
        d, made = gen.gen_dag(g, 'deriv', max_ops=8, min_ops=2, max_size=60 if big else 24, max_ndim=g.pick([3, 3, 4]))
    outs = [gen.best_out(g, d, made)]
    if g.chance(30):
        outs.append(g.pick(made))
    nodes, mp = gen.prune(d.nodes, outs)
    return {'nodes': nodes, 'outs': [mp[o] for o in outs], 'rfirst': g.int(0, 1), 'again': g.int(0, 1), 'rev': g.int(0, 1)}


def check(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_jac
    if 'kind' in case:
        from vlib import large
        return large.check_large(case, ctx)
    if 'fn' in case:
        # whichever value var/std have (see known_findings.json for C01), the derivative must be that of the value
        v = ops.dec(case['v'])
        x = ch.array(v)
        y = getattr(ch, case['fn'])(x, axis=case['axis'])
        ax = case['axis']

        def plain(z):
            m = np.mean(z * z, axis=ax)
            return np.sqrt(m) if case['fn'] == 'std' else m

        def centred(z):
            c = z - (np.mean(z) if ax is None else np.expand_dims(np.mean(z, axis=ax), ax))
            m = np.mean(c * c, axis=ax)
            return np.sqrt(m) if case['fn'] == 'std' else m
        f = [h for h in (plain, centred) if np.allclose(np.atleast_1d(h(v)), y.r, 1e-9, 1e-12)]
        if not f or np.min(f[0](v)) < 1e-2:
            return False
        want = np.empty((y.size, v.size))
        for k in range(v.size):
            z = v.astype(complex)
            z.ravel()[k] += 1e-20j
            want[:, k] = np.imag(np.atleast_1d(f[0](z)).ravel()) / 1e-20
        check_jac(y.dr_wrt(x), want, 'derivative of %s with axis=%s' % (case['fn'], ax))
        ctx.label(case['fn'])
        return True
    nodes = case['nodes']
    built = ops.ch_build(ch, nodes)
    leaves = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    nt = False
    for rnd in range(2 if case['again'] else 1):
        for out in case['outs']:
            y = built[out]
            if nodes[out]['o'] in ('leaf', 'const'):
                continue
            if case['rfirst']:
                _ = y.r
            for w in (leaves[::-1] if case['rev'] ^ rnd else leaves):
                J = y.dr_wrt(built[w])
                want = ops.ref_jac(nodes, out, w)
                check_jac(J, want, 'd node %d (%s) / d input %d' % (out, nodes[out]['o'], w))
                if np.any(want):
                    nt = True
                if want.size == 0:
                    ctx.label('empty')
    for i, n in enumerate(nodes):
        if n['o'] not in ('leaf', 'const'):
            ctx.label(n['o'])
    nops = sum(1 for n in nodes if n['o'] not in ('leaf', 'const'))
    return nt and nops >= 2
