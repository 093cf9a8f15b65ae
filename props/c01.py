"""C01: the value of any composed expression is what NumPy computes."""
from vlib import ops

RULE = ('A random DAG of 1-10 operations over 1-3 input arrays (1-4 dims, broadcasting, shared operands, raw-array and scalar operands, '
        'operator/function/keyword spellings, special and non-finite values) is built in chumpy; each node value, read in a random order, '
        'is compared with the NumPy function applied to the operand values. Arrays of more than 65536 elements are generated, too (values), and single calls with the optional arguments by position, by keyword or left out. Non-trivial: at least two operations and no operand exhausted '
        'to a single element throughout.')
CASES = {'quick': 24000, 'thorough': 800000}
ASSUMPTIONS = ['power results that overflow to infinity, also within norm, var and std, are outside the property (the library documents replacing them)']

# one rounding per element: no cancellation to allow for
ELEM = set(['exp', 'log', 'sqrt', 'square', 'absolute', 'negative', 'reciprocal', 'nan_to_num', 'floor', 'ceil', 'sign', 'add', 'subtract', 'multiply', 'divide', 'maximum',
            'minimum', 'NanDivide', 'greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal', 'all', 'any', 'isfinite', 'isinf', 'isnan', 'isneginf', 'isposinf',
            'logical_not', 'amax', 'amin', 'max', 'min', 'nanmax', 'nanmin', 'clip', 'arctan', 'getitem', 'reshape', 'transpose', 'sort', 'tile', 'repeat', 'roll', 'concatenate'])


def generate(g, tier):
    from vlib import forms, gen, large
    if g.chance(4):
        return forms.gen_form(g)
    if g.chance(1):
        return dict(large.gen_large(g, (large.ELEM, large.RED, large.MOVE)), values=1)
    if g.chance(2):
        s = gen.shape(g, 24, 3)
        return {'fn': g.pick(['var', 'std']), 'v': ops.enc(gen.values(g, s)), 'axis': g.pick([None] + list(range(-len(s), len(s))))}
    kind = g.weighted([(45, None), (25, 'special'), (20, 'nonfinite'), (10, 'ties')])
    big = g.chance(10)
    if g.chance(2):
        d, made = gen.gen_empty(g)
    else:
        d, made = gen.gen_dag(g, 'value', max_ops=10, min_ops=2, vkind=kind, max_size=150 if big else 24, max_ndim=4)
    out = gen.best_out(g, d, made)
    nodes, mp = gen.prune(d.nodes, [out] + ([g.pick(made)] if g.chance(40) else []))
    n = len(nodes)
    return {'nodes': nodes, 'order': [g.int(0, n - 1) for _ in range(g.int(0, 4))]}


def check(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_value, fail
    if 'kind' in case:
        from vlib import forms, large
        if case['kind'] == 'form':
            return forms.check_form(case, ctx)
        return large.check_large(case, ctx)
    if 'fn' in case:
        # recorded in known_findings.json: var and std do not subtract the mean
        x = ops.dec(case['v'])
        got = getattr(ch, case['fn'])(ch.array(x), axis=case['axis']).r
        ctx.label(case['fn'])
        wrong = np.atleast_1d(np.mean(x ** 2, axis=case['axis']))
        if case['fn'] == 'std':
            wrong = np.sqrt(wrong)
        want = np.atleast_1d(getattr(np, case['fn'])(x, axis=case['axis']))
        if got.shape == want.shape and not np.allclose(got, want, 1e-7, 1e-9) and np.allclose(got, wrong, 1e-9, 1e-12):
            ctx.known('var-std-not-centred')
            return True
        check_value(got, want, 'value of %s with axis=%s' % (case['fn'], case['axis']), rtol=1e-7, atol=1e-9)
        return True
    nodes = case['nodes']
    built = ops.ch_build(ch, nodes)
    seq = [len(nodes) - 1] + case['order'] + list(range(len(nodes) - 1, -1, -1))
    seen, val = set(), {}
    for i in seq:
        if nodes[i]['o'] == 'const' or i in seen:
            continue
        seen.add(i)
        val[i] = built[i].r
    nop = 0
    for i, n in enumerate(nodes):
        if n['o'] == 'const':
            val[i] = ops.dec(n['v'])
            continue
        if n['o'] == 'leaf':
            check_value(val[i], np.atleast_1d(ops.dec(n['v'])), 'input %d' % i, rtol=0, atol=0)
            continue
        nop += 1
        ctx.label(n['o'])
        if val[i].size == 0:
            ctx.label('empty')
        args = [val[j] for j in n['a']]
        want = np.atleast_1d(np.asarray(ops.OPS[n['o']].ref(args, n.get('p') or {}), dtype=np.float64))
        if n['o'] == 'power' and np.isinf(want).any():
            # (finite results and those that are not a number are still compared)
            require(val[i].shape == want.shape, 'value of node %d (power) has shape %s, expected %s', i, val[i].shape, want.shape)
            keep = ~np.isinf(want)
            if not keep.any():
                continue
            check_value(val[i][keep], want[keep], 'value of node %d (power)' % i, rtol=1e-9, atol=1e-13)
            continue
        if n['o'] in ('norm', 'var', 'std') and any(np.abs(np.asarray(a, dtype=np.float64)).max(initial=0) > 1e150 for a in args):
            continue     # a square overflows in these
        mag = 1.0
        for a in args:
            a = np.abs(np.asarray(a, dtype=np.float64))
            a = a[np.isfinite(a)]
            mag = max(mag, float(a.max()) if a.size else 1.0)
        check_value(val[i], want, 'value of node %d (%s)' % (i, n['o']), rtol=1e-9, atol=1e-13 * (1.0 if n['o'] in ELEM else mag * mag))
        y = built[i]
        require(tuple(y.shape) == want.shape, 'shape of node %d is %s, expected %s', i, y.shape, want.shape)
        require(y.size == want.size and y.ndim == want.ndim and len(y) == len(want),
                'size/ndim/len of node %d are %s/%s/%s, expected those of shape %s', i, y.size, y.ndim, len(y), want.shape)
    if len(nodes) > 12:
        ctx.label('large-graph')
    last = val[len(nodes) - 1]
    if not np.all(np.isfinite(last)):
        ctx.label('nonfinite-result')
    return nop >= 2 and max(np.size(v) for v in val.values()) > 1
