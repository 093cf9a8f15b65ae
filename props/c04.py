"""C04: every way of asking for a derivative gives the same matrix."""
from vlib import ops, views

RULE = ('A random differentiable DAG is built; derivatives of one or two nodes with respect to inputs, intermediate results (treated as independent) and '
        'selections/views of inputs are requested in forward mode, reverse mode, by left multiplication (dense, sparse, one or several rows, two entry points) '
        'in a random order on one graph, with dense/sparse representation requested on some nodes; each answer is compared with the complex-step derivative. '
        'Non-trivial: at least two different routes queried, at least two operations, and a non-zero derivative.')
CASES = {'quick': 6500, 'thorough': 300000}
ASSUMPTIONS = ['points away from kinks; intermediates that are themselves rearrangements of an array are not used as independent variables']

INDEP = set(['exp', 'sin', 'cos', 'tan', 'arctan', 'sqrt', 'square', 'negative', 'absolute', 'add', 'subtract', 'multiply', 'divide', 'power',
             'sum', 'mean', 'dot', 'SumOfSquares', 'maximum', 'minimum', 'inv', 'MatVecMult', 'cross', 'clip', 'amax', 'amin', 'cumsum', 'lambda'])

CLASSES = set(['exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'sqrt', 'square', 'reciprocal', 'add', 'subtract', 'multiply', 'divide', 'power',
               'dot', 'maximum', 'minimum', 'sum', 'mean', 'cumsum'])


def generate(g, tier):
    from vlib import gen
    d, made = gen.gen_dag(g, 'deriv', max_ops=8, min_ops=2, max_size=20)
    outs = [gen.best_out(g, d, made)]
    if g.chance(30):
        outs.append(g.pick(made))
    nodes, mp = gen.prune(d.nodes, outs)
    outs = [mp[o] for o in outs]
    shp = {mp[o]: list(d.vals[o].shape) for o in mp if d.ch[o]}
    leaves = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    inter = [i for i, n in enumerate(nodes) if n['o'] in INDEP]
    qs = []
    for _ in range(g.int(3, 8)):
        o = g.pick(outs)
        t = g.weighted([(50, 'leaf'), (25, 'inter'), (25, 'view')])
        q = {'o': o, 'r': g.pick(['fwd', 'rev', 'lop', 'lmult', 'rev', 'lop'])}
        c = [i for i in inter if i != o and i in ops.needed(nodes, [o])]
        if t == 'inter' and c:
            q['w'] = g.pick(c)
        else:
            q['w'] = g.pick(leaves)
            if t == 'view':
                q['view'] = views.gen_chain(g, shp[q['w']], g.int(1, 2))
        if q['r'] in ('lop', 'lmult'):
            q['k'] = g.int(1, 3)
            q['seed'] = g.int(0, 999)
            q['sp'] = int(q['r'] == 'lmult' and g.chance(30))
            q['eye'] = int(g.chance(15))
        if 'view' in q and qs and g.chance(40):
            q['same'] = 1   # reuse the view object of an equal earlier query if any
        qs.append(q)
    rep = {}
    if g.chance(35):
        c = [i for i in range(len(nodes)) if nodes[i]['o'] in CLASSES]
        if c:
            for i in ([outs[0]] if outs[0] in c else []) + g.subset(c, 1)[:3]:
                rep[str(i)] = g.pick(['make_dense', 'make_sparse'])
    return {'nodes': nodes, 'qs': qs, 'rep': rep}


class Build(object):
    """The library's namespace with a representation request attached to what is built from it."""

    def __init__(self, ch, how):
        self._ch, self._how = ch, how

    def __getattr__(self, n):
        f = getattr(self._ch, n)
        return lambda *a, **k: f(*a, **dict(k, **{self._how: True}))


def check(case, ctx):
    import numpy as np
    import scipy.sparse as sp
    import chumpy as ch
    from vlib.util import require, check_jac, fail
    nodes = case['nodes']
    built = {}
    for i, n in enumerate(nodes):
        if str(i) in case['rep']:
            p = dict(n.get('p') or {}, via='fn')
            built[i] = ops.OPS[n['o']].build(Build(ch, case['rep'][str(i)]), [built[j] for j in n['a']], p)
        else:
            built[i] = ops.ch_build(ch, nodes[i:i + 1])[0] if n['o'] in ('leaf', 'const') else \
                ops.OPS[n['o']].build(ch, [built[j] for j in n['a']], n.get('p') or {})
    base = ops.ref_eval(nodes)
    routes, nz = set(), False
    vcache = {}
    for qi, q in enumerate(case['qs']):
        o, w = q['o'], q['w']
        if o == w:
            continue
        want = ops.ref_jac(nodes, o, w, base)
        wrt = built[w]
        if 'view' in q:
            pos = views.positions(np.shape(base[w]), q['view'])
            key = (w, repr(q['view']))
            if q.get('same') and key in vcache:
                wrt = vcache[key]
            else:
                wrt = views.build(ch, built[w], q['view'])
                vcache[key] = wrt
            want = want[:, pos.ravel()]
        y = built[o]
        what = 'd node %d (%s) / d node %d%s by %s' % (o, nodes[o]['o'], w, ' view' if 'view' in q else '', q['r'])
        if q['r'] == 'fwd':
            J = y.dr_wrt(wrt)
        elif q['r'] == 'rev':
            J = y.dr_wrt(wrt, reverse_mode=True)
        else:
            m = want.shape[0]
            lhs = np.eye(m) if q['eye'] else np.round(np.random.RandomState(q['seed']).randn(q['k'], m) * 64) / 64
            want = lhs.dot(want)
            L = sp.csr_matrix(lhs) if q['sp'] else lhs.copy()
            if q['r'] == 'lop':
                J = y.lop(wrt, L)
            else:
                J = y.lmult_wrt(L, wrt)
            if not q['sp']:
                require(np.array_equal(L, lhs), '%s changed the multiplier it was given', what)
            if J is not None and not sp.issparse(J) and want.size == 1 and np.size(J) == 1:
                J = np.reshape(np.asarray(J, dtype=np.float64), (1, 1))
        if q['r'] in ('fwd', 'rev') and J is not None:
            how = case['rep'].get(str(o))
            if how == 'make_dense':
                require(not sp.issparse(J), '%s is sparse although dense was requested', what)
            if how == 'make_sparse':
                require(sp.issparse(J), '%s is dense although sparse was requested', what)
        check_jac(J, want, what)
        routes.add(q['r'])
        nz = nz or bool(np.any(want))
        ctx.label('%s-%s' % (q['r'], 'view' if 'view' in q else ('input' if nodes[w]['o'] == 'leaf' else 'intermediate')))
    if case['rep']:
        ctx.label('representation')
    return len(routes) >= 2 and nz and sum(1 for n in nodes if n['o'] not in ('leaf', 'const')) >= 2
