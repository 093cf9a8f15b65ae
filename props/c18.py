"""C18: a derivative is absent exactly when there is no differentiable dependence."""
from vlib import ops

RULE = ('A random DAG mixing differentiable operations with comparisons, rounding, signs and logical tests (as masks, as operands, in stacks, reductions, products and deferred functions) is built; for the outputs and '
        'every input (and unrelated inputs, intermediates, selections of inputs, and nodes that use the output instead of being used by it) the derivative is requested forward, in reverse, and as left product. A path analysis of the generated program decides '
        'when it must be absent; complex-step differentiation decides when it must not be and what it is; where there is dependence, a left product with zeros must be zero and not absent. '
        'Non-trivial: at least one answer had to be absent although the variable occurs in the expression, or an expression mixed both kinds of path.')
CASES = {'quick': 8000, 'thorough': 300000}
ASSUMPTIONS = ['points away from kinks and thresholds', 'for x-x and x/x of one object, which cancel, either answer is accepted']

BLOCK = set(['floor', 'ceil', 'sign', 'greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal', 'all', 'any',
             'isfinite', 'isinf', 'isnan', 'isneginf', 'isposinf', 'logical_not', 'signdet'])

TABLE = [(14, 'op_unary'), (22, 'op_binary'), (8, 'op_reduce'), (2, 'op_clip'), (6, 'op_dot'), (2, 'op_tensordot'), (2, 'op_cross'), (2, 'op_matvec'),
         (2, 'op_linalg'), (2, 'op_nandiv'), (22, 'op_nodrv'), (14, 'op_mask'), (10, 'op_reorder'), (8, 'op_stack'), (5, 'op_lambda')]


def generate(g, tier):
    from vlib import gen
    d, made = gen.gen_dag(g, 'deriv', max_ops=8, min_ops=2, max_size=16, table=TABLE)
    outs = [gen.best_out(g, d, made)]
    for _ in range(g.int(0, 2)):
        outs.append(g.pick(made))
    # further variables that the outputs may or may not use
    keep = outs + [i for i, n in enumerate(d.nodes) if n['o'] == 'leaf' and g.chance(50)]
    nodes, mp = gen.prune(d.nodes, keep)
    outs = [mp[o] for o in outs]
    qs = []
    leaves = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    ch = [i for i, n in enumerate(nodes) if n['o'] != 'const']
    for _ in range(g.int(2, 8)):
        t = g.weighted([(70, 'leaf'), (12, 'any'), (8, 'sel'), (5, 'above'), (5, 'alien')])
        o = g.pick(outs) if g.chance(80) else g.pick(ch)
        q = {'o': o, 't': t, 'm': g.pick(['fwd', 'rev', 'fwd', 'rev', 'lop', 'lmult'])}
        q['w'] = g.pick(leaves) if t in ('leaf', 'sel') else g.pick(ch)
        if g.chance(25):
            q['zero'] = g.int(1, 2)
        if t == 'sel':
            q['key'] = gen.index_key(g, list(nodes[q['w']]['v']['s']) or [1], allow_adv=False)
        qs.append(q)
    return {'nodes': nodes, 'qs': qs}


def reach(nodes, out, wrt, built=None):
    """Is there a path from out to wrt through differentiable operations only?"""
    todo, seen = [out], set()
    while todo:
        i = todo.pop()
        if i == wrt:
            return True
        if i in seen:
            continue
        seen.add(i)
        n = nodes[i]
        if n['o'] in BLOCK:
            continue
        a = list(n.get('a', ()))
        if built is not None and n['o'] in ('subtract', 'divide', 'NanDivide') and built[a[0]] is built[a[1]]:
            continue     # cancels
        if n['o'] == 'lambda':
            p = n['p']['f']
            if p == 'unused':
                a = a[:1]
        todo += a
    return False


def check(case, ctx):
    import numpy as np
    import scipy.sparse as sp
    import chumpy as ch
    from vlib.util import require, check_jac, fail
    nodes = case['nodes']
    built = ops.ch_build(ch, nodes)
    base = ops.ref_eval(nodes)
    nt = False
    for q in case['qs']:
        o, w = q['o'], q['w']
        y, x = built[o], built[w]
        if q['t'] == 'any' and (o == w or nodes[w]['o'] not in INDEP and nodes[w]['o'] != 'leaf'):
            continue
        if o == w:
            continue
        what = 'derivative of node %d (%s) with respect to %s %d (%s), %s' % (o, nodes[o]['o'], q['t'], w, nodes[w]['o'], q['m'])
        want = None
        if q['t'] == 'above':
            above = [built[i] for i in range(len(nodes)) if i != o and nodes[i]['o'] not in ('leaf', 'const') and o in ops.needed(nodes, [i])
                     and nodes[i]['o'] in INDEP]
            if not above:
                continue
            x, path = above[q['w'] % len(above)], False
        elif q['t'] == 'alien':
            x, path = (ch.Ch(np.array(x.r)) if q['w'] % 2 else ch.sin(built[o])), False
        else:
            path = reach(nodes, o, w)
            want = ops.ref_jac(nodes, o, w, base)
            if q['t'] == 'sel':
                pos = np.arange(np.size(base[w])).reshape(np.shape(base[w]))[ops.key_of(q['key'])]
                x = built[w][ops.key_of(q['key'])]
                want = want[:, np.ravel(pos)]
        m = y.size
        if q['m'] == 'fwd':
            J = y.dr_wrt(x)
        elif q['m'] == 'rev':
            J = y.dr_wrt(x, reverse_mode=True)
        else:
            lhs = np.eye(m)
            J = y.lop(x, lhs) if q['m'] == 'lop' else y.lmult_wrt(lhs, x)
            if J is not None and want is not None and want.size == 1 and not sp.issparse(J) and np.size(J) == 1:
                J = np.reshape(np.asarray(J, dtype=np.float64), (1, 1))
        if not path:
            require(J is None, '%s is present although there is no differentiable dependence', what)
            if want is not None:
                require(not np.any(want), 'harness: path analysis disagrees with the reference for %s', what)
            if w in ops.needed(nodes, [o]) and q['t'] in ('leaf', 'sel', 'any'):
                ctx.label('blocked')
                nt = True
        else:
            strict = reach(nodes, o, w, built)
            check_jac(J, want, what, none_is_zero=not strict)
            if strict and q.get('zero'):
                # nothing to pass on is not the same as no dependence
                lhs = np.zeros((1, m)) if q['zero'] == 1 else np.zeros((2, m))
                Z = y.lop(x, lhs) if q['m'] != 'rev' else y.lmult_wrt(lhs, x)
                require(Z is not None, '%s: the product with zeros is absent although there is a differentiable dependence', what)
                Z = np.asarray(Z.todense() if sp.issparse(Z) else Z, dtype=np.float64)
                require(not np.any(Z) or not np.all(np.isfinite(want)), '%s: the product with zeros is not zero', what)
                ctx.label('product-with-zeros')
            if any(nodes[i]['o'] in BLOCK and w in ops.needed(nodes, [i]) for i in ops.needed(nodes, [o])):
                ctx.label('mixed')
                nt = True
        ctx.label(q['t'], q['m'])
    return nt


INDEP = set(['exp', 'sin', 'cos', 'tan', 'arctan', 'sqrt', 'square', 'negative', 'absolute', 'add', 'subtract', 'multiply', 'divide', 'power',
             'sum', 'mean', 'dot', 'SumOfSquares', 'maximum', 'minimum', 'MatVecMult', 'cross', 'clip', 'amax', 'amin', 'cumsum',
             'floor', 'ceil', 'sign', 'greater', 'less', 'equal'])
