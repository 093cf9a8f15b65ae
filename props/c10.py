"""C10: removing redundancy preserves meaning."""
import copy
from vlib import ops

RULE = ('A random differentiable DAG in which sub-expressions were rebuilt one to three times over the same inputs, with other operations repeated with exchanged operands or other parameters (which must stay separate), and which contains inputs with equal values or made from one array (3 %: operations that differ in one entry of a large array of positions, a matrix or a limit, by as little as 1e-11); some values and derivatives are queried, remove_redundancy is called (sometimes twice, sometimes on an inner node), '
        'then values and derivatives of all nodes still in the expression are compared with the NumPy model, before and after further changes of the inputs. Duplicates without raw operands must have become one object. '
        'Non-trivial: at least one duplicated sub-expression.')
CASES = {'quick': 5000, 'thorough': 250000}
ASSUMPTIONS = ['points closer than 1e-3 to a kink are skipped']

PARAMS = ('clip', 'sum', 'mean', 'amax', 'amin', 'roll', 'tile', 'repeat', 'getitem', 'transpose', 'swapaxes', 'rot90', 'diag', 'reshape')


def generate(g, tier):
    from vlib import gen
    if g.chance(3):
        # the same operation of the same operand with parameters that are alike, but not the same
        k = g.pick(['select', 'select', 'matvec', 'clip', 'clipf'])
        n = g.pick([1100, 1500]) if k in ('select', 'clip') and g.chance(60) else (g.pick([34, 40]) if k == 'matvec' and g.chance(50) else g.int(2, 6))
        return {'kind': 'twins', 'k': k, 'n': n, 'seed': g.int(0, 9999), 'eps': g.pick([1e-9, 3e-9, 1e-11]), 'more': g.int(0, 2), 'deep': g.int(0, 1), 'one': g.int(0, 1)}
    d = gen.Dag(g, 'deriv', 12, 3)
    n = g.int(1, 3)
    d.leaf()
    for _ in range(n - 1):
        if g.chance(40):
            d.leaf(val=d.vals[0].copy())      # an input with equal values
            d.nodes[-1].pop('via', None)
        else:
            d.leaf()
    made = d.grow(g.int(2, 6), gen.Dag.DERIV_OPS)
    dups = []
    if not made:
        made = [d.apply('sin', [0])]
    for _ in range(g.weighted([(65, 1), (25, 2), (10, 3)])):
        src = g.pick(made)
        # rebuild src over the same inputs (and the same raw operand objects or equal ones)
        mp = {}
        for i in ops.needed(d.nodes, [src]):
            nd = d.nodes[i]
            if nd['o'] in ('leaf', 'const') or (i != src and g.chance(40)):
                mp[i] = i
            else:
                c = copy.deepcopy(nd)
                c['a'] = [mp[j] for j in nd['a']]
                c['dup'] = i
                mp[i] = d._push(c, d.vals[i], True)
        k = mp[src]
        dups.append((src, k))
        # use both
        o = g.pick(['add', 'multiply', 'subtract'])
        j = d.apply(o, [src, k] if g.chance(50) else [k, src], {'via': 'op'})
        if j is not None and g.chance(60):
            j2 = d.apply('sin', [j])
            j = j2 if j2 is not None else j
        if j is not None:
            made.append(j)
            if g.chance(40):
                m = d.operand_for(d.vals[j].shape, raw_ok=False)
                j3 = d.apply('add', [j, m], {'via': 'op'})
                if j3 is not None:
                    made.append(j3)
    for _ in range(g.weighted([(45, 0), (40, 1), (15, 2)])):
        # near duplicates, which have to stay separate: operands exchanged or other parameters
        two = [i for i in range(len(d.nodes)) if len(d.nodes[i].get('a', ())) == 2 and d.nodes[i]['a'][0] != d.nodes[i]['a'][1]]
        par = [i for i in range(len(d.nodes)) if d.nodes[i].get('p') and d.nodes[i]['o'] in PARAMS]
        if not two and not par:
            i, j = made[-1], d.operand_for(d.vals[made[-1]].shape, raw_ok=False)
            r = d.apply(g.pick(['subtract', 'multiply']), [i, j], {'via': 'op'})
            two = [r] if r is not None else []
        if two and (not par or g.chance(60)):
            i = g.pick(two)
            q = d.apply(d.nodes[i]['o'], d.nodes[i]['a'][::-1], dict(d.nodes[i].get('p') or {}, **({'via': 'fn'} if d.nodes[i]['o'] == 'dot' else {})))
        elif par:
            i = g.pick(par)
            n = d.nodes[i]
            o = n['o']
            v = d.vals[n['a'][0]]
            if o == 'clip':
                q = d.op_clip()
            elif o in ('sum', 'mean', 'amax', 'amin'):
                ax = g.int(-v.ndim, v.ndim - 1)
                q = d.apply(o, n['a'], dict(n['p'], axis=ax)) if o in ('sum', 'mean') or d._sep(v, ax, o) else None
            else:
                pp = d.reorder_params(o, v)
                q = d.apply(o, n['a'], pp) if pp is not None else None
        else:
            continue
        if q is None:
            continue
        if not d._bc(d.vals[i].shape, d.vals[q].shape):
            i, q = d.apply('SumOfSquares', [i]), d.apply('sum', [q], {'axis': None, 'via': 'fn'})
        j = d.apply(g.pick(['add', 'multiply', 'subtract']), [i, q], {'via': 'op'}) if i is not None and q is not None else None
        if j is None:
            continue
        m = made[-1]
        if not d._bc(d.vals[j].shape, d.vals[m].shape):
            m = d.apply('sum', [m], {'axis': None, 'via': 'fn'})
        j2 = d.apply('add', [j, m], {'via': 'op'}) if m is not None else None
        made.append(j2 if j2 is not None else j)
    out = made[-1]
    nodes, mp = gen.prune(d.nodes, [out])
    for n in nodes:
        if 'dup' in n:
            n['dup'] = mp.get(n['dup'])
    inner = [i for i, n in enumerate(nodes) if n['o'] not in ('leaf', 'const')]
    leaves = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    pre = [{'n': g.pick(inner), 'w': g.pick([None] + leaves)} for _ in range(g.int(0, 4))]
    post = [{'l': g.pick(leaves), 'v': None, 'how': g.pick(['x', 'item', 'elem']), 's': g.int(0, 999)} for _ in range(g.int(1, 4))]
    return {'nodes': nodes, 'out': mp[out], 'pre': pre, 'post': post, 'twice': int(g.chance(20)), 'inner': g.pick(inner) if g.chance(15) else None, 'onearray': int(g.chance(30))}


def check_twins(case, ctx):
    import numpy as np
    import scipy.sparse as sp
    import chumpy as ch
    from vlib.util import require, short
    rng = np.random.RandomState(case['seed'])
    n, k = case['n'], case['k']
    x0 = rng.randn(n) + 3.0
    pars = []
    for i in range(2 + case['more']):
        r2 = np.random.RandomState(case['seed'] + 1)
        if k == 'select':
            p = np.arange(n)
            a, b = n // 2, max(0, n // 2 - 1 - (i > 2 and n > 8))
            if i % 2:
                p[[a, b]] = p[[b, a]]
        elif k == 'matvec':
            p = r2.randn(n, n)
            p[n // 2, n // 2] += case['eps'] * (i % 2)
        elif k == 'clip':
            p = np.ones(n) * 1.25
            p[n // 2] += case['eps'] * (i % 2)
        else:
            p = 1.25 + case['eps'] * (i % 2)
        pars.append(p)
    if case['one'] and len(pars) > 2:
        pars[2] = pars[0]
    x = ch.Ch(x0.copy())

    def make(p):
        if k == 'select':
            y = ch.sin(x)[p]
        elif k == 'matvec':
            y = ch.MatVecMult(p, x)
        else:
            y = ch.clip(x, 0.0, p)
        return y * 1.0 if case['deep'] else y

    def ref(p, v):
        if k == 'select':
            return np.sin(v)[p]
        return p.dot(v) if k == 'matvec' else np.clip(v, 0.0, p)

    def refj(p, v):
        if k == 'select':
            return sp.diags(np.cos(v), 0).tocsr()[p].toarray()
        return p if k == 'matvec' else np.diag(((v > 0) & (v < p)) * 1.0)
    w = np.array([1.0, -1.0, 2.0, -2.0])[:len(pars)]
    y = None
    for c, p in zip(w, pars):
        t = make(p) * c
        y = t if y is None else y + t

    def look(v, where):
        want = sum(c * ref(p, v) for c, p in zip(w, pars))
        got = np.array(y.r)
        tol = 1e-2 * case['eps'] if k != 'select' else 1e-9
        tol += 1e-14 * n
        require(got.shape == want.shape and np.all(np.abs(got - want) <= tol), '%s: value differs from what it was by %g', where, np.abs(got - want).max() if got.shape == want.shape else np.nan)
        J = y.dr_wrt(x)
        J = np.asarray(J.todense() if sp.issparse(J) else J)
        wj = sum(c * refj(p, v) for c, p in zip(w, pars))
        require(J.shape == wj.shape and np.all(np.abs(J - wj) <= tol), '%s: the derivative differs from what it was', where)
    if case['seed'] % 2:
        look(x0, 'before')
    y.remove_redundancy()
    look(x0, 'after removing redundancy')
    x1 = x0 * 0.5 + 1.0
    x.x = x1.copy()
    look(x1, 'after removing redundancy and a change')
    ctx.label('twins-' + k)
    return True


SIMPLE = set(['exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'sqrt', 'square', 'negative', 'absolute', 'reciprocal', 'add', 'subtract', 'multiply', 'divide', 'maximum', 'minimum',
              'SumOfSquares', 'dot', 'det', 'inv'])


def check(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_value, check_jac, short
    if case.get('kind') == 'twins':
        return check_twins(case, ctx)
    nodes = copy.deepcopy(case['nodes'])
    leaves = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    given = {}
    if case['onearray']:
        # inputs with equal values made from one and the same array
        by = {}
        for i in leaves:
            k = repr(nodes[i]['v'])
            if k in by:
                x = ch.Ch(0.)
                x.x = by[k]
                given[i] = x
                ctx.label('one-array')
            else:
                given[i] = ch.Ch(ops.dec(nodes[i]['v']))
                by[k] = given[i].x
    B = ops.ch_build(ch, nodes, given)
    out = case['out']

    def query(i, w, where):
        try:
            vals = ops.ref_eval(nodes, [i])
        except np.linalg.LinAlgError:
            return
        if ops.margin(nodes, vals, ops.needed(nodes, [i])) <= 1e-3:
            return
        if w is None:
            check_value(B[i].r, vals[i], '%s: node %d (%s)' % (where, i, nodes[i]['o']), rtol=1e-7, atol=1e-8)
        else:
            check_jac(B[i].dr_wrt(B[w]), ops.ref_jac(nodes, i, w), '%s: derivative of node %d (%s) wrt input %d' % (where, i, nodes[i]['o'], w))

    for q in case['pre']:
        query(q['n'], q['w'], 'before')

    def both(where):
        query(out, None, where)
        for w in leaves:
            query(out, w, where)
    if case['inner'] is not None:
        B[case['inner']].remove_redundancy()
        query(case['inner'], None, 'after merging an inner node')
    B[out].remove_redundancy()
    if case['twice']:
        B[out].remove_redundancy()
    both('after merging')
    # duplicates over the same operand objects have become one
    present = {}
    for n in B[out].tree_iterator():
        if n is not None:
            present[id(n)] = n
    same = {}
    for i, n in enumerate(nodes):
        if n['o'] == 'leaf':
            same[i] = ('leaf', i)
        elif n['o'] in SIMPLE and all(j in same for j in n['a']):
            same[i] = (n['o'],) + tuple(same[j] for j in n['a'])
    groups = {}
    for i, k in same.items():
        if k[0] != 'leaf' and id(B[i]) in present and i != out:
            groups.setdefault(k, set()).add(id(B[i]))
    # (Python evaluates some operator spellings with swapped operands, so only count exact repeats)
    ndup = 0
    for i, n in enumerate(nodes):
        if n.get('dup') is not None:
            ndup += 1
            k = same.get(i)
            if k is not None and same.get(n['dup']) == k and i != out and n['dup'] != out:
                require(len(groups.get(k, ())) <= 1, 'node %d (%s) and its duplicate are still computed separately', i, n['o'])
                ctx.label('merged')
    rng = np.random.RandomState(7)
    for p in case['post']:
        l = p['l']
        cur = np.atleast_1d(ops.dec(nodes[l]['v'])).astype(float)
        dv = np.round(np.random.RandomState(p['s']).uniform(-0.2, 0.2, cur.shape) * 256) / 256
        if p['how'] == 'elem':
            dv.ravel()[1:] = 0
        new = cur + dv
        if p['how'] == 'x':
            B[l].x = new.copy()
        elif p['how'] == 'item':
            B[l][...] = new
        else:
            B[l][(0,) * new.ndim] = new.ravel()[0]
        nodes[l]['v'] = ops.enc(new)
        if rng.rand() < 0.6:
            both('after a change')
    both('at the end')
    for i in present:
        pass
    for i, n in enumerate(nodes):
        if n['o'] not in ('leaf', 'const') and id(B[i]) in present and rng.rand() < 0.5:
            query(i, None, 'at the end')
    return ndup > 0
