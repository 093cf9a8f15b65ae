"""Generated least-squares problems: a residual expression and a set of free variables (C14-C16)."""
import numpy as np
from . import ops

SMOOTH = [(16, 'op_unary'), (26, 'op_binary'), (6, 'op_reduce'), (2, 'op_clip'), (7, 'op_dot'), (2, 'op_tensordot'),
          (2, 'op_cross'), (2, 'op_matvec'), (2, 'op_extras'), (2, 'op_nandiv'), (3, 'op_mask'), (12, 'op_reorder'), (6, 'op_stack'), (3, 'op_lambda')]


def gen_free(g, nodes, leaves, parts_pct=30, order=True):
    """Free variables: whole inputs, (nested) selections of an input, or several disjoint parts of one input."""
    from . import views
    free = []
    for l in leaves:
        s = nodes[l]['v']['s'] or [1]
        n = int(np.prod(s))
        t = g.weighted([(50, 'whole'), (25, 'sel'), (25, 'parts')]) if n > 1 else 'whole'
        if t == 'whole':
            free.append({'l': l, 'keys': []})
        elif t == 'sel':
            ch = views.gen_chain(g, s, g.weighted([(50, 1), (25, 2), (25, 3)]), keys_only=True)
            free.append({'l': l, 'keys': [c['key'] for c in ch]})
        else:
            # disjoint parts along the first axis (or of a flat vector)
            m = s[0]
            if m < 2:
                free.append({'l': l, 'keys': []})
                continue
            k = g.int(1, m - 1)
            if g.chance(50):
                keys = [{'sl': [None, k, None]}, {'sl': [k, None, None]}]
            else:
                p = g.perm(m)
                keys = [{'ix': p[:k], 'sh': 'list'}, {'ix': p[k:], 'sh': [m - k]}]
            for x in (keys if g.chance(75) else keys[:1]):
                free.append({'l': l, 'keys': [x]})
    if order and len(free) > 1 and g.chance(40):
        free = [free[i] for i in g.perm(len(free))]
    return free


def positions(nodes, f):
    s = nodes[f['l']]['v']['s'] or [1]
    p = np.arange(int(np.prod(s))).reshape(s)
    for k in f['keys']:
        p = np.atleast_1d(p[ops.key_of(k)])
    return p


def build_free(built, f):
    x = built[f['l']]
    for k in f['keys']:
        x = x[ops.key_of(k)]
    return x


def linear(g, well=True, square=False, max_n=6, curved=0.0):
    """sum_i A_i x_i - b, the A_i stacked to a matrix of given conditioning."""
    from . import gen
    d = gen.Dag(g, 'value', 40, 3)
    nl = g.int(1, 3)
    leaves, shapes = [], []
    for _ in range(nl):
        s = g.pick([[1], [2], [3], [2, 2], [1, 2], [2, 1], [4]])
        if sum(int(np.prod(t)) for t in shapes) + int(np.prod(s)) > max_n and shapes:
            continue
        shapes.append(s)
        leaves.append(d.leaf(s, g.pick(['generic', 'distinct', 'ties'])))
    sizes = [int(np.prod(s)) for s in shapes]
    n = sum(sizes)
    m = n if square else n + g.int(0, 3)
    rng = np.random.RandomState(g.int(0, 99999))
    if well:
        A = rng.randn(m, n) * 0.5
        A[:n, :] += 3.0 * np.eye(n)[rng.permutation(n)]
        if g.chance(30):
            A = np.where(np.abs(A) < 1.0, 0.0, A)
    else:
        k = g.int(1, max(1, n - 1))
        A = np.round(rng.randn(m, k) * 4) / 4
        A = A.dot(np.round(rng.randn(k, n) * 4) / 4)
        if g.chance(40):
            m = max(1, n - g.int(0, 2))
            A = rng.randn(m, n)
    A = np.round(A * 1024) / 1024
    m = A.shape[0]
    terms, c = [], 0
    for l, sz in zip(leaves, sizes):
        v = l
        if len(d.vals[l].shape) > 1:
            v = d.apply('reshape', [l], {'shape': [-1], 'via': 'ravel'})
        a = A[:, c:c + sz]
        c += sz
        t = g.pick(['dot', 'mv', 'mvs'])
        if curved:
            w = d.apply('sin', [v])
            w = d.apply('multiply', [w, d.const(val=np.array([curved]))], {'via': 'op'})
            v2 = d.apply('add', [v, w], {'via': 'op'})
        else:
            v2 = v
        if t == 'dot':
            terms.append(d.apply('dot', [d.const(val=a), v2], {'via': 'fn'}))
        else:
            terms.append(d.apply('MatVecMult', [v2], {'m': ops.enc(a), 'sparse': int(t == 'mvs')}))
    b = np.round(rng.randn(m) * 2 * 1024) / 1024
    bi = d.const(val=b) if g.chance(60) else d.leaf(val=b)
    if d.nodes[bi]['o'] == 'leaf':
        d.nodes[bi].pop('via', None)
    out = terms[0]
    for t in terms[1:]:
        out = d.apply('add', [out, t], {'via': 'op'})
    out = d.apply('subtract', [out, bi], {'via': 'op'})
    if g.chance(25):
        w = d.leaf(val=np.round(rng.uniform(0.5, 2, m) * 64) / 64)
        d.nodes[w].pop('via', None)
        out = d.apply('multiply', [out, w], {'via': 'op'})
    return d, leaves, out


def gen_problem(g, kinds):
    """kinds: weighted list of 'lin', 'mild', 'def', 'dag', 'rosen', 'fail', 'flat'."""
    from . import gen
    kind = g.weighted(kinds)
    if kind in ('lin', 'mild', 'def'):
        d, leaves, out = linear(g, well=kind != 'def', square=kind == 'mild', curved=0.3 if kind == 'mild' else 0.0)
    elif kind == 'rosen':
        d = gen.Dag(g, 'value', 24, 3)
        x = d.leaf([1], 'generic')
        y = d.leaf([1], 'generic')
        q = d.apply('power', [x, d.const(val=2.0)], {'via': 'op'})
        r1 = d.apply('multiply', [d.apply('subtract', [y, q], {'via': 'op'}), d.const(val=10.0)], {'via': 'op'})
        r2 = d.apply('subtract', [d.const(val=1.0), x], {'via': 'op'})
        out = d.apply('concatenate', [r1, r2], {'axis': 0})
        leaves = [x, y]
    elif kind == 'fail':
        # residuals undefined in part of the space: log, sqrt, arcsin, power of linear forms
        d = gen.Dag(g, 'value', 24, 3)
        n = g.int(1, 3)
        v = gen.values(g, [n], 'positive')
        x = d.leaf(val=v)
        leaves = [x]
        f = g.pick(['log', 'sqrt', 'recip', 'pow'])
        a = x
        if g.chance(50):
            a = d.apply('multiply', [x, d.const(val=gen.values(g, [n], 'positive'))], {'via': 'op'})
        if f == 'pow':
            u = d.apply('power', [a, d.const(val=g.pick([0.5, 1.5, -0.5]))], {'via': 'op'})
        else:
            u = d.apply({'recip': 'reciprocal'}.get(f, f), [a])
        t = gen.values(g, [n], 'generic') * g.pick([1.0, 3.0])
        out = d.apply('subtract', [u, d.const(val=t)], {'via': 'op'})
        if g.chance(40):
            lin = d.apply('multiply', [x, d.const(val=g.pick([0.5, 2.0, -1.0]))], {'via': 'op'})
            out = d.apply('concatenate', [out, lin], {'axis': 0})
    elif kind == 'flat':
        # starts at a stationary point, or becomes locally constant
        d = gen.Dag(g, 'value', 24, 3)
        n = g.int(1, 3)
        t = g.pick(['zero', 'clip', 'opt'])
        if t == 'zero':
            x = d.leaf(val=np.zeros(n))
            q = d.apply('power', [x, d.const(val=g.pick([2.0, 3.0]))], {'via': 'op'})
            out = d.apply('subtract', [q, d.const(val=g.pick([1.0, -1.0]))], {'via': 'op'})
        elif t == 'clip':
            x = d.leaf([n], 'generic')
            q = d.apply('multiply', [x, d.const(val=g.pick([1.0, 3.0]))], {'via': 'op'})
            out = d.apply('subtract', [d.apply('clip', [q], {'lo': -0.51, 'hi': 0.73}), d.const(val=g.pick([0.3, 2.0]))], {'via': 'op'})
        else:
            x = d.leaf([n], 'generic')
            out = d.apply('subtract', [x, d.const(val=d.vals[x].copy())], {'via': 'op'})
        d.nodes[x].pop('via', None)
        leaves = [x]
    else:
        d, made = gen.gen_dag(g, 'deriv', max_ops=6, min_ops=1, max_size=12, table=SMOOTH)
        out = gen.best_out(g, d, made)
        leaves = [i for i in ops.needed(d.nodes, [out]) if d.nodes[i]['o'] == 'leaf']
        if g.chance(50):
            t = d.const(val=gen.values(g, list(d.vals[out].shape), 'generic'))
            o2 = d.apply('subtract', [out, t], {'via': 'op'})
            out = out if o2 is None else o2
        leaves = [l for l in leaves if d.vals[l].size <= 8] or leaves[:1]
    # a dependence on an input that is not free
    nodes, mp = gen.prune(d.nodes, [out])
    out = mp[out]
    leaves = [mp[l] for l in leaves if l in mp]
    if kind == 'dag':
        with np.errstate(all='ignore'):
            leaves = [l for l in leaves if np.max(np.abs(ops.ref_jac(nodes, out, l))) > 1e-6]
        leaves = leaves[:3]
    elif len(leaves) > 1 and g.chance(20):
        leaves = g.subset(leaves, 1)
    return kind, nodes, out, leaves
