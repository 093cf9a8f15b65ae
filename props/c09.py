"""C09: replacing a part of an expression equals rebuilding it."""
import copy
from vlib import ops

RULE = ('A random differentiable DAG, with some values and derivatives queried first; an input or intermediate is replaced inside one output by a fresh input, another node of the graph, a fresh expression, or a fresh expression of the replaced part itself. '
        'The output, its nodes and their derivatives with respect to every input and to the new part are compared with a NumPy model of the rebuilt graph, then again after changes of the old part, the new part and other inputs; sometimes a second replacement follows. '
        'A quarter of the cases replace a part below linear algebra, deferred and grouped functions, interpolation, or user-defined operations that hold expressions as parameters, and compare with the same expression built anew over the new part. '
        'Non-trivial: the replaced part occurs in the output and has operations above it.')
CASES = {'quick': 7000, 'thorough': 250000}
ASSUMPTIONS = ['rearrangements and stackings (which the library merges when they are nested) are not themselves replaced; points closer than 1e-3 to a kink are skipped']

MERGED = set(['reshape', 'squeeze', 'expand_dims', 'concatenate', 'hstack', 'vstack', 'dstack', 'concatflat', 'transpose', 'getitem', 'fliplr', 'flipud', 'lstsq', 'lstsq_res', 'tensordot'])


def generate(g, tier):
    from vlib import gen
    if g.chance(25):
        return gen_rebuild(g)
    d, made = gen.gen_dag(g, 'deriv', max_ops=8, min_ops=2, max_size=12)
    out = gen.best_out(g, d, made)
    nodes, mp = gen.prune(d.nodes, [out])
    vals = {mp[o]: d.vals[o] for o in mp}
    out = mp[out]
    chn = [i for i in range(len(nodes)) if nodes[i]['o'] != 'const' and i != out]
    reps = []
    cur = [dict(n) for n in nodes]
    for _ in range(g.weighted([(75, 1), (25, 2)])):
        c = [i for i in chn if cur[i]['o'] not in MERGED]
        if not c:
            break
        old = g.pick(c)
        s = list(vals[old].shape)
        kind = g.pick(['leaf', 'leaf', 'node', 'expr', 'self', 'self2'])
        r = {'old': old, 'kind': kind, 'shape': s}
        if kind == 'node':
            # not above or below the old one
            c2 = [i for i in chn if i != old and list(vals[i].shape) == s and old not in ops.needed(nodes, [i])]
            if not c2:
                kind = r['kind'] = 'leaf'
            else:
                r['to'] = g.pick(c2)
        if kind in ('leaf', 'expr'):
            base = vals[old]
            import numpy as np
            r['v'] = ops.enc(base + np.asarray(gen.values(g, s, 'generic')) * g.pick([0.01, 0.1, 0.4]))
            if kind == 'expr' and g.chance(50):
                r['share'] = 1
        r['f'] = g.pick(['scale', 'shift', 'sq'])
        reps.append(r)
    leaves = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    inner = [i for i, n in enumerate(nodes) if n['o'] not in ('leaf', 'const')]
    pre = []
    for _ in range(g.int(0, 4)):
        pre.append({'n': g.pick(inner), 'w': g.pick([None] + leaves)})
    return {'nodes': nodes, 'out': out, 'reps': reps, 'pre': pre, 'seed': g.int(0, 9999), 'direct': g.int(0, 1)}


FN = {'scale': (lambda x: x * 1.0625), 'shift': (lambda x: x + 0.03125), 'sq': (lambda x: x + 0.03125 * x * x)}


def check(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_value, check_jac
    if case.get('mode') == 'rebuild':
        return check_rebuild(case, ctx)
    nodes = copy.deepcopy(case['nodes'])
    B = ops.ch_build(ch, nodes)
    out = case['out']
    y = B[out]
    rng = np.random.RandomState(case['seed'])

    def ok(nd, i):
        try:
            vals = ops.ref_eval(nd, [i])
        except np.linalg.LinAlgError:
            return None
        return vals if ops.margin(nd, vals, ops.needed(nd, [i])) > 1e-3 else None

    for q in case['pre']:
        vals = ok(nodes, q['n'])
        if vals is None:
            continue
        check_value(B[q['n']].r, vals[q['n']], 'before: node %d' % q['n'], rtol=1e-7, atol=1e-8)
        if q['w'] is not None:
            check_jac(B[q['n']].dr_wrt(B[q['w']]), ops.ref_jac(nodes, q['n'], q['w']), 'before: derivative')
    nt = False
    for ri, r in enumerate(case['reps']):
        old = r['old']
        reach = ops.needed(nodes, [out]) if ri == 0 else reach_of(nodes, out)
        if old not in reach or nodes[old]['o'] == 'const':
            continue
        cur = eval_all(nodes, [old])[old]
        k = r['kind']
        fresh = len(nodes)
        if k == 'leaf':
            new = add(nodes, {'o': 'leaf', 'v': r['v']})
            B[new] = ch.Ch(ops.dec(r['v']))
        elif k == 'node':
            new = r['to']
            if old in reach_of(nodes, new):
                continue        # an earlier replacement made it contain the old one
        elif k == 'expr':
            l = add(nodes, {'o': 'leaf', 'v': r['v']})
            B[l] = ch.Ch(ops.dec(r['v']))
            new = wrap(nodes, B, l, r['f'])
            if r.get('share'):
                new = wrap(nodes, B, new, 'shift')
        else:
            new = wrap(nodes, B, old, r['f'])
            if k == 'self2':
                new = wrap(nodes, B, new, 'scale')
        oldval = np.array(B[old].r)
        res = y.replace(B[old], B[new])
        require(res is B[new], 'replace returned something else than the replacement')
        # model of the rebuilt expression: every use of old below out refers to new
        for i in reach_of(nodes, out):
            if 'a' in nodes[i] and i < fresh:
                nodes[i]['a'] = [new if j == old else j for j in nodes[i]['a']]
        require(np.array_equal(B[old].r, oldval, equal_nan=True), 'the replaced part changed its value')
        ctx.label(k, 'old-' + ('input' if nodes[old]['o'] == 'leaf' else 'intermediate'))
        nt = True
        verify(ch, nodes, B, out, 'after replacement %d' % ri, check_value, check_jac, new if k in ('expr', 'self', 'self2') else None)
        # changes of all inputs, including those only the old part used
        lv = [i for i in range(len(nodes)) if nodes[i]['o'] == 'leaf']
        for i in lv:
            if rng.rand() < 0.5:
                continue
            v = np.atleast_1d(ops.dec(nodes[i]['v']))
            v = v + np.round(rng.uniform(-0.05, 0.05, v.shape) * 256) / 256
            nodes[i]['v'] = ops.enc(v)
            if rng.rand() < 0.5:
                B[i].x = v.copy()
            else:
                B[i][...] = v
            if rng.rand() < 0.4:
                verify(ch, nodes, B, out, 'after replacement %d and a change' % ri, check_value, check_jac)
        verify(ch, nodes, B, out, 'after replacement %d and changes' % ri, check_value, check_jac)
    return nt


def add(nodes, n):
    nodes.append(n)
    return len(nodes) - 1


def wrap(nodes, B, i, f):
    """FN[f] applied to node i, as model nodes and as a chumpy expression."""
    B_new = FN[f](B[i])
    if f == 'scale':
        c = add(nodes, {'o': 'const', 'v': 1.0625})
        new = add(nodes, {'o': 'multiply', 'a': [i, c]})
    elif f == 'shift':
        c = add(nodes, {'o': 'const', 'v': 0.03125})
        new = add(nodes, {'o': 'add', 'a': [i, c]})
    else:
        c = add(nodes, {'o': 'const', 'v': 0.03125})
        m = add(nodes, {'o': 'multiply', 'a': [c, i]})
        m2 = add(nodes, {'o': 'multiply', 'a': [m, i]})
        new = add(nodes, {'o': 'add', 'a': [i, m2]})
    B[new] = B_new
    return new


def reach_of(nodes, i):
    return set(ops.needed(nodes, [i]))


def eval_all(nodes, outs):
    """Evaluation by dependency (indices need not be in topological order after a replacement)."""
    order, flat = topo(nodes, outs)
    v = ops.ref_eval(flat, [order[o] for o in outs])
    return {o: v[order[o]] for o in outs}


def topo(nodes, outs):
    order, flat = {}, []

    def visit(i):
        if i in order:
            return
        for j in nodes[i].get('a', ()):
            visit(j)
        n = dict(nodes[i])
        if 'a' in n:
            n['a'] = [order[j] for j in n['a']]
        order[i] = len(flat)
        flat.append(n)
    for o in outs:
        visit(o)
    return order, flat


def verify(ch, nodes, B, out, where, check_value, check_jac, new=None):
    import numpy as np
    lv = [i for i in range(len(nodes)) if nodes[i]['o'] == 'leaf']
    order, flat = topo(nodes, [out] + lv)
    o = order[out]
    try:
        vals = ops.ref_eval(flat, [o])
    except np.linalg.LinAlgError:
        return
    if ops.margin(flat, vals, ops.needed(flat, [o])) <= 1e-3:
        return
    check_value(B[out].r, vals[o], '%s: value' % where, rtol=1e-7, atol=1e-8)
    for l in lv:
        check_jac(B[out].dr_wrt(B[l]), ops.ref_jac(flat, o, order[l]), '%s: derivative wrt input %d' % (where, l))
    if new is not None and new != out:
        check_jac(B[out].dr_wrt(B[new]), ops.ref_jac(flat, o, order[new], vals), '%s: derivative wrt the new part' % where)


# ---- expressions that hold parts as parameters, private expressions or deferred functions: compared with building anew ----
SHAPE = {'sq': [3, 3], 'tall': [4, 2], 'wide': [2, 4], 'vec': [3]}
TPL = {  # name -> kind of operand
    'svd_u': 'tall', 'svd_v': 'tall', 'svd_d': 'tall', 'svd_all': 'tall', 'svd_wide': 'wide', 'svd_u_sq': 'sq', 'pinv': 'tall', 'pinv_w': 'wide', 'inv': 'sq', 'det': 'sq', 'slogdet': 'sq', 'sign': 'sq',
    'lstsq': 'tall', 'lstsq_res': 'tall', 'lambda': 'vec', 'lambda2': 'vec', 'group': 'vec', 'handle': 'vec', 'param': 'vec', 'param_dep': 'vec', 'interp': 'loc', 'logic': 'vec', 'concat': 'vec', 'select': 'vec', 'reorder': 'sq', 'cross': 'vec', 'mv': 'vec'}
SHAPE['loc'] = [2, 3]
USER = []


def user_ops(ch):
    if not USER:
        class Held(ch.Ch):
            """Reads a parameter that is itself an expression, and asks for it as its derivative too."""
            terms = 'held',
            dterms = 'x',

            def compute_r(self):
                return self.x.r * 2.0 + self.held.r * 0.0

            def compute_dr_wrt(self, wrt):
                if wrt is self.x:
                    import numpy as np
                    return 2.0 * np.eye(self.x.size)

        class HeldDep(ch.Ch):
            terms = 'held',
            dterms = 'x', 'y'

            @ch.depends_on('x')
            def doubled(self):
                return self.x.r * 2.0

            def compute_r(self):
                return self.held.doubled + self.y.r if hasattr(self.held, 'doubled') else self.doubled + self.y.r

            def compute_dr_wrt(self, wrt):
                import numpy as np
                J = None
                if wrt is self.x:
                    J = 2.0 * np.eye(self.x.size)
                if wrt is self.y:
                    J = np.eye(self.y.size) if J is None else J + np.eye(self.y.size)
                return J
        USER.extend([Held, HeldDep])
    return USER


def template(ch, t, X, Y):
    import numpy as np
    la = ch.linalg
    if t in ('svd_u', 'svd_u_sq'):
        return la.svd(X)[0] * 2.0
    if t == 'svd_v':
        return la.svd(X)[2] * 2.0
    if t == 'svd_d':
        return la.svd(X)[1] * 2.0
    if t == 'svd_wide':
        return la.svd(X)[2] + 1.0
    if t == 'svd_all':
        u, d, v = la.svd(X)
        return ch.concatenate([(u * d).dot(v).ravel(), u.ravel() * 3.0, v.ravel()])
    if t in ('pinv', 'pinv_w'):
        return la.pinv(X) * 2.0
    if t == 'inv':
        return la.inv(X) + X
    if t == 'det':
        return la.det(X) * 2.0
    if t == 'slogdet':
        return la.slogdet(X)[1] * 2.0
    if t == 'sign':
        return la.slogdet(X)[0] * Y
    if t == 'lstsq':
        return la.lstsq(X, Y)[0] * 1.5
    if t == 'lstsq_res':
        return la.lstsq(X, Y)[1] * 1.5
    if t == 'lambda':
        f = ch.Ch(lambda a, b: ch.sin(a) * b + a)
        f.a, f.b = X, Y
        return f * 2.0
    if t == 'lambda2':
        f = ch.ChLambda(lambda a, b: ch.sin(a) * b + a, {'a': X})
        g = ch.ChLambda(lambda c: c * c)
        f.b = Y
        g.c = f
        return g + X
    if t == 'group':
        from chumpy.ch import ChGroup
        return ChGroup(ch.ChLambda(lambda a, b: ch.sin(a) * b + a), {'a': X, 'b': Y}) * 2.0
    if t == 'handle':
        return ch.ChHandle(x=X) * Y
    if t == 'param':
        return user_ops(ch)[0](x=X, held=ch.sin(X)) * Y
    if t == 'param_dep':
        inner = user_ops(ch)[1](x=X, y=Y, held=None)
        return user_ops(ch)[1](x=X, y=Y, held=inner) * 1.5
    if t == 'interp':
        from chumpy.extras import Interp3D
        return Interp3D(image=np.arange(27.).reshape(3, 3, 3) ** 1.5, locations=X) * 2.0
    if t == 'logic':
        return (X > 0.3) * Y + X
    if t == 'concat':
        return ch.concatenate([X, Y, X]) * 2.0
    if t == 'select':
        return X[[2, 0]] * Y[1:]
    if t == 'reorder':
        return ch.hstack([X.T, ch.diag(ch.diag(X)), ch.rot90(X)]) * 2.0
    if t == 'cross':
        return ch.cross(X, Y)
    if t == 'mv':
        return ch.MatVecMult(mtx=np.arange(6.).reshape(2, 3), vec=X) + 1.0
    raise ValueError(t)


def other_shape(t):
    return [3] if SHAPE[TPL[t]] == [3] else {'lstsq': [4], 'lstsq_res': [4], 'sign': [1]}.get(t, [1])


def gen_rebuild(g):
    from vlib import gen
    t = g.pick(sorted(TPL))
    s = SHAPE[TPL[t]]
    def vals(sh):
        v = gen.values(g, sh, 'distinct')
        if TPL[t] in ('sq', 'tall', 'wide') and len(sh) == 2:
            import numpy as np
            v = v * 0.25 + np.eye(sh[0], sh[1]) * np.array([3.0, 1.7, 0.9, 0.5])[:sh[0], None]
        return ops.enc(v)
    return {'mode': 'rebuild', 't': t, 'A': vals(s), 'B': vals(s), 'Y': ops.enc(gen.values(g, other_shape(t), 'distinct')), 'C': vals(s), 'oldk': g.pick(['leaf', 'expr']), 'newk': g.pick(['leaf', 'expr', 'of_old', 'other']),
            'wrap': g.int(0, 2), 'pre': g.int(0, 3), 'what': g.weighted([(70, 'X'), (30, 'Y')]), 'seed': g.int(0, 9999)}


def check_rebuild(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_value, dense, short, close
    t = case['t']
    A, Bm, Y = ch.Ch(ops.dec(case['A'])), ch.Ch(ops.dec(case['B'])), ch.Ch(ops.dec(case['Y']))
    X = A if case['oldk'] == 'leaf' else A * 1.0625

    def wrapped(e):
        return e if case['wrap'] == 0 else (ch.sin(e) if case['wrap'] == 1 else e * 0.5 + ch.sum(e))
    y = wrapped(template(ch, t, X, Y))
    if case['pre'] & 1:
        y.r
    if case['pre'] & 2:
        y.dr_wrt(A)
        y.dr_wrt(Y)
    if case['what'] == 'Y':
        old = Y
        new = ch.Ch(Y.r + 0.375)
        X2, Y2 = X, new
    else:
        old = X
        if case['newk'] == 'leaf':
            new = Bm
        elif case['newk'] == 'expr':
            new = Bm * 0.9375 + 0.0
        elif case['newk'] == 'of_old':
            new = X * 1.25
        else:
            new = A * 0.875 + Bm * 0.0625
        X2, Y2 = new, Y
    before = np.array(old.r)
    y.replace(old, new)
    require(np.array_equal(old.r, before), 'the replaced part changed its value')

    def compare(where):
        z = wrapped(template(ch, t, X2, Y2))
        check_value(y.r, z.r, '%s (%s): value, compared with the expression built anew' % (where, t), rtol=1e-10, atol=1e-10)
        for n, w in (('old input', A), ('new input', Bm), ('other input', Y), ('new part', new)):
            if w is y:
                continue
            J, K = y.dr_wrt(w), z.dr_wrt(w)
            J = None if J is None else dense(J)
            K = None if K is None else dense(K)
            zero = np.zeros((y.r.size, w.r.size))
            require(close(zero if J is None else J, zero if K is None else K, 1e-8, 1e-9), '%s (%s): derivative wrt the %s is %s, of the expression built anew %s', where, t, n, short(J), short(K))
    compare('after the replacement')
    rng = np.random.RandomState(case['seed'])
    for k in range(2):
        for leaf in (A, Bm, Y2):
            if rng.rand() < 0.6 and type(leaf) is ch.Ch:
                leaf.x = leaf.r * (1.0 + rng.randint(1, 5) / 64.0)
        compare('after the replacement and change %d' % k)
    ctx.label('rebuild-' + t, 'rebuild-old-' + case['oldk'])
    return True
