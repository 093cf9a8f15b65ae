"""C11: linear algebra: values and derivatives."""
from vlib import ops

RULE = ('Matrices with chosen, separated singular values between 0.4 and 3 (1x1 to 5x5, tall, wide, square, stacks of one to three dimensions for the inverse), direct inputs or expressions of inputs, are passed to inv, det, slogdet (one or several matrices), pinv, lstsq (one or several right-hand sides, either operand raw), svd and norm; '
        'values are compared with numpy.linalg and with the defining equations, derivatives with complex-step derivatives of closed forms, or sign-aligned central differences of numpy.linalg.svd; again after the inputs changed one or two times, and, related by known powers, after scaling the matrix by a power of two between 2**-36 and 2**30. '
        'Non-trivial: more than one element.')
CASES = {'quick': 6000, 'thorough': 200000}
ASSUMPTIONS = ['singular values at least 0.25 apart (derivatives of singular vectors), condition number below 10; singular vectors are compared up to sign']


def _mat(g, m, n, sq=False):
    """A matrix with given singular values and random orthogonal factors."""
    import numpy as np
    k = min(m, n)
    r = np.random.RandomState(g.int(0, 99999))
    s = np.array([3.0, 2.4, 1.8, 1.1, 0.6][:k] if g.chance(50) else np.cumsum(r.uniform(0.3, 0.6, k))[::-1])
    s = np.maximum(s, 0.3)
    q1 = np.linalg.qr(r.randn(m, m))[0]
    q2 = np.linalg.qr(r.randn(n, n))[0]
    if g.chance(20):
        q1, q2 = np.eye(m), np.eye(n)
    out = (q1[:, :k] * s).dot(q2[:, :k].T)
    return np.round(out * 2 ** 20) / 2 ** 20


def generate(g, tier):
    from vlib import gen
    import numpy as np
    if g.chance(3):
        # rank-deficient matrices: the decomposition itself
        m, n = g.int(1, 4), g.int(1, 4)
        vals = []
        for _ in range(g.int(1, 3)):
            k = g.int(0, min(m, n))
            f = [np.array([float(g.int(-3, 3)) for _ in range(q * k)]).reshape(q, k) for q in (m, n)]
            vals.append(ops.enc(f[0].dot(f[1].T)))
        return {'op': 'svdlow', 'vals': vals, 'rfirst': g.int(0, 1), 'part': g.int(0, 2)}
    op = g.weighted([(14, 'inv'), (10, 'invN'), (12, 'det'), (12, 'slogdet'), (8, 'slogdetN'), (14, 'pinv'), (14, 'lstsq'), (26, 'svd'), (8, 'norm')])
    n = g.weighted([(15, 1), (30, 2), (30, 3), (20, 4), (5, 5)])
    m = n
    if op in ('pinv', 'lstsq', 'svd'):
        m = g.weighted([(15, 1), (25, 2), (30, 3), (20, 4), (10, 5)])
    rounds = g.weighted([(30, 1), (50, 2), (20, 3)])
    scale = g.pick([-36, -30, -24, -10, 10, 24, 30]) if g.chance(30) else 0
    case = {'op': op, 'pre': g.weighted([(40, 'none'), (12, 'scale'), (12, 'T'), (12, 'dot'), (12, 'flat'), (12, 'twice')]), 'rev': int(g.chance(25)), 'order': g.int(0, 2), 'scale': scale}
    if op == 'norm':
        s = gen.shape(g, 12, 3)
        case['vals'] = [[ops.enc(gen.values(g, s, 'distinct') + 0.03)] for _ in range(rounds)]
        case['pre'] = g.pick(['none', 'scale'])
        return case
    if op == 'invN':
        st = [g.int(1, 3) for _ in range(g.weighted([(60, 1), (30, 2), (10, 3)]))]
        c = int(np.prod(st))
        n = min(n, 3)
        case['vals'] = [[ops.enc(np.array([_mat(g, n, n) for _ in range(c)]).reshape(st + [n, n]))] for _ in range(rounds)]
        case['pre'] = g.pick(['none', 'scale', 'twice'])
        return case
    if op == 'slogdetN':
        k = g.int(2, 3)
        ns = [g.int(1, 3) for _ in range(k)]
        case['vals'] = [[ops.enc(_mat(g, q, q)) for q in ns] for _ in range(rounds)]
        return case
    case['vals'] = []
    resize = case['pre'] in ('none', 'scale', 'T', 'twice') and op in ('inv', 'det', 'slogdet', 'pinv') and g.chance(35)
    for _ in range(rounds):
        if resize:      # later matrices of other sizes and orientations
            n = g.int(1, 4)
            m = g.int(1, 4) if op == 'pinv' else n
        v = [ops.enc(_mat(g, m, n))]
        if op == 'lstsq':
            v.append(None)
        case['vals'].append(v)
    if op == 'lstsq':
        k = g.pick([None, 1, 2, 3])
        for v in case['vals']:
            v[1] = ops.enc(gen.values(g, [m] if k is None else [m, k], 'generic'))
        case['raw'] = g.weighted([(70, None), (15, 'a'), (15, 'b')])
    if op == 'svd':
        case['post'] = g.pick(['none', 'w'])
    return case


def check(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_value, check_jac, close, short, fail
    if case['op'] == 'svdlow':
        x = nodes = None
        for rnd, v in enumerate(case['vals']):
            M = ops.dec(v)
            if x is None:
                x = ch.Ch(M)
                nodes = ch.linalg.svd(x)
            else:
                x[:] = M
            if case['rfirst']:
                nodes[case['part']].r
            S = np.linalg.svd(M)[1]
            require(close(nodes[1].r, S, 1e-9, 1e-9), 'round %d: singular values of %s are %s, expected %s', rnd, short(M), short(nodes[1].r), short(S))
            require(close((nodes[0].r * nodes[1].r).dot(nodes[2].r), M, 1e-9, 1e-9), 'round %d: u*s*v of %s is %s', rnd, short(M), short((nodes[0].r * nodes[1].r).dot(nodes[2].r)))
        ctx.label('svdlow')
        return M.size > 1
    op, pre = case['op'], case['pre']
    ctx.label(op, 'pre-' + pre)

    # the matrix as a function of the input: built for chumpy and for NumPy
    def inner_of(M):
        """input value giving the matrix M"""
        if pre == 'scale':
            return M / 2.0
        if pre == 'T':
            return M.T.copy()
        if pre == 'dot':
            return np.linalg.solve(fixed(M.shape[0]), M)
        if pre == 'flat':
            return M.ravel().copy()
        if pre == 'twice':
            return M / 2.0
        return M.copy()

    def fixed(k):
        q = np.eye(k) * 1.5
        q[0, -1] += 0.5
        return q

    def fwd(x, shape):
        if pre == 'scale':
            return x * 2.0
        if pre == 'T':
            return x.T
        if pre == 'dot':
            f = fixed(shape[0])
            return ch.dot(f, x) if isinstance(x, ch.Ch) else f.dot(x)
        if pre == 'flat':
            return x.reshape(shape)
        if pre == 'twice':
            return x + x
        return x

    mats = [ops.dec(v) for v in case['vals'][0]]
    shapes = [np.shape(m) for m in mats]
    nm = 1 if op == 'lstsq' else len(mats)
    X = [ch.Ch(inner_of(m)) for m in mats[:nm]]
    E = [fwd(x, s) for x, s in zip(X, shapes)]
    b = None
    if op == 'lstsq':
        b = ch.Ch(mats[1])
    if op in ('inv', 'invN'):
        nodes = [ch.linalg.inv(E[0])]
    elif op == 'det':
        nodes = [ch.linalg.det(E[0])]
    elif op == 'slogdet':
        nodes = list(ch.linalg.slogdet(E[0]))
    elif op == 'slogdetN':
        s, l = ch.linalg.slogdet(*E)
        nodes = list(s) + [l]
    elif op == 'pinv':
        nodes = [ch.linalg.pinv(E[0])]
    elif op == 'lstsq':
        if case['raw'] == 'a':
            res = ch.linalg.lstsq(np.array(mats[0]), b)
        elif case['raw'] == 'b':
            res = ch.linalg.lstsq(E[0], np.array(mats[1]))
        else:
            res = ch.linalg.lstsq(E[0], b)
        nodes = [res[0]] + ([res[1]] if shapes[0][0] > shapes[0][1] else [])
    elif op == 'svd':
        nodes = list(ch.linalg.svd(E[0]))
    else:
        nodes = [ch.linalg.norm(E[0])]

    def pinv(A):
        return ops._pinv([A], {})

    for rnd, vals in enumerate(case['vals']):
        mats = [np.asarray(ops.dec(v)) for v in vals]
        if rnd:
            shapes = [np.shape(m) for m in mats]
            for x, m in zip(X, mats):
                if (rnd + case['order']) % 2 or inner_of(m).shape != x.shape:
                    x.x = inner_of(m)
                else:
                    x[...] = inner_of(m)
            if b is not None and case['raw'] != 'b':
                b.x = mats[1].copy()
            elif b is not None:
                mats[1] = np.asarray(ops.dec(case['vals'][0][1]))
            if op == 'lstsq' and case['raw'] == 'a':
                mats[0] = np.asarray(ops.dec(case['vals'][0][0]))
        ins = [inner_of(m) for m in mats[:nm]]
        # references as functions of the inputs, real and complex
        M = [fwd(x, s) for x, s in zip(ins, shapes)]
        if op in ('inv', 'invN'):
            fs = [lambda a: np.linalg.inv(a)]
            want = [np.linalg.inv(M[0])]
        elif op == 'det':
            fs = [lambda a: np.linalg.det(a)]
            want = [np.linalg.det(M[0])]
        elif op == 'slogdet':
            fs = [None, lambda a: ops._lad([a], {})]
            want = list(np.linalg.slogdet(M[0]))
        elif op == 'slogdetN':
            fs = [None] * len(M) + [lambda *a: np.array([ops._lad([q], {}) for q in a])]
            sl = [np.linalg.slogdet(q) for q in M]
            want = [q[0] for q in sl] + [np.array([q[1] for q in sl])]
        elif op == 'pinv':
            fs = [pinv]
            want = [np.linalg.pinv(M[0])]
        elif op == 'lstsq':
            fs = [lambda a, c: pinv(a).dot(c), lambda a, c: np.sum((a.dot(pinv(a).dot(c)) - c) ** 2, axis=0)]
            ls = np.linalg.lstsq(M[0], mats[1], rcond=None)
            want = [ls[0]] + ([ls[1]] if len(nodes) > 1 else [])
        elif op == 'norm':
            fs = [lambda a: np.sqrt(np.sum(a * a))]
            want = [np.linalg.norm(M[0])]
        if op == 'svd':
            check_svd(ch, nodes, X[0], ins[0], M[0], lambda q: fwd(q, shapes[0]), case, 'round %d' % rnd)
            continue
        args = list(ins) + ([mats[1]] if op == 'lstsq' else [])
        objs = list(X) + ([b] if op == 'lstsq' else [])

        def model(f, a, shapes=shapes):
            q = [fwd(x, s) for x, s in zip(a[:nm], shapes)] + list(a[nm:])
            return np.atleast_1d(f(*q))
        for i, n in enumerate(nodes):
            what = 'round %d: output %d of %s' % (rnd, i, op)
            if case['order'] != 1:
                check_value(n.r, want[i], what, rtol=1e-7, atol=1e-8)
            for k, o in enumerate(objs):
                J = n.dr_wrt(o, reverse_mode=True) if case['rev'] else n.dr_wrt(o)
                size = np.size(want[i])
                if fs[i] is None or (op == 'lstsq' and ((case['raw'] == 'a' and k == 0) or (case['raw'] == 'b' and k == 1))):
                    W = np.zeros((size, args[k].size))
                    if fs[i] is None:
                        require(J is None, '%s: the sign has a derivative', what)
                else:
                    W = np.empty((size, args[k].size))
                    for c in range(args[k].size):
                        z = [np.array(a, dtype=complex, order='C') for a in args]
                        z[k].ravel()[c] += 1e-20j
                        W[:, c] = np.imag(model(fs[i], z)).ravel() / 1e-20
                check_jac(J, W, '%s: derivative wrt operand %d' % (what, k), rtol=1e-6, atol=1e-7)
            check_value(n.r, want[i], what, rtol=1e-7, atol=1e-8)
    if case.get('scale') and op != 'slogdetN':
        check_scale(ch, op, [np.asarray(ops.dec(v)) for v in case['vals'][0]], 2.0 ** case['scale'], case['rev'])
        ctx.label('scaled')
    return np.size(mats[0]) > 1


def check_svd(ch, nodes, X, x0, M, fwd, case, where):
    import numpy as np
    from vlib.util import require, check_jac, close, short
    u, s, vt = nodes
    U, S, Vt = np.linalg.svd(M, full_matrices=False)
    if case['order'] == 1:
        Js = s.dr_wrt(X)
    r = [u.r, s.r, vt.r]
    for got, ref, nm in zip(r, (U, S, Vt), 'usv'):
        require(got.shape == ref.shape, '%s: %s of the decomposition has shape %s, expected %s', where, nm, got.shape, ref.shape)
    require(close(r[1], S, 1e-9, 1e-9), '%s: singular values are %s, expected %s', where, short(r[1]), short(S))
    require(close((r[0] * r[1]).dot(r[2]), M, 1e-9, 1e-9), '%s: u*s*v is %s, expected %s', where, short((r[0] * r[1]).dot(r[2])), short(M))
    sg = np.sign(np.sum(r[0] * U, axis=0))
    require(close(r[0], U * sg, 1e-7, 1e-7) and close(r[2], (Vt.T * sg).T, 1e-7, 1e-7), '%s: singular vectors differ from those of numpy.linalg.svd', where)
    h = 2.0 ** -17
    n = x0.size
    D = [np.empty((a.size, n)) for a in r]
    for c in range(n):
        side = []
        for e in (h, -h):
            z = np.array(x0, order='C')
            z.ravel()[c] += e
            a, d, w = np.linalg.svd(fwd(z), full_matrices=False)
            f = np.sign(np.sum(a * r[0], axis=0))
            side.append((a * f, d, (w.T * f).T))
        for k in range(3):
            D[k][:, c] = ((side[0][k] - side[1][k]) / (2 * h)).ravel()
    for k, nd in enumerate(nodes):
        J = nd.dr_wrt(X, reverse_mode=True) if case['rev'] else nd.dr_wrt(X)
        check_jac(J, D[k], '%s: derivative of %s' % (where, 'usv'[k]), rtol=1e-4, atol=1e-6)
    if case.get('post') == 'w':
        # the singular vectors used together in one expression: u s v again is the matrix
        y = ch.dot(u * s, vt)
        E = np.empty((y.size, n))
        for c in range(n):
            z = np.array(x0, dtype=complex, order='C')
            z.ravel()[c] += 1e-20j
            E[:, c] = np.imag(fwd(z)).ravel() / 1e-20
        check_jac(y.dr_wrt(X), E, '%s: derivative of u*s*v' % where, rtol=1e-6, atol=1e-7)


def check_scale(ch, op, mats, c, rev):
    """Multiplying the matrix by a power of two changes results and derivatives by known powers of it."""
    import numpy as np
    from vlib.util import require, close, short, dense

    def run(A):
        X = ch.Ch(A.copy())
        if op in ('inv', 'invN'):
            out = [ch.linalg.inv(X)]
        elif op == 'det':
            out = [ch.linalg.det(X)]
        elif op == 'slogdet':
            out = list(ch.linalg.slogdet(X))
        elif op == 'pinv':
            out = [ch.linalg.pinv(X)]
        elif op == 'lstsq':
            out = [ch.linalg.lstsq(X, mats[1])[0]]
        elif op == 'svd':
            out = list(ch.linalg.svd(X))
        else:
            out = [ch.linalg.norm(X)]
        js = [o.dr_wrt(X, reverse_mode=True) if rev else o.dr_wrt(X) for o in out]
        return [np.array(o.r) for o in out], [None if j is None else np.asarray(dense(j)) for j in js]
    A = mats[0]
    n = A.shape[-1] if A.ndim else 1
    # value(cA) = c**p value(A); derivative(cA) = c**(p-1) derivative(A)
    deg = {'inv': [-1], 'invN': [-1], 'det': [n], 'slogdet': [0, 0], 'pinv': [-1], 'lstsq': [-1], 'svd': [0, 1, 0], 'norm': [1]}[op]
    v1, j1 = run(A)
    v2, j2 = run(A * c)
    sg = None
    if op == 'svd':       # the sign of each pair of singular vectors is free
        sg = np.sign(np.sum(v1[0] * v2[0], axis=0))
    for i, p in enumerate(deg):
        want, got = v1[i], v2[i] / c ** p
        J, K = j1[i], None if j2[i] is None else j2[i] / c ** (p - 1)
        if op == 'slogdet' and i == 1:
            got = got - n * np.log(c)
        if sg is not None and i != 1:
            f = sg if i == 0 else sg[:, None]
            want = want * f
            J = J * (np.ones_like(want) * f).reshape(-1, 1)
        tol = 1e-8 * (1 + np.max(np.abs(want)))
        require(close(got, want, 1e-8, tol), 'output %d of %s at the matrix times %g is, scaled back, %s; at the matrix itself %s', i, op, c, short(got), short(want))
        if J is None or K is None:
            require(J is None and K is None, 'output %d of %s: derivative absent at only one of two scales', i, op)
            continue
        tol = 1e-6 * (1 + np.max(np.abs(J)))
        require(close(K, J, 1e-6, tol), 'derivative of output %d of %s at the matrix times %g is, scaled back, %s; at the matrix itself %s', i, op, c, short(K), short(J))
