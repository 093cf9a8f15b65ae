"""C19: guarded and special functions at their special points."""
from vlib import ops

RULE = ('One of NanDivide, nan_to_num, clip, power, gamma, moment, SumOfSquares, MatVecMult, Interp3D is applied to generated operands (plain inputs, scaled or rearranged expressions of inputs, numbers and arrays; broadcasting) '
        'rich in zeros, negatives, integers, huge, tiny and non-finite numbers, grid points and points outside the volume, alone or inside a weighted sum; value and Jacobians with respect to every input are compared element by element with '
        'independent scalar references wherever they are defined, then the inputs and parameters are changed and the comparison is repeated. '
        'Non-trivial: at least one element lies at a special point of the function (non-finite quotient, non-finite number, outside the bounds, zero or negative base, negative gamma argument, sparse or shaped product, point on a grid plane or outside).')
CASES = {'quick': 14000, 'thorough': 500000}
ASSUMPTIONS = ['derivatives are compared only where the function is differentiable; results that over- or underflow double precision are not compared']

FNS = ['NanDivide', 'nan_to_num', 'clip', 'power', 'gamma', 'moment', 'SumOfSquares', 'MatVecMult', 'Interp3D']
NUM = {
    'NanDivide': [0.0, -0.0, 0.0, 1.0, -1.0, 2.0, 0.5, -3.0, 1e-3, 1e6, 1e200, -1e200, 1e-200, float('nan'), float('inf'), float('-inf')],
    'nan_to_num': [float('nan'), float('inf'), float('-inf'), 0.0, 1.0, -2.0, 1e308, -1e-308, 3.5],
    'clip': [-3.0, -1.5, -1.0, -0.25, 0.0, 0.125, 0.75, 1.0, 2.0, 5.0, 1e9, -1e9],
    'power_x': [0.0, 0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, 1e-3, 10.0, -7.0],
    'power_p': [0.0, 1.0, 2.0, 3.0, -1.0, -2.0, 0.5, 1.5, -0.5, 4.0, 2.5],
    'gamma': [0.5, 1.0, 1.5, 2.0, 3.0, 4.25, 0.1, -0.5, -1.5, -2.25, -3.5, 7.0, 10.0, 1e-3],
    'moment': [0.0, 1.0, -1.0, 2.0, -3.5, 0.25, 1e-3, 7.0],
    'any': [0.0, 1.0, -1.0, 2.0, -3.5, 0.25, 1e-3, 1e3, -1e4, 7.0],
}


def vals(g, pool, shp):
    from vlib import gen
    n = gen.size_of(shp)
    return ops.enc(_arr([g.pick(pool) if g.chance(75) else g.int(-40, 40) / 8.0 for _ in range(n)], shp))


def _arr(d, shp):
    import numpy as np
    return np.array(d, dtype=np.float64).reshape(shp)


def gen_inputs(g, f):
    """-> shapes and pools of the operands"""
    from vlib import gen
    s = gen.shape(g, 10, 3)
    if f == 'NanDivide' or f == 'power':
        t = list(s)
        if g.chance(45):
            t = [1 if g.chance(40) else k for k in t]
            t = t[g.int(0, len(t) - 1):]
        a, b = (s, t) if g.chance(50) else (t, s)
        pools = (NUM['NanDivide'],) * 2 if f == 'NanDivide' else (NUM['power_x'], NUM['power_p'])
        return [a, b], pools
    if f == 'Interp3D':
        return [[g.int(1, 4), 3]], ([0.0],)
    return [s], (NUM.get(f, NUM['any']),)


def gen_params(g, f, shapes):
    from vlib import gen
    s = shapes[0]
    if f == 'clip':
        lo = g.pick([-2.0, -1.0, 0.0, 0.5, -0.75])
        p = {'lo': lo, 'hi': lo + g.pick([0.5, 1.0, 2.0, 3.25])}
        if g.chance(30):
            k = [1 if g.chance(30) else n for n in s]
            p['lo'] = ops.enc(_arr([g.int(-16, 4) / 8.0 for _ in range(gen.size_of(k))], k))
            p['hi'] = ops.enc(_arr([g.int(5, 24) / 8.0 for _ in range(gen.size_of(k))], k))
        return p
    if f == 'moment':
        return {'k': g.pick([1, 2, 3, 4, 2, 3]), 'axis': g.int(-len(s), len(s) - 1)}
    if f == 'MatVecMult':
        n = gen.size_of(s)
        rows = g.int(1, 4) * (s[1] if len(s) > 1 and s[1] > 1 else 1)
        m = _arr([g.pick([0.0, 0.0, 1.0, -2.0, 0.5, 3.25]) for _ in range(rows * n)], [rows, n])
        return {'m': ops.enc(m), 'fmt': g.pick(['dense', 'csc', 'csr', 'coo'])}
    if f == 'Interp3D':
        sh = [g.int(2, 4) for _ in range(3)]
        return {'img': ops.enc(_arr([g.int(-20, 20) / 4.0 for _ in range(gen.size_of(sh))], sh))}
    return {}


def gen_locs(g, shp, img):
    out = []
    for _ in range(shp[0]):
        for k in range(3):
            n = img[k]
            out.append(g.weighted([(25, float(g.int(0, n - 1))), (45, g.int(0, (n - 1) * 16) / 16.0 + 1 / 32.0), (12, -g.int(1, 64) / 16.0),
                                   (12, n - 1 + g.int(1, 64) / 16.0), (6, g.pick([-1e6, 1e6, 1e10, -0.0]))]))
    return ops.enc(_arr(out, shp))


def generate(g, tier):
    from vlib import gen
    f = g.pick(FNS)
    shapes, pools = gen_inputs(g, f)
    p = gen_params(g, f, shapes)

    def inputs():
        if f == 'Interp3D':
            return [gen_locs(g, shapes[0], p['img']['s'])]
        return [vals(g, pl, s) for s, pl in zip(shapes, pools)]
    ins = inputs()
    kinds = [g.weighted([(55, 'leaf'), (15, 'scaled'), (15, 'moved'), (15, 'const')]) for _ in shapes]
    if all(k == 'const' for k in kinds):
        kinds[0] = 'leaf'
    if f == 'MatVecMult':
        kinds = [k if k != 'const' else 'leaf' for k in kinds]
    rounds = [{'ins': ins, 'p': p}]
    for _ in range(g.int(0, 2)):
        q = gen_params(g, f, shapes) if f in ('clip', 'Interp3D', 'MatVecMult') and g.chance(50) else p
        r = {'p': q}
        if f == 'Interp3D':
            p = q   # new locations inside the new volume
        r['ins'] = inputs() if g.chance(80) else rounds[-1]['ins']
        if f == 'MatVecMult':
            p = q
        rounds.append(r)
    same = int(len(shapes) == 2 and shapes[0] == shapes[1] and kinds[0] == kinds[1] == 'leaf' and g.chance(12))
    if same:
        for r in rounds:
            r['ins'] = [r['ins'][0], r['ins'][0]]
    return {'f': f, 'kinds': kinds, 'same': same, 'rounds': rounds, 'post': int(g.chance(40)), 'mode': g.int(0, 1), 'order': g.int(0, 1)}


# ---------------------------------------------------------------- references
def ref(f, ins, p):
    """-> value, list of (Jacobian, defined mask) per operand, special?"""
    import numpy as np
    import math
    import scipy.special
    if f in ('NanDivide', 'power'):
        a, b = np.broadcast_arrays(*ins)
        idx = [np.broadcast_to(np.arange(x.size).reshape(x.shape), a.shape).ravel() for x in ins]
        n = a.size
        val, va_ok = np.zeros(n), np.ones(n, bool)
        d = [np.zeros(n), np.zeros(n)]
        ok = [np.ones(n, bool), np.ones(n, bool)]
        sp_ = False
        for i, (x, y) in enumerate(zip(a.ravel().tolist(), b.ravel().tolist())):
            if f == 'NanDivide':
                q = float(np.float64(x) / np.float64(y))
                if not math.isfinite(q):
                    sp_ = True
                    continue
                val[i] = q
                d[0][i] = float(np.float64(1.0) / np.float64(y))
                y2 = float(np.float64(y) * np.float64(y))
                d[1][i] = float(np.float64(-q) / np.float64(y))
                # over- and underflow in intermediate results
                if not math.isfinite(d[0][i]) or math.isinf(y2) and math.isfinite(y) or y2 == 0.0:
                    ok[0][i] = ok[1][i] = False
                if not math.isfinite(x) or not math.isfinite(d[1][i]):
                    ok[1][i] = False
                if math.isinf(y):
                    d[1][i] = 0.0
            else:
                q = float(np.power(np.float64(x), np.float64(y)))
                if x <= 0 or y == 0:
                    sp_ = True
                if math.isinf(q):
                    # documented: infinite powers are replaced by zero
                    q, ok[0][i], ok[1][i] = 0.0, False, False
                val[i] = q
                if math.isnan(q):
                    ok[0][i] = ok[1][i] = False
                    continue
                integral = y == round(y)
                # d/dx
                if x > 0:
                    d[0][i] = y * x ** (y - 1.0)
                elif x == 0:
                    if y == 0:
                        d[0][i] = 0.0
                    elif y == 1:
                        d[0][i] = 1.0
                    elif y > 1 and integral:
                        d[0][i] = 0.0
                    else:
                        ok[0][i] = False
                elif integral:
                    d[0][i] = y * x ** int(y - 1)
                else:
                    ok[0][i] = False
                # d/dy
                if x > 0:
                    d[1][i] = q * math.log(x)
                elif x == 0 and y > 0:
                    d[1][i] = 0.0
                else:
                    ok[1][i] = False
        out = []
        for k, x in enumerate(ins):
            J = np.zeros((n, x.size))
            M = np.ones((n, x.size), bool)
            J[np.arange(n), idx[k]] = d[k]
            M[np.arange(n), idx[k]] = ok[k]
            out.append((J, M))
        return val.reshape(a.shape), out, sp_
    x = ins[0]
    n = x.size
    fl = x.ravel()
    if f == 'nan_to_num':
        fin = np.isfinite(fl)
        big = np.finfo(np.float64).max
        v = np.array([t if math.isfinite(t) else (0.0 if t != t else (big if t > 0 else -big)) for t in fl.tolist()])
        return v.reshape(x.shape), [(np.diag(fin.astype(float)), np.ones((n, n), bool))], not fin.all()
    if f == 'clip':
        lo, hi = [np.broadcast_to(ops.dec(p[k]), x.shape).ravel() for k in ('lo', 'hi')]
        v = np.array([l if t < l else (h if t > h else t) for t, l, h in zip(fl.tolist(), lo.tolist(), hi.tolist())])
        ins_ = (fl > lo) & (fl < hi)
        M = np.ones((n, n), bool)
        M[np.diag_indices(n)] = (fl != lo) & (fl != hi)
        return v.reshape(x.shape), [(np.diag(ins_.astype(float)), M)], not ins_.all()
    if f == 'gamma':
        v = scipy.special.gamma(fl)
        with np.errstate(all='ignore'):
            h = 1e-5 * np.maximum(1.0, np.abs(fl))
            # Richardson differences of gamma itself, independent of digamma
            g1 = (scipy.special.gamma(fl + h) - scipy.special.gamma(fl - h)) / (2 * h)
            g2 = (scipy.special.gamma(fl + 2 * h) - scipy.special.gamma(fl - 2 * h)) / (4 * h)
            dd = (4 * g1 - g2) / 3
        pole = (fl <= 0) & (np.abs(fl - np.round(fl)) < 5e-2)
        ok = ~pole & (np.abs(fl) > 5e-2) & (np.abs(v) < 1e6)
        M = np.ones((n, n), bool)
        M[np.diag_indices(n)] = ok
        J = np.zeros((n, n))
        J[np.diag_indices(n)] = np.where(ok, dd, 0.0)
        return v.reshape(x.shape), [(J, M)], bool((fl < 0).any())
    if f == 'moment':
        k, ax = p['k'], p['axis']

        def fn(z):
            m = np.expand_dims(np.mean(z, axis=ax), ax)
            r = np.ones_like(z)
            for _ in range(k):
                r = r * (z - m)
            return np.mean(r, axis=ax)
        v = np.atleast_1d(fn(x)) if k != 1 else np.atleast_1d(np.zeros(np.shape(fn(x))))
        J = np.zeros((v.size, n))
        if k != 1:
            for i in range(n):
                z = np.array(x, dtype=complex, order='C')
                z.ravel()[i] += 1e-20j
                J[:, i] = np.imag(np.atleast_1d(fn(z)).ravel()) / 1e-20
        return v, [(J, np.ones(J.shape, bool))], x.ndim > 1 or k == 1
    if f == 'SumOfSquares':
        return np.array([math.fsum(t * t for t in fl.tolist())]), [(2 * fl.reshape(1, -1), np.ones((1, n), bool))], n > 1
    if f == 'MatVecMult':
        m = ops.dec(p['m'])
        v = np.array([math.fsum((m[i] * fl).tolist()) for i in range(m.shape[0])])
        if x.ndim > 1 and x.shape[1] > 1:
            v = v.reshape((-1, x.shape[1]))
        return v, [(m, np.ones(m.shape, bool))], x.ndim > 1 or p['fmt'] != 'dense'
    if f == 'Interp3D':
        img = ops.dec(p['img'])
        gr = [_grad(img, k) for k in range(3)]
        v = np.zeros(x.shape[0])
        J = np.zeros((x.shape[0], n))
        M = np.ones(J.shape, bool)
        special = False
        for i in range(x.shape[0]):
            c, o = [], []
            for k in range(3):
                t = min(max(x[i, k], 0.0), img.shape[k] - 1.0)
                c.append(int(math.floor(t)))
                o.append(t - math.floor(t))
            c = tuple(c)
            v[i] = img[c] + sum(gr[k][c] * o[k] for k in range(3))
            for k in range(3):
                t = x[i, k]
                if t < 0 or t > img.shape[k] - 1:
                    special = True
                else:
                    J[i, 3 * i + k] = gr[k][c]
                if t == round(t):
                    special = True
            for k in range(3):
                # on a grid plane the function jumps to another cell: not differentiable there
                if x[i, k] == round(x[i, k]) and 0 <= x[i, k] <= img.shape[k] - 1:
                    M[i, 3 * i + k] = False
        return v, [(J, M)], special
    raise ValueError(f)


def _grad(img, k):
    """Central differences inside, one-sided at the border."""
    import numpy as np
    a = np.moveaxis(img, k, 0)
    r = np.empty_like(a)
    r[1:-1] = (a[2:] - a[:-2]) / 2.0
    r[0] = a[1] - a[0]
    r[-1] = a[-1] - a[-2]
    return np.moveaxis(r, 0, k)


def build(ch, f, a, p):
    import scipy.sparse as sp
    if f == 'NanDivide':
        return ch.NanDivide(a[0], a[1])
    if f == 'power':
        return ch.power(a[0], a[1])
    if f == 'nan_to_num':
        return ch.nan_to_num(a[0])
    if f == 'clip':
        return ch.clip(a[0], ops.dec(p['lo']), ops.dec(p['hi']))
    if f == 'gamma':
        return ch.extras.gamma(a[0])
    if f == 'moment':
        if p['axis'] == 0:     # (the default)
            return ch.extras.moment(a[0], p['k']) if p['k'] != 1 else ch.extras.moment(a[0])
        return ch.extras.moment(a[0], moment=p['k'], axis=p['axis'])
    if f == 'SumOfSquares':
        return ch.SumOfSquares(a[0])
    if f == 'MatVecMult':
        m = ops.dec(p['m'])
        return ch.MatVecMult(m if p['fmt'] == 'dense' else sp.csc_matrix(m).asformat(p['fmt']), a[0])
    return ch.extras.Interp3D(locations=a[0], image=ops.dec(p['img']))


def check(case, ctx):
    import numpy as np
    import scipy.sparse as sp
    import chumpy as ch
    from vlib.util import require, close, dense, short
    f = case['f']
    leaves, pre, args = [], [], []
    first = [ops.dec(v) for v in case['rounds'][0]['ins']]
    for k, (kind, v) in enumerate(zip(case['kinds'], first)):
        if case['same'] and k == 1:
            leaves.append(leaves[0]), pre.append(pre[0]), args.append(args[0])
            continue
        if kind == 'const':
            leaves.append(None), pre.append(None), args.append(v)
            continue
        if kind == 'scaled':
            x = ch.Ch(v * 0.5)
            pre.append((2.0, None, 0.5))
            args.append(x * 2.0)
        elif kind == 'moved':
            x = ch.Ch(v.ravel()[::-1].copy())
            pre.append((1.0, np.arange(v.size)[::-1], 1.0))
            args.append(x[::-1].reshape(v.shape))
        else:
            x = ch.Ch(v)
            pre.append((1.0, None, 1.0))
            args.append(x)
        leaves.append(x)
    y = build(ch, f, args, case['rounds'][0]['p'])
    if f == 'moment' and not hasattr(y, 'dterms'):
        require(float(y) == 0.0, 'the first moment is %r', y)
        return False
    nt = False
    z = w = None
    p = case['rounds'][0]['p']
    for rnd, r in enumerate(case['rounds']):
        if rnd:
            for k, v in enumerate(r['ins']):
                v = ops.dec(v)
                if leaves[k] is None:
                    continue
                s, perm, inv = pre[k]
                leaves[k].x = v * inv if perm is None else v.ravel()[::-1].copy()
            if r['p'] != p and f == 'clip':
                y.a_min, y.a_max = ops.dec(r['p']['lo']), ops.dec(r['p']['hi'])
            elif r['p'] != p and f == 'Interp3D':
                y.image = ops.dec(r['p']['img'])
            elif r['p'] != p and f == 'MatVecMult':
                m = ops.dec(r['p']['m'])
                y.mtx = m if r['p']['fmt'] == 'dense' else sp.csc_matrix(m).asformat(r['p']['fmt'])
            p = r['p']
        ins = [ops.dec(v) for v in r['ins']]
        # constants keep their first value
        ins = [first[k] if case['kinds'][k] == 'const' and not case['same'] else v for k, v in enumerate(ins)]
        with np.errstate(all='ignore'):
            val, jacs, special = ref(f, ins, p)
        nt = nt or special
        what = '%s%s' % (f, ' after a change' if rnd else '')
        if case['order']:
            derivs(case, ctx, y, leaves, pre, jacs, what)
        got = y.r
        require(got.dtype == np.float64 and got.shape == val.shape, '%s: value has shape %s, expected %s', what, got.shape, val.shape)
        big = np.abs(np.where(np.isfinite(val), val, 0.0)) > 1e150
        require(close(np.where(big, 0, got), np.where(big, 0, val), 1e-9, 1e-12 if f != 'gamma' else 1e-9) and close(got, val, 1e-9, 0.0 if big.any() else 1e-9),
                '%s is %s, expected %s for operands %s', what, short(got), short(val), [short(i) for i in ins])
        if not case['order']:
            derivs(case, ctx, y, leaves, pre, jacs, what)
        if case['post'] and f not in ('nan_to_num',):
            if w is None or w.size != y.size:
                w = np.round(np.random.RandomState(7).randn(*y.shape) * 16) / 16 + 2.0
                z = ch.sum(y * w)
            if np.all(np.isfinite(val)) and np.abs(val).max() < 1e12:
                require(close(z.r, np.array([np.sum(val * w)]), 1e-9, 1e-9), 'weighted sum of %s is %s, expected %s', what, short(z.r), np.sum(val * w))
                derivs(case, ctx, z, leaves, pre, [(w.reshape(1, -1).dot(J), M.all(axis=0, keepdims=True)) for J, M in jacs], 'weighted sum of ' + what)
    ctx.label(f)
    return nt


def derivs(case, ctx, y, leaves, pre, jacs, what):
    import numpy as np
    from vlib.util import require, close, dense, short
    jacs = list(jacs)
    if case['same']:
        (J0, M0), (J1, M1) = jacs
        jacs = [(J0 + J1, M0 & M1)]
    for k, (J, M) in enumerate(jacs):
        if leaves[k] is None:
            continue
        s, perm, _ = pre[k]
        J, M = J * s, M
        if perm is not None:
            J, M = J[:, perm], M[:, perm]
        got = y.dr_wrt(leaves[k], reverse_mode=bool(case['mode']))
        if got is None:
            require(not np.any(J[M]), 'derivative of %s with respect to operand %d is absent, expected %s', what, k, short(J))
            continue
        got = dense(got, J.shape[0], J.shape[1], 'derivative of ' + what)
        if case['f'] == 'NanDivide':
            require(bool(np.all(np.isfinite(got))), 'derivative of %s with respect to operand %d is %s', what, k, short(got, 40))
        # not defined there: nothing more is promised
        M = M & (np.abs(np.where(np.isfinite(J), J, np.inf)) < 1e100)
        if M.any():
            a, b = np.where(M, got, 0.0), np.where(M, J, 0.0)
            rt = 1e-6 if case['f'] != 'gamma' else 1e-5
            require(bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= rt * np.abs(b) + 1e-8 * max(1.0, min(1e6, np.abs(b).max())))),
                    'derivative of %s with respect to operand %d is %s, expected %s', what, k, short(got, 40), short(np.where(M, J, np.nan), 40))
