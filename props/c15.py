"""C15: what the SciPy minimisers receive and leave behind."""
import numpy as np
from vlib import ops, prob

RULE = ('Random residual expressions (scalar and vector; linear, curved, random DAGs) and free-variable sets (whole inputs, selections, several parts, permuted). '
        'In two thirds of the cases scipy.optimize.minimize is replaced by a recorder that asks for function, gradient, Hessian or Hessian products at 3-10 points (points repeated and interleaved) and returns an arbitrary answer; each reply is compared with NumPy, and the final state with the answer. '
        'The others run a real SciPy method (all supported ones, also with bounds, constraints and callbacks) and compare the outcome with SciPy minimising the plain NumPy objective. '
        'Non-trivial: at least two distinct points queried, or a real run that moved.')
CASES = {'quick': 3200, 'thorough': 150000}
ASSUMPTIONS = ['every free variable influences the objective', 'points closer than 1e-3 to a kink are not compared',
               'one run asks for Hessians or for Hessian products, not both, as all SciPy methods do']

GRAD = ['CG', 'BFGS', 'L-BFGS-B', 'TNC', 'SLSQP', 'Newton-CG', 'trust-ncg', 'trust-krylov']
OTHER = ['Nelder-Mead', 'Powell', 'COBYLA']
CURV = ('Newton-CG', 'trust-ncg', 'trust-exact', 'trust-krylov')


def generate(g, tier):
    from vlib import gen
    real = g.chance(30)
    kind, nodes, out, leaves = prob.gen_problem(g, [(40, 'lin'), (20, 'mild')] if real else [(30, 'lin'), (20, 'mild'), (5, 'rosen'), (50, 'dag')])
    if not leaves:
        return {'kind': 'none'}
    free = prob.gen_free(g, nodes, leaves)
    n = sum(prob.positions(nodes, f).size for f in free)
    case = {'kind': kind, 'nodes': nodes, 'out': out, 'free': free, 'form': g.pick(['expr', 'expr', 'list', 'tuple', 'dict']), 'prior': g.int(0, 1),
            'method': g.pick(GRAD + OTHER)}
    if real:
        case['real'] = 1
        case['cb'] = g.int(0, 1)
        if case['method'] in ('L-BFGS-B', 'TNC', 'SLSQP', 'Nelder-Mead', 'Powell') and g.chance(50):
            case['bounds'] = [[g.pick([-0.25, -1.0, -3.0, -0.01]), g.pick([0.25, 1.0, 0.05, 4.0])] for _ in range(n)]
        if case['method'] == 'SLSQP' and g.chance(60) or case['method'] == 'COBYLA' and g.chance(40):
            case['con'] = [[g.int(-3, 3) for _ in range(n)], g.pick([0.01, 0.1, 0.5, 2.0]), g.pick(['ineq', 'ineq', 'eq']) if case['method'] == 'SLSQP' else 'ineq']
        return case
    case['pts'] = [[round(x * 256) / 256 for x in (gen.values(g, [n], 'generic') * g.pick([0.05, 0.3, 1.0])).tolist()] for _ in range(g.int(1, 4))]
    case['qs'] = [[g.pick(['f', 'f', 'g', 'g', 'h']), g.int(0, len(case['pts']))] for _ in range(g.int(3, 10))]
    case['ans'] = g.int(0, len(case['pts']))
    case['hess'] = g.int(0, 1)
    case['p'] = g.int(0, 999)
    case['cb'] = g.int(0, 1)
    case['fwd'] = g.int(0, 1)
    return case


def check(case, ctx):
    import chumpy as ch
    import sys
    import scipy.optimize
    import scipy.sparse as sp
    from vlib.util import require, Inconclusive, close, short, fail
    if case['kind'] == 'none':
        return False
    nodes, out = case['nodes'], case['out']
    built = ops.ch_build(ch, nodes)
    y = built[out]
    leaves = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    start = {i: np.array(built[i].r) for i in leaves}
    pos = [prob.positions(nodes, f) for f in case['free']]
    fv = [prob.build_free(built, f) for f in case['free']]
    mask = {i: np.zeros(start[i].size, bool) for i in leaves}
    for f, p in zip(case['free'], pos):
        mask[f['l']][p.ravel()] = True

    def point():
        return {i: np.array(built[i].r) for i in leaves}

    def vec(pt):
        return np.concatenate([pt[f['l']].ravel()[p.ravel()] for f, p in zip(case['free'], pos)])

    def at(v):
        pt = {i: start[i].copy() for i in leaves}
        c = 0
        for f, p in zip(case['free'], pos):
            pt[f['l']].ravel()[p.ravel()] = v[c:c + p.size]
            c += p.size
        return pt

    def vals(pt):
        return ops.ref_eval(nodes, None, dict(pt))

    def jacobian(pt):
        return np.hstack([ops.ref_jac(nodes, out, f['l'], base=pt, override=dict(pt))[:, p.ravel()] for f, p in zip(case['free'], pos)])

    scalar = start is not None and np.size(ops.ref_eval(nodes, [out])[out]) == 1

    def func(v):
        r = np.atleast_1d(vals(at(v))[out]).ravel()
        return float(r[0]) if scalar else float(np.sum(r ** 2))

    def grad(v):
        pt = at(v)
        J = jacobian(pt)
        r = np.atleast_1d(vals(pt)[out]).ravel()
        return J.ravel() if scalar else 2 * J.T.dot(r)

    def tame(pt):
        vs = vals(pt)
        return all(np.all(np.isfinite(np.asarray(v))) and np.max(np.abs(v)) < 1e4 for v in vs.values()) and \
            ops.margin(nodes, vs, ops.needed(nodes, [out])) > 1e-3
    x0 = vec(start)
    if not tame(start):
        return False
    target = {'expr': lambda: y, 'list': lambda: [y], 'tuple': lambda: (y,), 'dict': lambda: {'a': y}}[case['form']]()
    if case['form'] in ('list', 'tuple', 'dict') and not scalar and np.ndim(y.r) == 1 and y.size > 1 and case['prior']:
        k = y.size // 2
        parts = [y[:k], y[k:]]
        target = {'list': parts, 'tuple': tuple(parts), 'dict': {'u': parts[0], 'v': parts[1]}}[case['form']]
        ctx.label('split-objective')
    if case['prior']:
        y.r
        y.dr_wrt(built[case['free'][0]['l']])
    method = case['method']
    calls = []

    def cb(*a, **k):
        calls.append(vec(point()))
    kw = {'callback': cb} if case['cb'] else {}

    def finish(got, want=None):
        end = point()
        for i in leaves:
            a, b = start[i].ravel(), end[i].ravel()
            require(end[i].shape == start[i].shape, 'input %d changed its shape from %s to %s', i, start[i].shape, end[i].shape)
            require(np.array_equal(a[~mask[i]], b[~mask[i]]), 'entries of input %d that are not free changed from %s to %s', i, short(a), short(b))
        require(len(list(got)) == len(fv) and all(p is q for p, q in zip(got, fv)), 'the returned free variables are not the given ones')
        if want is not None:
            require(np.array_equal(vec(end), want), 'the method answered %s but the free variables hold %s', short(want), short(vec(end)))
        for v, f, p in zip(fv, case['free'], pos):
            require(np.array_equal(np.array(v.r), end[f['l']].ravel()[p.ravel()].reshape(p.shape)), 'free variable %s does not hold the final values of its input', f)
        if tame(end):
            require(close(np.array(y.r), vals(end)[out], 1e-7, 1e-9), 'after minimising, the expression is %s but at the final point it is %s', short(y.r), short(vals(end)[out]))
        return end
    if case.get('real'):
        if scalar:
            return False     # a linear scalar objective is unbounded
        bounds = None
        if case.get('bounds'):
            bounds = [(x + a, x + b) for x, (a, b) in zip(x0, case['bounds'])]
        con = ()
        if case.get('con') and any(case['con'][0]):
            # the start satisfies it (an inequality) or misses it by a little (an equation)
            c, d, t = np.array(case['con'][0], float), case['con'][1], case['con'][2]
            con = [{'type': t, 'fun': lambda v: c.dot(np.asarray(v, float).ravel() - x0) + d}]
            kw['constraints'] = con
            ctx.label('constraint-' + t)
        opts = {'maxiter': 60} if method in ('Nelder-Mead', 'Powell', 'COBYLA') else {'maxiter': 200}
        if method == 'COBYLA':
            opts = {'maxiter': 120}
        try:
            got = ch.minimize(target, fv, method=method, bounds=bounds, options=dict(opts), **kw)
        except np.linalg.LinAlgError:
            raise Inconclusive()
        end = finish(got)
        v1 = vec(end)
        f0, f1 = func(x0), func(v1)
        lo = 1e-7 * (1 + np.abs(x0).max())
        if bounds:
            require(all(a - lo <= x <= b + lo for x, (a, b) in zip(v1, bounds)), '%s: result %s violates the bounds %s', method, short(v1), bounds)
            ctx.label('bounds')
        if method in CURV:
            H = {'hess': lambda v: 2 * jacobian(at(v)).T.dot(jacobian(at(v)))}
        elif method == 'trust-constr':
            H = {'hess': lambda v: 2 * jacobian(at(v)).T.dot(jacobian(at(v)))}
        else:
            H = {}
        jac = grad if method in GRAD else None
        ref = scipy.optimize.minimize(func, x0.copy(), method=method, jac=jac, bounds=bounds, constraints=con, options=dict(opts), **H)
        slack = 1e-3 * (1 + abs(f0))
        if con:
            miss = lambda v: (abs if con[0]['type'] == 'eq' else lambda z: max(-z, 0.0))(float(con[0]['fun'](v)))
            if method == 'SLSQP' and ref.success and miss(ref.x) < 1e-7 * (1 + np.abs(ref.x).max()):
                require(miss(v1) < 1e-5 * (1 + np.abs(v1).max()), 'SLSQP misses the constraint by %g, SciPy minimising the same function does not', miss(v1))
        require(f1 <= f0 + slack or con and con[0]['type'] == 'eq', '%s increased the objective from %g to %g', method, f0, f1)
        cond = np.linalg.cond(jacobian(start))
        if method in GRAD and cond < 100:
            require(f1 <= func(ref.x) + slack * 0.1, '%s ends at %g, SciPy minimising the same function ends at %g', method, f1, func(ref.x))
        if case['cb'] and np.max(np.abs(v1 - x0)) > 1e-6:
            require(len(calls) > 0, '%s: the callback was never called', method)
        ctx.label(method)
        return bool(np.max(np.abs(v1 - x0)) > 1e-9)
    # recorder
    rng = np.random.RandomState(case['p'])
    pts = [x0] + [x0 + np.array(p) for p in case['pts']]
    seen = {}
    mth = method
    if mth in ('trust-ncg', 'trust-exact', 'trust-krylov') and scalar:
        mth = 'BFGS'
    bnds = [(-7.0, 9.0)] * x0.size if case['fwd'] else None
    if case['fwd']:
        cons = [{'type': 'ineq', 'fun': lambda v: 1.0}]
        kw.update(bounds=bnds, tol=0.125, options={'maxiter': 17}, constraints=cons)

    def recorder(fun=None, x0=None, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None, **rest):
        seen['called'] = 1
        args = args if isinstance(args, tuple) else (args,)
        require(isinstance(method, str) and method.lower() == mth.lower(), 'method %r was requested, %r reached SciPy', mth, method)
        require(np.array_equal(np.asarray(x0).ravel(), pts[0]), 'the starting point given to SciPy is %s, expected %s', short(x0), short(pts[0]))
        if case['fwd']:
            require(bounds is not None and np.array_equal(np.array(list(bounds), float), np.array(bnds)), 'bounds were not forwarded')
            require(len(list(constraints)) == 1 and list(constraints)[0]['fun'] is cons[0]['fun'], 'constraints were not forwarded')
            require(tol == 0.125 and options == {'maxiter': 17}, 'tol or options were not forwarded')
        require(callable(jac) or jac is True, 'no gradient was given to SciPy')
        for q, k in case['qs']:
            v = pts[k % len(pts)]
            pt = at(v)
            if not tame(pt):
                continue
            where = '%s at point %d' % ({'f': 'function', 'g': 'gradient', 'h': 'curvature'}[q], k)
            J = jacobian(pt)
            r = np.atleast_1d(vals(pt)[out]).ravel()
            if q == 'f':
                o = fun(v.copy(), *args)
                o = o[0] if jac is True else o
                require(np.size(o) == 1, '%s has %d values', where, np.size(o))
                require(close(np.ravel(np.asarray(o, float)), np.array([func(v)]), 1e-7, 1e-9), '%s is %s, expected %s', where, o, func(v))
            elif q == 'g':
                o = fun(v.copy(), *args)[1] if jac is True else jac(v.copy(), *args)
                o = np.asarray(o, float)
                w = grad(v)
                require(o.shape == w.shape, '%s has shape %s, expected %s', where, o.shape, w.shape)
                require(close(o, w, 1e-6, 1e-8), '%s is %s, expected %s', where, short(o), short(w))
            elif not scalar and mth in CURV:
                H = 2 * J.T.dot(J)
                require(hess is not None or hessp is not None, '%s: no curvature was given to %s', where, mth)
                if hess is not None and (hessp is None or case['hess']):
                    o = hess(v.copy(), *args)
                    o = np.asarray(o.toarray() if sp.issparse(o) else o, float)
                    require(o.shape == H.shape and close(o, H, 1e-6, 1e-8), '%s is %s, expected %s', where, short(o), short(H))
                else:
                    p = rng.randn(v.size)
                    o = np.asarray(hessp(v.copy(), p.copy(), *args), float)
                    require(o.shape == p.shape and close(o, H.dot(p), 1e-6, 1e-8), '%s times %s is %s, expected %s', where, short(p), short(o), short(H.dot(p)))
                ctx.label('curvature')
            if q == 'f':
                # the free variables hold the point just evaluated (callbacks look at them)
                require(np.array_equal(vec(point()), v), '%s: the free variables hold %s, not the evaluated point %s', where, short(vec(point())), short(v))
        if case['cb']:
            before = len(calls)
            require(callback is not None, 'the callback was not forwarded')
            callback(pts[-1].copy())
            require(len(calls) == before + 1, 'the forwarded callback does not call the one given')
        return scipy.optimize.OptimizeResult(x=pts[case['ans'] % len(pts)].copy(), fun=0.0, success=True)
    orig = scipy.optimize.minimize
    # wherever the library may have bound it
    places = [(scipy.optimize, 'minimize')] + [(m, k) for n, m in list(sys.modules.items()) if n.split('.')[0] == 'chumpy' for k, v in list(vars(m).items()) if v is orig]
    for m, k in places:
        setattr(m, k, recorder)
    try:
        got = target.minimize(x0=fv, method=mth, **kw) if target is y and case['ans'] % 2 else ch.minimize(target, fv, method=mth, **kw)
    finally:
        for m, k in places:
            setattr(m, k, orig)
    if not seen:
        raise Inconclusive()      # SciPy reached by another route: only the real runs decide
    finish(got, pts[case['ans'] % len(pts)])
    ctx.label('scalar' if scalar else 'vector', case['form'])
    return len(set(k % len(pts) for q, k in case['qs'])) >= 2
