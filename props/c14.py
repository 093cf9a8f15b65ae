"""C14: the dogleg solver: progress, limits and isolation."""
import io
import re
import sys
import numpy as np
from vlib import ops, prob

RULE = ('Linear (well-conditioned, rank-deficient, underdetermined), mildly curved, Rosenbrock, partly undefined (log, sqrt, reciprocal, powers), flat and random-expression residuals; free variables are whole inputs, (nested) selections or disjoint parts of one input, other inputs stay fixed; '
        'random maxiter, max_fevals, e_1, e_2, e_3, delta_0, linear solver, dense/sparse handling, display. A monitor records every displayed line, every evaluation point and every reported step and checks the promised invariants; linear and mildly curved problems must reach the minimiser computed by NumPy. '
        'Non-trivial: at least one accepted step.')
CASES = {'quick': 3200, 'thorough': 150000}
ASSUMPTIONS = ['the residual and its Jacobian are finite at the start and wherever a step is accepted', 'maxiter >= 1, max_fevals >= 2, e_1 > 0']


def generate(g, tier):
    kind, nodes, out, leaves = prob.gen_problem(g, [(30, 'lin'), (15, 'mild'), (10, 'def'), (6, 'rosen'), (12, 'fail'), (7, 'flat'), (28, 'dag')])
    if not leaves:
        return {'kind': 'none'}
    free = prob.gen_free(g, nodes, leaves)
    o = {'disp': int(g.chance(30))}
    full = g.chance(35)       # run to convergence
    if not full and g.chance(40):
        o['maxiter'] = g.pick([1, 2, 3, 5, 20, 200])
    if not full and g.chance(30):
        o['max_fevals'] = g.pick([2, 3, 4, 6, 10, 50])
    if not full and g.chance(25):
        o['e_1'] = g.pick([1e-12, 1e-6, 1e-3, 1e-1, 10.0])
    if not full and g.chance(25):
        o['e_2'] = g.pick([1e-12, 1e-6, 1e-3, 1e-1])
    if not full and g.chance(25):
        o['e_3'] = g.pick([1e-8, 1e-3, 0.1, 0.5, 0.9])
    if g.chance(45):
        o['delta_0'] = g.pick([1e-3, 0.05, 0.3, 1.0, 5.0, 1e3])
    if g.chance(30):
        o['sparse_solver'] = g.pick(['cg', 'spsolve', 'callable'])
    if g.chance(30):
        o['treat_as_dense'] = 1
    return {'kind': kind, 'nodes': nodes, 'out': out, 'free': free, 'opts': o, 'api': g.weighted([(40, 0), (40, 1), (20, 2)]), 'form': g.pick(['expr', 'expr', 'list', 'dict', 'dict2']),
            'prior': g.int(0, 1), 'extra': g.int(0, 1)}


PROBE = []


def probe_class():
    if not PROBE:
        import chumpy as ch
        import scipy.sparse as sp

        class Probe(ch.Ch):
            """The identity, reporting each evaluation."""
            dterms = 'x',

            def compute_r(self):
                r = np.array(self.x.r)
                if self.hook:
                    self.hook(r)
                return r

            def compute_dr_wrt(self, wrt):
                if wrt is self.x:
                    return sp.eye(self.x.size, self.x.size, format='csc')
        PROBE.append(Probe)
    return PROBE[0]


def check(case, ctx):
    import chumpy as ch
    import scipy.sparse.linalg
    from vlib.util import require, Inconclusive, close, short, fail
    if case['kind'] == 'none':
        return False
    nodes, out, o = case['nodes'], case['out'], dict(case['opts'])
    built = ops.ch_build(ch, nodes)
    y = built[out]
    leaves = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    start = {i: np.array(built[i].r) for i in leaves}
    r0 = np.atleast_1d(ops.ref_eval(nodes, [out])[out])
    if not np.all(np.isfinite(r0)):
        return False
    pos = [prob.positions(nodes, f) for f in case['free']]
    mask = {i: np.zeros(start[i].size, bool) for i in leaves}
    for f, p in zip(case['free'], pos):
        mask[f['l']][p.ravel()] = True
    fv = [prob.build_free(built, f) for f in case['free']]
    other = None
    if case['extra']:
        # another expression over the same inputs, already evaluated
        other = [y * 2.0 + 1.0, ch.sin(built[case['free'][0]['l']])]
        for e in other:
            e.r

    def point():
        return {i: np.array(built[i].r) for i in leaves}

    def vec(pt):
        return np.concatenate([pt[f['l']].ravel()[p.ravel()] for f, p in zip(case['free'], pos)])

    def resid(pt):
        return np.atleast_1d(ops.ref_eval(nodes, [out], {i: v for i, v in pt.items()})[out])

    def jacobian(pt):
        cols = []
        for f, p in zip(case['free'], pos):
            J = ops.ref_jac(nodes, out, f['l'], base=pt, override={i: v for i, v in pt.items()})
            cols.append(J[:, p.ravel()])
        return np.hstack(cols)

    if case['kind'] == 'dag' and not np.all(np.isfinite(jacobian(start))):
        return False
    evals, steps = [], []
    P = probe_class()(x=y)

    def hook(r):
        v = vec(point())
        # evaluating again at the same point (deferred sub-graphs do so) is not a new evaluation
        if not evals or not np.array_equal(evals[-1][0], v, equal_nan=True):
            evals.append((v, r.ravel().copy()))
    P.hook = hook
    if case['prior']:
        P.r
        P.dr_wrt(built[case['free'][0]['l']])
    target = P
    if case['form'] == 'list':
        target = [P] if r0.size < 2 else [P, ]
    elif case['form'] == 'dict':
        target = {'part': P}
    elif case['form'] == 'dict2':
        # two labelled parts, not in the order of their labels
        flat = P.ravel()
        target = {'zz': flat[:1 + r0.size // 2], 'an': flat[1 + r0.size // 2:]} if r0.size > 1 else {'zz': flat}

    def on_step(*a):
        steps.append((point(), np.array(a[0].r).ravel() if a and hasattr(a[0], 'r') else None))
    if o.get('sparse_solver') == 'callable':
        o['sparse_solver'] = lambda A, b: scipy.sparse.linalg.spsolve(A.tocsc(), b)
    if 'treat_as_dense' in o:
        o['treat_as_dense'] = True
    o['disp'] = bool(o['disp'])
    real, sys.stderr = sys.stderr, io.StringIO()
    try:
        if case['api'] == 2 and target is P:
            got = P.minimize(fv, callback=on_step, options=o)
            ctx.label('method-of-the-expression')
        elif case['api'] == 1:
            from chumpy.optimization_internal import minimize_dogleg
            got = minimize_dogleg(target, free_variables=fv, on_step=on_step, **o)
        else:
            got = ch.minimize(target, fv, method='dogleg', callback=on_step, options=o)
    except np.linalg.LinAlgError:
        if not np.all(np.isfinite(jacobian(point()))):
            raise Inconclusive()
        raise
    finally:
        printed, sys.stderr = sys.stderr.getvalue(), real
    n_evals = len(evals)
    P.hook = None
    end = point()
    # isolation
    for i in leaves:
        a, b = start[i].ravel(), end[i].ravel()
        require(end[i].shape == start[i].shape, 'input %d changed its shape from %s to %s', i, start[i].shape, end[i].shape)
        keep = ~mask[i]
        require(np.array_equal(a[keep], b[keep]), 'entries of input %d that are not free changed from %s to %s', i, short(a), short(b))
    require(len(steps) >= 1, 'no step was reported')
    require(len(list(got)) == len(fv) and all(p is q for p, q in zip(got, fv)), 'the returned free variables are not the given ones')

    def tame(pt):
        vals = ops.ref_eval(nodes, None, {i: v for i, v in pt.items()})
        return all(np.all(np.isfinite(np.asarray(v))) and np.max(np.abs(v)) < 1e6 for v in vals.values())
    # each report: the residual at the point the free variables hold; decreasing
    sse = []
    for k, (pt, r) in enumerate(steps):
        want = resid(pt).ravel()
        if r is not None:
            require(np.all(np.isfinite(r)), 'reported step %d has a non-finite residual %s', k, short(r))
            if tame(pt):
                require(close(r, want, 1e-7, 1e-9), 'reported step %d: residual %s, but at the point the free variables hold it is %s', k, short(r), short(want))
        # (powers that overflow are documented to give 0, so the report counts where numbers get large)
        sse.append(float(np.sum((want if r is None or tame(pt) else r) ** 2)))
        if k:
            require(sse[k] <= sse[k - 1] * (1 + 1e-9) + 1e-300, 'reported step %d increased the residual from %r to %r', k, sse[k - 1], sse[k])
            if r is not None and steps[k - 1][1] is not None:
                a, b = np.linalg.norm(steps[k - 1][1]), np.linalg.norm(r)
                require(b <= a and not np.array_equal(np.abs(r), np.abs(steps[k - 1][1])), 'reported step %d did not decrease the residual (%r, before %r)', k, b, a)
    require(all(np.array_equal(steps[0][0][i], start[i]) for i in leaves), 'the first report is not at the start')
    for i in leaves:
        require(np.array_equal(steps[-1][0][i], end[i]), 'returned point %s differs from the best reported one %s', short(end[i]), short(steps[-1][0][i]))
    # what is displayed
    lines = [l for l in printed.split('\n') if re.match(r'^(\d\.\d\de[+-]\d+|nan|inf)( \| .*)?$', l)]
    require(len(lines) == (len(steps) if o['disp'] else 0), '%d lines of progress for %d reported steps (display %s)', len(lines), len(steps), o['disp'])
    for k, l in enumerate(lines):
        pt = steps[k][0]
        if not tame(pt):
            continue
        r = resid(pt).ravel()
        h = 1 + r0.size // 2
        want = [('', np.sum(r ** 2))] + {'dict': [('part: ', np.sum(r ** 2))], 'dict2': [('an: ', np.sum(r[h:] ** 2)), ('zz: ', np.sum(r[:h] ** 2))][0 if r.size > 1 else 1:]}.get(case['form'], [])
        got_ = l.split(' | ')
        require(len(got_) == len(want) and all(a.startswith(b) for a, (b, _) in zip(got_, want)), 'the progress line %r does not show the total and the parts %s', l, [b for b, _ in want])
        for a, (b, v) in zip(got_, want):
            x = float(a[len(b):])
            require(abs(x - v) <= 0.0051 * 10 ** np.floor(np.log10(max(x, 1e-300))) + 1e-6 * v + 1e-12, 'step %d is displayed as %r but the sum of squares is %r', k, a, v)
        ctx.label('displayed')
    fin = resid(end) if tame(end) else np.array(y.r)
    require(np.all(np.isfinite(fin)), 'the final residual is not finite')
    # later queries see the final point
    if tame(end):
        require(close(np.array(y.r).ravel(), fin.ravel(), 1e-7, 1e-9), 'after minimising, the expression is %s but at the final point it is %s', short(y.r), short(fin))
        if other:
            require(close(np.array(other[0].r).ravel(), (fin * 2.0 + 1.0).ravel(), 1e-7, 1e-9), 'after minimising, another expression of the same inputs has an outdated value')
            require(close(np.array(other[1].r), np.sin(end[case['free'][0]['l']]), 1e-7, 1e-9), 'after minimising, another expression of the same inputs has an outdated value')
        for v, f, p in zip(fv, case['free'], pos):
            require(np.array_equal(np.array(v.r), end[f['l']].ravel()[p.ravel()].reshape(p.shape)), 'free variable %s does not hold the final values of its input', f)
    # limits
    acc = len(steps) - 1
    if 'maxiter' in o:
        require(acc <= o['maxiter'], '%d steps were taken with maxiter=%d', acc, o['maxiter'])
    require(acc <= 200, '%d steps were taken with the default maxiter of 200', acc)
    if 'max_fevals' in o:
        require(n_evals <= o['max_fevals'], '%d evaluations with max_fevals=%d', n_evals, o['max_fevals'])
    if 'delta_0' in o and n_evals >= 2:
        d1 = np.linalg.norm(evals[1][0] - evals[0][0])
        p0 = np.linalg.norm(evals[0][0])
        require(not d1 > o['delta_0'] * (1 + 1e-9) + 1e-14 * p0, 'the first trial step has length %r with delta_0=%r', d1, o['delta_0'])
    e1, e2, e3 = o.get('e_1', 1e-15), o.get('e_2', 1e-15), o.get('e_3', 0.)
    for k in range(1, len(steps)):
        a, b = vec(steps[k - 1][0]), vec(steps[k][0])
        require(np.linalg.norm(b - a) > e2 * np.linalg.norm(a) * (1 - 1e-6) - 1e-300 or np.linalg.norm(b - a) <= 4e-16 * np.linalg.norm(a) or e2 <= 1e-12, 'step %d is shorter than e_2=%g times the point', k, e2)
        if e3 > 0 and k < len(steps) - 1 and sse[k - 1] > 1e-20:
            require((sse[k - 1] - sse[k]) / sse[k - 1] >= e3 * (1 - 1e-6) - 1e-9, 'continued after step %d although the improvement %g was below e_3=%g', k, (sse[k - 1] - sse[k]) / sse[k - 1], e3)
    if e1 >= 1e-6:
        for k in range(len(steps) - 1):
            if not tame(steps[k][0]) or ops.margin(nodes, ops.ref_eval(nodes, None, dict(steps[k][0])), ops.needed(nodes, [out])) < 1e-3:
                continue
            gr = np.abs(jacobian(steps[k][0]).T.dot(resid(steps[k][0]).ravel())).max()
            require(gr > e1 * (1 - 1e-5) - 1e-9, 'continued from step %d although the gradient %g was below e_1=%g', k, gr, e1)
    # optimum
    free_run = not (set(['maxiter', 'max_fevals', 'e_1', 'e_2', 'e_3']) & set(o)) and o.get('delta_0', 1.0) > 0.01
    if free_run and case['kind'] in ('lin', 'mild'):
        J = jacobian(start)
        if case['kind'] == 'lin':
            if np.linalg.cond(J) < 300:
                d = np.linalg.lstsq(J, -r0.ravel(), rcond=None)[0]
                want = vec(start) + d
                tol = 1e-4 if o.get('sparse_solver') == 'cg' else 1e-6
                require(np.linalg.norm(vec(end) - want) <= tol * (1 + np.linalg.norm(want)), 'linear problem: minimiser is %s, found %s', short(want), short(vec(end)))
                ctx.label('linear-optimum')
        elif all(m.all() for i, m in mask.items() if i in set(f['l'] for f in case['free'])) and J.shape[0] == J.shape[1]:
            if np.linalg.norm(fin) <= 1e-6 * (1 + np.linalg.norm(r0)):
                ctx.label('curved-optimum')
            else:
                # must then be stationary
                g1 = np.abs(jacobian(end).T.dot(fin.ravel())).max()
                require(g1 <= 1e-4 * (1 + np.linalg.norm(r0)), 'curved problem: stopped with residual %g and gradient %g', np.linalg.norm(fin), g1)
    if n_evals - 1 > acc:
        ctx.label('rejected-trial')
    if any(not np.all(np.isfinite(e[1])) for e in evals):
        ctx.label('nan-trial')
    ctx.label(case['kind'])
    if any(f['keys'] for f in case['free']):
        ctx.label('selection')
    if len(fv) > len(set(f['l'] for f in case['free'])):
        ctx.label('parts')
    return acc >= 1
