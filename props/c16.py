"""C16: the optimum does not depend on how the problem is written."""
import numpy as np
from vlib import ops, prob

RULE = ('A least-squares problem with a unique well-conditioned solution (linear, or mildly curved with a unique root) is minimised in 2-4 presentations: residual as one expression, reshaped, permuted, or cut into a list, tuple or dictionary of parts in any order (a part may be given twice, which counts twice); free variables whole, cut into slices or index lists, nested, permuted; '
        'dense or sparse Jacobians forced on the objective or in the solver, any linear solver, callbacks, printing, initial radius; each on a new graph or, from the same start, on the objects of the presentation before; sometimes a SciPy method. Every presentation must end at the closed-form optimum (curved: at the same point, a root). '
        'Non-trivial: at least two different presentations and a start away from the optimum.')
CASES = {'quick': 1300, 'thorough': 120000}
ASSUMPTIONS = ['condition number below 200']


def gen_pres(g, nodes, out, leaves, m, kind):
    import copy
    p = {'form': g.pick(['expr', 'resh', 'perm', 'list', 'list', 'tuple', 'dict'])}
    if p['form'] in ('list', 'tuple', 'dict') and m > 1:
        idx = g.perm(m) if g.chance(50) else list(range(m))
        cuts = sorted(set(g.int(1, m - 1) for _ in range(g.int(1, 2))))
        p['parts'] = [idx[a:b] for a, b in zip([0] + cuts, cuts + [m])]
        if g.chance(50):
            p['parts'] = [p['parts'][k] for k in g.perm(len(p['parts']))]
        if g.chance(25) and kind == 'lin':
            p['parts'].append(g.pick(p['parts']))
        p['col'] = g.int(0, 1)
        p['one'] = g.int(0, 1)
    elif p['form'] == 'perm':
        p['idx'] = g.perm(m)
    free = []
    for l in leaves:
        s = nodes[l]['v']['s'] or [1]
        n = int(np.prod(s))
        t = g.pick(['whole', 'rows', 'index', 'elements', 'nested']) if s[0] > 1 else g.pick(['whole', 'all'])
        if t == 'whole':
            free.append({'l': l, 'keys': []})
        elif t == 'all':
            free.append({'l': l, 'keys': [g.pick(['...', {'sl': [None, None, None]}])]})
        elif t == 'rows':
            k = g.int(1, s[0] - 1)
            free += [{'l': l, 'keys': [{'sl': [None, k, None]}]}, {'l': l, 'keys': [{'sl': [k, None, None]}]}]
        elif t == 'index':
            q = g.perm(s[0])
            k = g.int(1, s[0] - 1)
            free += [{'l': l, 'keys': [{'ix': q[:k], 'sh': 'list'}]}, {'l': l, 'keys': [{'ix': q[k:], 'sh': [s[0] - k]}]}]
        elif t == 'elements':
            free += [{'l': l, 'keys': [k]} for k in range(s[0])]
        else:
            free += [{'l': l, 'keys': [{'sl': [None, None, -1]}, {'sl': [None, 1, None]}]}, {'l': l, 'keys': [{'sl': [None, None, -1]}, {'sl': [1, None, None]}]}]
    if g.chance(60):
        free = [free[i] for i in g.perm(len(free))]
    p['free'] = free
    o = {'disp': g.int(0, 1)}
    if g.chance(40):
        o['treat_as_dense'] = 1
    if g.chance(50):
        o['sparse_solver'] = g.pick(['cg', 'spsolve', 'callable'])
    if g.chance(30):
        o['delta_0'] = g.pick([0.1, 1.0, 10.0])
    if not g.chance(15):
        o.update(e_1=1e-11, e_2=1e-11)      # else the defaults, which run into rounding errors
    p['opts'] = o
    p['cb'] = g.int(0, 1)
    p['mk'] = g.pick(['', '', 'dense', 'sparse'])
    p['method'] = 'dogleg' if g.chance(92) else g.pick(['BFGS', 'L-BFGS-B', 'SLSQP', 'Newton-CG'])
    return p


def generate(g, tier):
    kind = g.pick(['lin', 'lin', 'mild'])
    d, leaves, out = prob.linear(g, well=True, square=kind == 'mild', curved=0.3 if kind == 'mild' else 0.0)
    from vlib import gen
    m = d.vals[out].size
    nodes, mp = gen.prune(d.nodes, [out])
    leaves = [mp[l] for l in leaves]
    return {'kind': kind, 'nodes': nodes, 'out': mp[out], 'leaves': leaves, 'reuse': g.weighted([(50, 0), (25, 1), (25, 2)]), 'pres': [gen_pres(g, nodes, mp[out], leaves, m, kind) for _ in range(g.weighted([(70, 2), (20, 3), (10, 4)]))]}


def check(case, ctx):
    import chumpy as ch
    import scipy.sparse.linalg
    from vlib.util import require, short
    nodes, out, leaves = case['nodes'], case['out'], case['leaves']
    start = np.concatenate([np.atleast_1d(ops.dec(nodes[l]['v'])).ravel() for l in leaves])
    r0 = ops.ref_eval(nodes, [out])[out].ravel()
    J = np.hstack([ops.ref_jac(nodes, out, l) for l in leaves])
    m = r0.size
    if np.linalg.cond(J) > 200 or (case['kind'] == 'mild' and (m == 1 or np.linalg.cond(J) > 8)):
        return False
    ends = []
    for k, p in enumerate(case['pres']):
        if k and case.get('reuse'):
            # the same objects again, from the same start
            for l in leaves:
                v = np.atleast_1d(ops.dec(nodes[l]['v'])).astype(float)
                if case['reuse'] == 1:
                    built[l].x = v.copy()
                else:
                    built[l][...] = v
            ctx.label('same-objects')
        else:
            built = ops.ch_build(ch, nodes)
        y = built[out]
        wts = np.ones(m)
        if p['form'] == 'expr':
            t = y
        elif p['form'] == 'resh':
            t = y.reshape((-1, 1))
        elif p['form'] == 'perm':
            t = y[p['idx']]
        else:
            parts = p.get('parts') or [list(range(m))]
            es, known = [], {}
            for q in parts:      # the part given twice is one and the same expression, or two equal ones
                e = known.get(tuple(q)) if p.get('one') else None
                es.append(y[list(q)] if e is None else e)
                known[tuple(q)] = es[-1]
            if p.get('col'):
                new = {}
                es = [new.setdefault(id(e), e.reshape((-1, 1)) if len(q) > 1 else e) for e, q in zip(es, parts)]
            wts = np.zeros(m)
            for q in parts:
                wts[q] += 1
            t = {'list': lambda: es, 'tuple': lambda: tuple(es), 'dict': lambda: dict(('p%d' % i, e) for i, e in enumerate(es))}[p['form']]()
        if p['mk'] and p['form'] in ('expr', 'resh', 'perm') and m > 1:
            t = ch.multiply(t, 1.0, **{'make_' + p['mk']: True})
            ctx.label('make_' + p['mk'])
        fv = [prob.build_free(built, f) for f in p['free']]
        o = dict(p['opts'])
        o['disp'] = bool(o['disp'])
        if o.get('sparse_solver') == 'callable':
            o['sparse_solver'] = lambda A, b: scipy.sparse.linalg.spsolve(A.tocsc(), b)
        if o.get('treat_as_dense'):
            o['treat_as_dense'] = True
        method = p['method']
        if method != 'dogleg':
            if m == 1:
                method = 'dogleg'      # a scalar is minimised itself, not its square
            else:
                o = None
        kw = {'callback': (lambda *a: None)} if p['cb'] else {}
        ch.minimize(t, fv, method=method, options=o, **kw)
        end = np.concatenate([np.array(built[l].r).ravel() for l in leaves])
        loose = method != 'dogleg'
        if case['kind'] == 'lin':
            w = np.sqrt(wts)[:, None]
            want = start + np.linalg.lstsq(w * J, -(w[:, 0] * r0), rcond=None)[0]
            tol = 2e-3 if loose else (1e-4 if o.get('sparse_solver') == 'cg' else 1e-6)
            require(np.linalg.norm(end - want) <= tol * (1 + np.linalg.norm(want) + np.linalg.norm(start)),
                    'presentation %d (%s) ends at %s, the optimum is %s', k, p, short(end), short(want))
        else:
            ov = {l: np.array(built[l].r) for l in leaves}
            r = ops.ref_eval(nodes, [out], ov)[out]
            require(np.linalg.norm(r) <= (2e-2 if loose else 1e-5) * (1 + np.linalg.norm(r0)), 'presentation %d (%s) ends with residual %g, the optimum has 0', k, p, np.linalg.norm(r))
            ends.append((k, end, loose))
        ctx.label(p['form'], method)
    for (k, e, l) in ends[1:]:
        k0, e0, l0 = ends[0]
        require(np.linalg.norm(e - e0) <= (2e-2 if l or l0 else 1e-5) * (1 + np.linalg.norm(e0)), 'presentations %d and %d end at different points %s and %s', k0, k, short(e0), short(e))
    return bool(np.linalg.norm(r0) > 1e-3) and len(set(repr(sorted(p.items(), key=str)) for p in case['pres'])) > 1
