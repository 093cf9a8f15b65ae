"""C12: deferred functions equal direct expressions."""
from vlib import ops

RULE = ('1-3 units (deferred functions with named arguments built from a shared or separate Python function, handles, grouped expressions) over 2-4 inputs and expressions of them and of earlier units, plus a combination of two units; '
        'a history of 3-12 bindings (at construction, by attribute, by set(), by call), input changes and queries of values and derivatives (forward, reverse, left product; with respect to inputs and to bound arguments). '
        'Every answer is compared with a NumPy evaluation of the function written out with the bindings of that moment. Non-trivial: a re-binding followed by a query.')
CASES = {'quick': 8000, 'thorough': 300000}
ASSUMPTIONS = ['units are queried once all arguments their function uses are bound']

FUNS = {
    'mul_sin': (('x', 'y'), lambda F, x, y: x * y + F.sin(x)),
    'sub_sq': (('a', 'b'), lambda F, a, b: (a - b) ** 2.),
    'tri': (('p', 'q', 's'), lambda F, p, q, s: F.cos(p) * q - s * p),
    'one': (('x',), lambda F, x: x * 2. + F.sin(x) * x),
    'swap': (('y', 'x'), lambda F, y, x: y - 3. * x),
    'ident': (('x',), lambda F, x: x),
    'unused': (('x', 'u'), lambda F, x, u: x * 3. + 1.),
    'unused0': (('u', 'x', 'y'), lambda F, u, x, y: F.sin(x) - y),
    'shared': (('x', 'y'), lambda F, x, y: (x + y) * (x + y) * F.cos(x + y)),
    'total': (('v', 'w'), lambda F, v, w: F.sum(v * w) + v),
    'outer': (('left', 'right'), lambda F, left, right: left * 2. - right * left),
    'neg': (('z',), lambda F, z: -z),
}
USES = {'unused': ('x',), 'unused0': ('x', 'y')}


def uses(f):
    return USES.get(f, FUNS[f][0])


def generate(g, tier):
    from vlib import gen
    import numpy as np
    shp = gen.shape(g, 6, 2)
    leaves = [ops.enc(gen.values(g, shp if i == 0 or g.chance(80) else [1], g.pick(['generic', 'distinct']))) for i in range(g.int(2, 4))]
    src = [{'k': 'leaf', 'i': i} for i in range(len(leaves))]
    for _ in range(g.int(0, 2)):
        src.append({'k': 'expr', 'f': g.pick(['sin', 'scale', 'self']), 'of': g.int(0, len(src) - 1)})
    units = []
    for u in range(g.weighted([(40, 1), (40, 2), (20, 3)])):
        k = g.weighted([(70, 'lambda'), (12, 'handle'), (18, 'group')])
        f = 'ident' if k == 'handle' else g.pick(sorted(FUNS))
        same = [j for j in range(len(units)) if units[j]['k'] == 'lambda'] if k == 'lambda' else []
        un = {'k': k, 'f': f, 'n': len(src)}
        if same and g.chance(40):
            un['same'] = g.pick(same)
            un['f'] = f = units[un['same']]['f']
        names = FUNS[f][0]
        if k == 'lambda':
            init = g.subset(names, 0) if g.chance(60) else []
        elif k == 'group':
            init = [n for n in names if n in uses(f) or g.chance(60)]
        else:
            init = list(names)
        un['init'] = {n: g.int(0, len(src) - 1) for n in init}
        un['via'] = g.pick(['ChLambda', 'Ch'])
        units.append(un)
        src.append({'k': 'unit', 'u': u})
        if g.chance(40):
            src.append({'k': 'expr', 'f': g.pick(['sin', 'scale']), 'of': len(src) - 1})
    comb = [g.int(0, len(src) - 1), g.int(0, len(src) - 1)]
    src.append({'k': 'comb', 'of': [comb[0], len(src) - 1]})
    steps = []
    for _ in range(g.int(3, 12)):
        t = g.weighted([(35, 'bind'), (20, 'set'), (20, 'get'), (35, 'dr'), (5, 'call'), (14, 'own')])
        if t in ('bind', 'call'):
            u = g.int(0, len(units) - 1)
            names = FUNS[units[u]['f']][0]
            if units[u]['k'] == 'group':
                names = [n for n in names if n in units[u]['init']]
            lim = units[u]['n'] - 1
            if t == 'bind':
                steps.append({'t': 'bind', 'u': u, 'b': {n: g.int(0, lim) for n in (g.subset(names, 1) if g.chance(30) else [g.pick(names)])}, 'how': g.pick(['attr', 'set'])})
            else:
                steps.append({'t': 'call', 'u': u, 'b': {n: g.int(0, lim) for n in names}})
        elif t == 'own':
            u = g.int(0, len(units) - 1)
            steps.append({'t': 'own', 'u': u, 'n': g.pick(FUNS[units[u]['f']][0]), 'v': ops.enc(gen.values(g, shp if g.chance(30) else [1], 'generic')), 'how': g.pick(['x', 'item'])})
        elif t == 'set':
            i = g.int(0, len(leaves) - 1)
            steps.append({'t': 'set', 'i': i, 'v': ops.enc(gen.values(g, leaves[i]['s'] or [1], 'generic')), 'how': g.pick(['x', 'item'])})
        elif t == 'get':
            steps.append({'t': 'get', 's': g.int(0, len(src) - 1) if g.chance(40) else len(src) - 1 - g.int(0, 2)})
        else:
            s = g.int(len(leaves), len(src) - 1)
            steps.append({'t': 'dr', 's': s, 'w': g.int(0, len(leaves) - 1) if g.chance(65) else g.int(0, s - 1), 'm': g.pick(['fwd', 'fwd', 'rev', 'lop'])})
    return {'leaves': leaves, 'src': src, 'units': units, 'steps': steps}


class NPF(object):
    pass


def check(case, ctx):
    import numpy as np
    import scipy.sparse as sp
    import chumpy as ch
    from chumpy.ch import ChGroup
    from vlib.util import check_value, check_jac, require
    F = NPF()
    F.sin, F.cos, F.sum = np.sin, np.cos, np.sum
    model = [np.atleast_1d(ops.dec(v)).astype(float) for v in case['leaves']]
    src, units = list(case['src']), case['units']
    own = []
    obj, lams = {}, {}
    bind = [dict(u['init']) for u in units]

    def lam_of(u):
        un = units[u]
        if 'same' in un:
            return lam_of(un['same'])
        if u not in lams:
            names, fn = FUNS[un['f']]
            lams[u] = eval('lambda %s: _fn(_F, %s)' % (', '.join(names), ', '.join(names)), {'_fn': fn, '_F': ch})
        return lams[u]

    for i, s in enumerate(src):
        if s['k'] == 'leaf':
            obj[i] = ch.Ch(model[s['i']].copy())
        elif s['k'] == 'expr':
            x = obj[s['of']]
            obj[i] = {'sin': lambda: ch.sin(x), 'scale': lambda: x * 1.5, 'self': lambda: x * x}[s['f']]()
        elif s['k'] == 'comb':
            obj[i] = obj[s['of'][0]] * 2.0 + ch.sin(obj[s['of'][1]])
        else:
            un = units[s['u']]
            init = {n: obj[j] for n, j in un['init'].items()}
            if un['k'] == 'lambda':
                lam = lam_of(s['u'])
                cls = ch.ChLambda if un['via'] == 'ChLambda' else ch.Ch
                obj[i] = cls(lam, init) if init else cls(lam)
            elif un['k'] == 'handle':
                obj[i] = ch.ChHandle(x=init['x'])
            else:
                obj[i] = ChGroup(ch.ChLambda(lam_of(s['u'])), init)
        ctx.label(s['k'] if s['k'] != 'unit' else units[s['u']]['k'])
    pos = {s['u']: i for i, s in enumerate(src) if s['k'] == 'unit'}

    def ready(i):
        s = src[i]
        if s['k'] == 'leaf':
            return True
        if s['k'] == 'expr':
            return ready(s['of'])
        if s['k'] == 'comb':
            return ready(s['of'][0]) and ready(s['of'][1])
        u = s['u']
        return all(n in bind[u] and ready(bind[u][n]) for n in uses(units[u]['f']))

    def ev(i, ov, memo):
        if i in ov:
            return ov[i]
        if i in memo:
            return memo[i]
        s = src[i]
        if s['k'] == 'leaf':
            r = model[s['i']]
        elif s['k'] == 'expr':
            x = ev(s['of'], ov, memo)
            r = {'sin': lambda: np.sin(x), 'scale': lambda: x * 1.5, 'self': lambda: x * x}[s['f']]()
        elif s['k'] == 'comb':
            r = ev(s['of'][0], ov, memo) * 2.0 + np.sin(ev(s['of'][1], ov, memo))
        else:
            u = s['u']
            names, fn = FUNS[units[u]['f']]
            r = fn(F, *[ev(bind[u][n], ov, memo) if n in uses(units[u]['f']) else None for n in names])
        memo[i] = np.atleast_1d(r)
        return memo[i]

    def jac(i, w):
        x0 = ev(w, {}, {})
        cols = []
        for k in range(x0.size):
            z = np.array(x0, dtype=complex, order='C')
            z.ravel()[k] += 1e-20j
            cols.append(np.imag(np.asarray(ev(i, {w: z}, {}), complex)).ravel() / 1e-20)
        return np.array(cols).T

    rebound, nt = False, False

    def small(i):
        return float(np.max(np.abs(ev(i, {}, {})))) < 1e6
    for si, s in enumerate(case['steps']):
        where = 'step %d' % si
        ctx.label(s['t'])
        if s['t'] in ('bind', 'call'):
            u = s['u']
            o = obj[pos[u]]
            b = {n: obj[j] for n, j in s['b'].items()}
            bind[u].update(s['b'])
            rebound = True
            if s['t'] == 'call':
                if not ready(pos[u]):
                    o.set(**b)
                    continue
                r = o(**b)
                check_value(r, ev(pos[u], {}, {}), where + ': value returned by the call')
            elif s['how'] == 'attr':
                for n in b:
                    setattr(o, n, b[n])
            else:
                o.set(**b)
        elif s['t'] == 'own':
            # an argument nobody bound is a variable of its own, which can be written to
            u, n = s['u'], s['n']
            if units[u]['k'] != 'lambda' or n not in uses(units[u]['f']):
                continue
            if n in bind[u] and bind[u][n] not in own:
                continue
            if n not in bind[u]:
                src.append({'k': 'leaf', 'i': len(model)})
                model.append(None)
                own.append(len(src) - 1)
                obj[len(src) - 1] = getattr(obj[pos[u]], n)
                bind[u][n] = len(src) - 1
            ph = obj[bind[u][n]]
            require(type(ph) is ch.Ch, '%s: the unbound argument %s is not an input', where, n)
            v = ops.dec(s['v'])
            if s['how'] == 'item' and v.size == 1 and ph.r.size == 1:
                ph[:] = v.ravel()[0]
                v = v.reshape(ph.r.shape)
            else:
                ph.x = v.copy()
            model[src[bind[u][n]]['i']] = np.array(v)
            ctx.label('unbound-argument')
        elif s['t'] == 'set':
            v = ops.dec(s['v'])
            if s['how'] == 'x':
                obj[s['i']].x = v.copy()
            else:
                obj[s['i']][...] = v
            model[s['i']] = np.array(v)
        elif s['t'] == 'get':
            if ready(s['s']) and small(s['s']):
                check_value(obj[s['s']].r, ev(s['s'], {}, {}), '%s: value of %s' % (where, src[s['s']]), rtol=1e-8, atol=1e-9)
                nt = nt or rebound
        else:
            i, w = s['s'], s['w']
            if not ready(i) or not ready(w) or i == w or not small(i):
                continue
            W = jac(i, w)
            y, x = obj[i], obj[w]
            if s['m'] == 'fwd':
                J = y.dr_wrt(x)
            elif s['m'] == 'rev':
                J = y.dr_wrt(x, reverse_mode=True)
            else:
                lhs = np.cos(np.arange(W.shape[0]) + 1.0).reshape(1, -1)
                W = lhs.dot(W)
                J = y.lop(x, lhs)
                if J is not None and not sp.issparse(J) and np.size(J) == 1 and W.size == 1:
                    J = np.reshape(np.asarray(J, dtype=np.float64), (1, 1))
            check_jac(J, W, '%s: derivative of source %d %s wrt source %d %s [%s]' % (where, i, src[i], w, src[w], s['m']))
            nt = nt or rebound
    for i in range(len(src)):
        if ready(i) and src[i]['k'] != 'leaf' and small(i):
            check_value(obj[i].r, ev(i, {}, {}), 'end: value of source %d %s' % (i, src[i]), rtol=1e-8, atol=1e-9)
            for w in list(range(len(case['leaves']))) + own:
                check_jac(obj[i].dr_wrt(obj[w]), jac(i, w), 'end: derivative of source %d %s wrt input %d' % (i, src[i], w))
    return nt
