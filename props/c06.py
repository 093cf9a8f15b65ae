"""C06: assignment changes exactly the addressed elements."""
from vlib import ops, views

RULE = ('1-3 inputs (float, or holding integers) with watchers (views and expressions); a history of 2-8 assignments through chains of 0-3 views and a random index expression, '
        'of Python numbers, 0-d, broadcast or full arrays, finite or not, onto finite or non-finite elements; some steps try to assign an expression, or to assign to an expression that is not a view. '
        'After each step every input is compared bit for bit with a NumPy model and the watchers with the re-evaluated model. '
        'Inputs of more than 65536 elements are assigned to, too. '
        'Non-trivial: some accepted assignment through at least one view, or a proper subset of the elements.')
CASES = {'quick': 9000, 'thorough': 300000}
ASSUMPTIONS = ['repeated elements in an index are only assigned one common value (NumPy leaves the winner of several open)']

EXPR = ['sin', 'sum', 'square', 'neg']
NOVIEW = EXPR + ['cumsum', 'max', 'clip', 'floor', 'abs', 'maximum', 'stack', 'moved', 'mean', 'dot']


def _value(g, shp, uniq, lead=False):
    """A value NumPy accepts for a target of this shape."""
    from vlib import gen
    import numpy as np
    kind = g.weighted([(70, None), (20, 'nonfinite'), (10, 'special')])
    t = g.weighted([(35, 'full'), (25, 'num'), (20, 'bc'), (8, 'zerod'), (6, 'list'), (6, 'int')]) if uniq else g.pick(['num', 'zerod', 'int'])
    if t == 'num':
        return {'t': t, 'v': float(gen.values(g, [1], kind)[0])}
    if t == 'int':
        return {'t': t, 'v': g.int(-5, 5)}
    if t == 'zerod':
        return {'t': t, 'v': ops.enc(gen.values(g, [], 'generic' if kind is None else kind))}
    s = list(shp)
    if t == 'bc':
        s = [1 if g.chance(45) else k for k in s]
        if g.chance(40):
            s = s[g.int(0, len(s)):]
        elif g.chance(20) and lead:
            s = [1] + s
    return {'t': t, 'v': ops.enc(gen.values(g, s, kind))}


def generate(g, tier):
    from vlib import gen, large
    import numpy as np
    if g.chance(1):
        return large.gen_assign(g)
    leaves = []
    for _ in range(g.weighted([(60, 1), (40, 2)])):
        s = gen.shape(g, 40 if g.chance(10) else 20, 3)
        k = g.weighted([(60, 'float'), (15, 'int'), (10, 'nonfinite'), (8, 'shared'), (7, 'F')])
        v = gen.values(g, s, {'int': 'ties', 'nonfinite': 'nonfinite'}.get(k))
        if k == 'shared' and leaves:
            v = ops.dec(leaves[0]['v'])
        leaves.append({'v': ops.enc(v), 'k': k})
    shapes = [list(l['v']['s']) for l in leaves]
    wat = []
    for _ in range(g.int(0, 3)):
        l = g.int(0, len(leaves) - 1)
        wat.append({'l': l, 'c': views.gen_chain(g, shapes[l], g.int(0, 2)), 'e': g.pick([None] + EXPR)})
    steps = []
    for _ in range(g.int(2, 8)):
        t = g.weighted([(80, 'set'), (7, 'badvalue'), (8, 'badtarget'), (10, 'q')])
        l = g.int(0, len(leaves) - 1)
        st = {'t': t, 'l': l}
        if t == 'q':
            st['w'] = g.int(0, max(0, len(wat) - 1))
            st['d'] = g.int(0, 1)
            steps.append(st)
            continue
        st['c'] = views.gen_chain(g, shapes[l], g.weighted([(35, 0), (35, 1), (20, 2), (10, 3)]))
        vs = list(views.positions(shapes[l], st['c']).shape)
        st['key'] = gen.index_key(g, vs) if not g.chance(15) else {'sl': [None, None, None]}
        p = views.positions(shapes[l], st['c'])[ops.key_of(st['key'])]
        if t == 'set':
            st['v'] = _value(g, p.shape, len(set(p.ravel().tolist())) == p.size, not (isinstance(st['key'], dict) and 'mask' in st['key']))
            st['keep'] = g.int(0, 1)
        elif t == 'badtarget':
            st['e'] = g.pick(NOVIEW + ['two', 'view'])
            st['v'] = _value(g, p.shape, False)
        steps.append(st)
    return {'leaves': leaves, 'wat': wat, 'steps': steps}


def _expr(ch, e, x):
    import numpy as np
    m = np if ch is None else ch
    return {'sin': lambda: m.sin(x), 'sum': lambda: m.sum(x), 'square': lambda: x * x, 'neg': lambda: -x,
            'cumsum': lambda: m.cumsum(x), 'max': lambda: m.max(x), 'clip': lambda: m.clip(x, -0.5, 2.0), 'floor': lambda: m.floor(x), 'abs': lambda: m.absolute(x),
            'maximum': lambda: m.maximum(x, 0.25), 'stack': lambda: m.concatenate([x, x]), 'moved': lambda: m.clip(x, -9.0, 9.0).T, 'mean': lambda: m.mean(x, 0), 'dot': lambda: m.dot(x, 2.0)}[e]()


def check(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_value, check_jac, fail, short
    if 'kind' in case:
        from vlib import large
        return large.check_assign(case, ctx)
    model, L = [], []
    for l in case['leaves']:
        v = ops.dec(l['v'])
        if l['k'] == 'shared' and model and v.shape == model[0].shape and np.array_equal(v, model[0], equal_nan=True):
            L.append(ch.Ch(L[0].r))      # two inputs made from one array
            ctx.label('shared-array')
        elif l['k'] == 'int':
            x = ch.Ch(np.zeros(v.shape))
            x.x = v.astype(int)
            L.append(x)
        elif l['k'] == 'F':
            L.append(ch.Ch(np.asfortranarray(v)))
        else:
            L.append(ch.Ch(v.copy()))
        model.append(np.array(v, dtype=np.float64, order='C'))
    W = []
    for w in case['wat']:
        n = views.build(ch, L[w['l']], w['c'])
        W.append(n if w['e'] is None else _expr(ch, w['e'], n))

    def model_of(w):
        p = views.positions(model[w['l']].shape, w['c'])
        v = model[w['l']].ravel()[p.ravel()].reshape(p.shape)
        return v if w['e'] is None else _expr(None, w['e'], v)

    def verify(where):
        for i, (x, m) in enumerate(zip(L, model)):
            require(x.r.shape == m.shape and x.r.tobytes() == m.tobytes(), '%s: input %d is %s, expected exactly %s', where, i, short(x.r, 30), short(m, 30))
        for i, w in enumerate(case['wat']):
            check_value(W[i].r, model_of(w), '%s: watcher %d' % (where, i), rtol=1e-9, atol=1e-12)

    nt = False
    verify('start')
    for si, s in enumerate(case['steps']):
        where = 'step %d' % si
        l = s['l']
        if s['t'] == 'q':
            if W:
                w = case['wat'][s['w']]
                check_value(W[s['w']].r, model_of(w), where)
                if s['d'] and w['e'] is None and w['c']:
                    p = views.positions(model[w['l']].shape, w['c']).ravel()
                    J = np.zeros((p.size, model[w['l']].size))
                    J[np.arange(p.size), p] = 1
                    check_jac(W[s['w']].dr_wrt(L[w['l']]), J, where + ': Jacobian of a view')
            continue
        tgt = views.build(ch, L[l], s['c'])
        key = ops.key_of(s['key'])
        ctx.label(s['t'])
        if s['t'] == 'set':
            v = s['v']['v']
            if s['v']['t'] == 'list':
                v = ops.dec(v).tolist()
            elif s['v']['t'] != 'int':
                v = ops.dec(v)
            ctx.label('value-' + s['v']['t'])
            before = np.array(v, copy=True)
            try:
                tgt[key] = v
            except Exception as e:
                fail('%s: assignment of %s through %s [%s] raised %s: %s', where, short(v), s['c'], s['key'], type(e).__name__, e)
            require(np.array_equal(before, np.asarray(v), equal_nan=True), '%s: the assigned array was modified', where)
            pos = views.positions(model[l].shape, s['c'])
            tmp = pos[key]
            # NumPy's own assignment on an array shaped like the view
            view = model[l].ravel()[pos.ravel()].reshape(pos.shape)
            view[key] = v
            model[l].ravel()[pos.ravel()] = view.ravel()
            nt = nt or bool(s['c']) or np.size(tmp) < model[l].size
            if isinstance(v, np.ndarray) and v.ndim:
                v[...] = 77.0      # the caller's array must not stay connected
            for c in s['c']:
                ctx.label('through-' + c['k'])
        else:
            if s['t'] == 'badvalue':
                val = ch.Ch(np.ones(np.shape(tgt.r[key]))) if np.shape(tgt.r[key]) else ch.Ch(3.0)
                target = tgt
            else:
                val = ops.dec(s['v']['v'])
                if s['e'] == 'two':
                    target = L[0] + 1.0
                    key = Ellipsis
                elif s['e'] == 'view':
                    target = (tgt * 2.0).ravel()
                    key = 0
                elif s['e'] in EXPR and s['e'] != 'sum':
                    target = _expr(ch, s['e'], tgt)
                else:
                    target, key = _expr(ch, s['e'], tgt), 0
                ctx.label('refuse-' + s['e'])
            try:
                target[key] = val
            except Exception:
                pass
            else:
                fail('%s: assignment of an expression or to an expression (%s) was not refused', where, s['t'])
        verify(where)
    return nt
