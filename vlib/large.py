"""Arrays of more than 65536 elements: Jacobians are compared by their products with vectors."""

SHAPES = [[70000], [66000, 1], [300, 250], [2, 40000], [270, 2, 130], [1, 70001], [65537]]
ELEM = ['add', 'multiply', 'subtract', 'divide', 'maximum', 'minimum', 'power', 'sin', 'square', 'scale', 'clip', 'mix']
RED = ['sum', 'mean', 'sumall', 'amax', 'amin', 'sumsq', 'cumsum']
MOVE = ['step', 'fancy', 'rowpick', 'mask', 'reshape', 'T', 'ravel', 'swap', 'tile', 'repeat', 'roll', 'concat', 'sort', 'flip', 'hstack']


def gen_large(g, groups):
    s = g.pick(SHAPES)
    op = g.pick([o for k in groups for o in k])
    other = s
    if op in ELEM and g.chance(50):
        other = [k if g.chance(50) else 1 for k in s][g.int(0, len(s) - 1):]
    return {'kind': 'large', 's': s, 'other': other, 'op': op, 'op2': g.pick([None, None, 'sin', 'T', 'half']), 'seed': g.int(0, 9999), 'axis': g.int(0, len(s) - 1), 'rev': g.int(0, 1), 'rfirst': g.int(0, 1), 'swapped': g.int(0, 1)}


def fn(case, F, a, b):
    """The same program for chumpy (F: chumpy) and NumPy, also with complex numbers."""
    import numpy as np
    op, s, ax = case['op'], tuple(case['s']), case['axis']
    num = F is np

    def both(f, g):
        return g if num else f
    p, q = (b, a) if case['swapped'] else (a, b)
    n = int(np.prod(s))
    if op == 'add':
        r = p + q
    elif op == 'subtract':
        r = p - q
    elif op == 'multiply':
        r = p * q
    elif op == 'divide':
        r = p / q
    elif op in ('maximum', 'minimum'):
        if num:
            c = p.real > q.real if op == 'maximum' else p.real < q.real
            r = np.where(c, p, q)
        else:
            r = getattr(F, op)(p, q)
    elif op == 'power':
        r = p ** 2.0 + q
    elif op == 'sin':
        r = F.sin(a)
    elif op == 'square':
        r = a * a
    elif op == 'scale':
        r = a * 2.5
    elif op == 'clip':
        r = np.where((a.real > 1.2) & (a.real < 2.2), a, np.clip(a.real, 1.2, 2.2)) if num else F.clip(a, 1.2, 2.2)
    elif op == 'mix':
        r = p * q + F.sin(p)
    elif op in ('sum', 'mean'):
        r = getattr(F, op)(a, axis=ax)
    elif op == 'sumall':
        r = F.sum(a)
    elif op == 'sumsq':
        r = np.sum(a * a) if num else F.SumOfSquares(a)
    elif op == 'cumsum':
        r = F.sum(a, axis=ax)
    elif op in ('amax', 'amin'):
        if num:
            i = np.expand_dims(getattr(np, op.replace('a', 'arg', 1))(a.real, axis=ax), ax)
            r = np.take_along_axis(a, i, ax)[(slice(None),) * ax + (0,)]
        else:
            r = getattr(F, op)(a, axis=ax)
    elif op == 'step':
        r = a[(slice(None),) * ax + (slice(None, None, -3),)]
    elif op == 'fancy':
        r = a.ravel()[np.arange(n - 1, 0, -7)]
    elif op == 'rowpick':
        r = a[[s[0] - 1, 0]]
    elif op == 'mask':
        r = a[np.arange(n).reshape(s) % 5 == 1]
    elif op == 'reshape':
        r = a.reshape((-1, 1)) if n % 2 else a.reshape((2, -1))
    elif op == 'T':
        r = a.T
    elif op == 'ravel':
        r = a.ravel()
    elif op == 'swap':
        r = F.swapaxes(a, ax, 0)
    elif op == 'tile':
        r = F.tile(a, 2)
    elif op == 'repeat':
        r = F.repeat(a, 2, axis=ax)
    elif op == 'roll':
        r = F.roll(a, 17)
    elif op == 'flip':
        r = F.flipud(a)
    elif op == 'sort':
        r = np.take_along_axis(a, np.argsort(a.real, axis=ax), ax) if num else F.sort(a, axis=ax)
    elif op == 'concat':
        r = F.concatenate([a, b, a], axis=ax)
    elif op == 'hstack':
        r = F.hstack([a, b])
    if case['op2'] == 'sin':
        r = F.sin(r)
    elif case['op2'] == 'half':
        r = r * 0.5
    elif case['op2'] == 'T':
        r = r.T
    return r


def check_large(case, ctx):
    import numpy as np
    import scipy.sparse as sp
    import chumpy as ch
    from vlib.util import require
    rs = np.random.RandomState(case['seed'])
    a = rs.permutation(int(np.prod(case['s']))).reshape(case['s']) * (1.5 / np.prod(case['s'])) + 1.0
    b = rs.uniform(0.8, 2.3, case['other'])
    x, y = ch.Ch(a), ch.Ch(b)
    z = fn(case, ch, x, y)
    want = np.atleast_1d(fn(case, np, a, b))
    what = 'large array %s, %s%s' % (case['s'], case['op'], ' then ' + case['op2'] if case['op2'] else '')

    def value():
        got = z.r
        require(got.shape == want.shape and bool(np.allclose(got, want, 1e-9, 1e-9)), '%s: the value is wrong', what)
    if case['rfirst'] or case.get('values'):
        value()
    if case.get('values'):
        ctx.label('large', 'large-' + case['op'])
        return True
    for k, w in enumerate((x, y)):
        J = z.dr_wrt(w, reverse_mode=True) if case['rev'] and not k else z.dr_wrt(w)
        for v in (rs.uniform(-1, 1, w.shape), (np.arange(w.size) >= w.size - 3).astype(float).reshape(w.shape)):
            ab = [a, b]
            ab[k] = ab[k] + 1e-20j * v
            d = np.atleast_1d(np.imag(fn(case, np, *ab)) / 1e-20).ravel()
            if J is None:
                require(not np.any(d), '%s: the derivative with respect to operand %d is absent', what, k)
                continue
            J = J if sp.issparse(J) else np.atleast_2d(np.asarray(J))
            require(J.shape == (want.size, w.size), '%s: the derivative with respect to operand %d has shape %s', what, k, J.shape)
            got = np.asarray(J.dot(v.ravel())).ravel()
            bad = np.flatnonzero(~(np.abs(got - d) <= 1e-7 * (1 + np.abs(d).max())))
            require(bad.size == 0, '%s: the derivative with respect to operand %d, times a vector, has %d wrong entries, the first at %s: %s instead of %s', what, k, bad.size,
                    bad[:1].tolist(), got[bad[:1]].tolist(), d[bad[:1]].tolist())
    value()
    ctx.label('large', 'large-' + case['op'])
    return True


def gen_assign(g):
    s = g.pick(SHAPES)
    return {'kind': 'large', 's': s, 'view': g.pick(['T', 'flat', 'step', 'flip', 'reshape', 'pair', 'roll']), 'key': g.pick(['all', 'tail', 'one', 'step', 'mask']), 'val': g.pick(['num', 'full']), 'axis': g.int(0, len(s) - 1), 'seed': g.int(0, 9999)}


def view_of(case, F, a):
    s, ax = tuple(case['s']), case['axis']
    v = case['view']
    if v == 'T':
        return a.T
    if v == 'flat':
        return a.ravel()
    if v == 'step':
        return a[(slice(None),) * ax + (slice(None, None, -2),)]
    if v == 'flip':
        return F.flipud(a)
    if v == 'reshape':
        return a.reshape((s[-1], -1))
    if v == 'pair':
        return a.reshape((-1,))[5:].reshape((-1, 1))
    return F.roll(a, 300)


def check_assign(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require
    rs = np.random.RandomState(case['seed'])
    a = rs.uniform(-1, 1, case['s'])
    where = view_of(case, np, np.arange(a.size).reshape(case['s']))
    x = ch.Ch(a.copy())
    other = x * 2.0
    other.r
    n = where.shape[0]
    key = {'all': Ellipsis, 'tail': slice(n - 3 if n > 3 else 0, None), 'one': n - 1, 'step': slice(None, None, 3), 'mask': np.arange(n) % 4 == 3}[case['key']]
    target = where[key]
    value = 7.25 if case['val'] == 'num' else rs.uniform(-1, 1, np.shape(target))
    view_of(case, ch, x)[key] = value
    a.ravel()[target] = value
    got = x.r
    require(got.shape == a.shape and np.array_equal(got, a), 'large array %s: assignment through %s to %s sets %d wrong elements', case['s'], case['view'], case['key'], int(np.sum(got != a)) if got.shape == a.shape else -1)
    require(np.array_equal(other.r, a * 2.0), 'large array: an expression does not follow the assignment')
    ctx.label('large', 'large-' + case['view'])
    return True


# ---------------------------------------------------------------- graphs of many nodes
def gen_many(g):
    steps = [{'t': g.pick(['set', 'elem', 'param', 'operand']), 'i': g.int(0, 9999), 'v': g.int(-8, 8) / 8.0, 'q': g.pick(['r', 'part', 'dr', 'rev', 'none'])} for _ in range(g.int(2, 5))]
    return {'kind': 'many', 'shape': g.pick(['fan', 'fan', 'chain', 'comb']), 'n': g.pick([40, 130, 300, 700, 1500]), 'depth': g.int(20, 150), 'steps': steps}


def check_many(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, dense
    v, w = np.array([0.25, -0.5, 1.0]), np.array([1.5, 0.5, 2.0])
    x, p = ch.Ch(v.copy()), ch.Ch(w.copy())
    n = case['n'] if case['shape'] != 'chain' else case['depth']
    c = np.cos(np.arange(n) * 1.7)
    lim = [2.0] * n
    ops_ = [p] * n          # second operand of every node
    other = {}
    parts = []
    if case['shape'] == 'chain':
        y = x
        for k in range(n):
            y = ch.multiply(y, p) * 0.4 + ch.sin(x) * c[k] if k % 3 == 0 else y * 0.875 + c[k]
            parts.append(y)
        top = y
    else:
        for k in range(n):
            parts.append(ch.clip(x * c[k], -2.0, lim[k]) if k % 2 else ch.multiply(x, p) if k % 4 else ch.sin(x) + c[k])
        if case['shape'] == 'fan':
            top = ch.concatenate(parts)
        else:
            todo = list(parts)
            while len(todo) > 1:
                todo = [a + b for a, b in zip(todo[::2], todo[1::2])] + (todo[-1:] if len(todo) % 2 else [])
            top = todo[0]

    def model(v, w, upto=None):
        if case['shape'] == 'chain':
            r = v
            for k in range(n if upto is None else upto + 1):
                r = r * w * 0.4 + np.sin(v) * c[k] if k % 3 == 0 else r * 0.875 + c[k]
            return r
        q = []
        for k in range(n) if upto is None else [upto]:
            if k % 2:
                z = v * c[k]
                q.append(np.where(z.real > lim[k], lim[k] + 0 * z, np.where(z.real < -2.0, -2.0 + 0 * z, z)))
            elif k % 4:
                q.append(v * (other[k][1] if k in other else w))
            else:
                q.append(np.sin(v) + c[k])
        return q[0] if upto is not None else np.concatenate(q) if case['shape'] == 'fan' else sum(q)
    require(np.allclose(top.r, model(v, w), 1e-9, 1e-9), 'graph of %d nodes: the value is wrong', n)
    for si, s in enumerate(case['steps']):
        i = s['i'] % n
        what = 'step %d (%s) of a graph of %d nodes' % (si, s['t'], n)
        if s['t'] == 'set':
            v = v + s['v']
            x.x = v.copy()
        elif s['t'] == 'elem':
            v = v.copy()
            v[s['i'] % 3] = s['v']
            x[s['i'] % 3] = s['v']
        elif s['t'] == 'param':
            w = w * (1.0 + s['v'] / 16.0)
            p[:] = w
        elif case['shape'] != 'chain':
            k = i - i % 4 + 2
            if k < n:
                f = np.array([s['v'], 1.0, s['v'] + 2.0])
                new = ch.Ch(f.copy())
                parts[k].b = new
                other[k] = (new, f)
        if s['q'] == 'part':
            require(np.allclose(parts[i].r, model(v, w, i), 1e-9, 1e-9), '%s: the value of part %d is wrong', what, i)
        if s['q'] in ('dr', 'rev') and n <= 150:
            for a, k in ((x, 0), (p, 1)):
                want = np.empty((top.size, 3))
                for j in range(3):
                    z = [v.astype(complex), w.astype(complex)]
                    z[k][j] += 1e-20j
                    want[:, j] = np.imag(model(*z)) / 1e-20
                J = a is not None and (top.dr_wrt(a, reverse_mode=True) if s['q'] == 'rev' and case['shape'] == 'fan' else top.dr_wrt(a))
                if J is None:
                    require(not np.any(want), '%s: the derivative is absent', what)
                    continue
                J = dense(J, top.size, 3, what)
                require(np.allclose(J, want, 1e-8, 1e-8), '%s: the derivative with respect to input %d is wrong', what, k)
        if s['q'] != 'none':
            got, want = top.r, model(v, w)
            require(np.allclose(got, want, 1e-9, 1e-9), '%s: the value is wrong in %d of %d entries', what, int(np.sum(~np.isclose(got, want, 1e-9, 1e-9))), want.size)
    ctx.label('many', 'many-' + case['shape'])
    return True
