"""Chains of views (rearrangements without repetition) of an array, for NumPy and for chumpy."""
import numpy as np
from . import ops


def apply_np(a, step):
    k = step['k']
    if k == 'getitem':
        return a[ops.key_of(step['key'])]
    if k == 'reshape':
        return a.reshape(step['shape'])
    if k == 'ravel':
        return a.reshape(-1)
    if k == 'T':
        return a.T
    if k == 'transpose':
        return np.transpose(a, step['axes'])
    if k == 'swapaxes':
        return np.swapaxes(a, step['x'], step['y'])
    if k == 'rollaxis':
        return np.rollaxis(a, step['axis'], step['start'])
    if k == 'roll':
        return np.roll(a, step['n'], step['axis'])
    if k == 'rot90':
        return np.rot90(a, step['n'])
    if k == 'flipud':
        return a[::-1]
    if k == 'fliplr':
        return a[:, ::-1]
    if k == 'squeeze':
        return np.squeeze(a)
    if k == 'expand_dims':
        return np.expand_dims(a, step['axis'])
    raise ValueError(k)


def apply_ch(ch, x, step):
    k = step['k']
    if k == 'getitem':
        return x[ops.key_of(step['key'])]
    if k == 'reshape':
        return x.reshape(tuple(step['shape'])) if step.get('via') != 'fn' else ch.reshape(x, tuple(step['shape']))
    if k == 'ravel':
        return x.ravel()
    if k == 'T':
        return x.T
    if k == 'transpose':
        return ch.transpose(x, axes=tuple(step['axes']))
    if k == 'swapaxes':
        return ch.swapaxes(x, step['x'], step['y'])
    if k == 'rollaxis':
        return ch.rollaxis(x, step['axis'], step['start'])
    if k == 'roll':
        return ch.roll(x, step['n'], step['axis'])
    if k == 'rot90':
        return ch.rot90(x, step['n'])
    if k == 'flipud':
        return ch.flipud(x)
    if k == 'fliplr':
        return ch.fliplr(x)
    if k == 'squeeze':
        return ch.squeeze(x)
    if k == 'expand_dims':
        return ch.expand_dims(x, step['axis'])
    raise ValueError(k)


def positions(shp, chain):
    """The element positions a chain of views addresses (an integer array shaped like the view)."""
    p = np.arange(int(np.prod(shp))).reshape(shp)
    for s in chain:
        p = np.atleast_1d(apply_np(p, s))
    return p


def build(ch, x, chain):
    for s in chain:
        x = apply_ch(ch, x, s)
    return x


def gen_step(g, shp, index_pct=45, keys_only=False):
    from . import gen
    nd = len(shp)
    if keys_only or g.chance(index_pct):
        for _ in range(4):
            k = gen.index_key(g, shp)
            p = np.arange(int(np.prod(shp))).reshape(shp)[ops.key_of(k)].ravel()
            if len(set(p.tolist())) == p.size:
                return {'k': 'getitem', 'key': k}
        return {'k': 'getitem', 'key': {'sl': [None, None, None]}}
    t = g.pick(['reshape', 'ravel', 'T', 'transpose', 'swapaxes', 'rollaxis', 'roll', 'rot90', 'flipud', 'fliplr', 'squeeze', 'expand_dims'])
    if t == 'reshape':
        return {'k': 'reshape', 'shape': gen.reshape_of(g, gen.size_of(shp)), 'via': g.pick(['fn', 'meth'])}
    if t == 'transpose':
        return {'k': t, 'axes': g.perm(nd)}
    if t == 'swapaxes':
        return {'k': t, 'x': g.int(-nd, nd - 1), 'y': g.int(-nd, nd - 1)}
    if t == 'rollaxis':
        return {'k': t, 'axis': g.int(-nd, nd - 1), 'start': g.int(0, nd)}
    if t == 'roll':
        return {'k': t, 'n': g.int(-3, 3), 'axis': g.pick([None] + list(range(-nd, nd)))}
    if t == 'rot90':
        return {'k': t, 'n': g.int(-2, 3)} if nd >= 2 else {'k': 'flipud'}
    if t == 'fliplr' and nd < 2:
        t = 'flipud'
    if t == 'expand_dims':
        return {'k': t, 'axis': g.int(-nd - 1, nd)} if nd < 4 else {'k': 'ravel'}
    return {'k': t}


def gen_chain(g, shp, n, index_pct=45, keys_only=False):
    chain = []
    for _ in range(n):
        s = list(positions(shp, chain).shape)
        chain.append(gen_step(g, s, index_pct, keys_only))
    return chain
