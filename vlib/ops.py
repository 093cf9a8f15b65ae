"""Operation table shared by the generator (CPython, for shapes and domains) and the worker
(PyPy, for building chumpy graphs and computing the reference).

A *graph spec* is a list of nodes in topological order; each node is a dict
    {"o": op, "a": [indices of argument nodes], "p": {parameters}}
with two special ops
    leaf:  {"o": "leaf", "v": array}            a chumpy input variable
    const: {"o": "const", "v": array or number} a raw ndarray / Python number operand
Every op has `ref` (plain NumPy, written independently of chumpy, complex-step safe) and `build`
(the chumpy expression).  The reference derivative is obtained by complex-step differentiation of
`ref`, which is exact to machine precision and shares nothing with chumpy's derivative rules.
"""
import numpy as np

OPS = {}


class Op(object):
    def __init__(self, name, build, ref, real):
        self.name, self.build, self._ref, self._real = name, build, ref, real

    def ref(self, a, p):
        """The reference.  With real arguments the NumPy function itself, where there is one;
        with complex arguments an analytic extension used for complex-step differentiation."""
        if self._real is not None and not any(np.iscomplexobj(x) for x in a):
            return self._real(a, p)
        return self._ref(a, p)


def op(name, build, ref, real=None):
    OPS[name] = Op(name, build, ref, real)


# ---------------------------------------------------------------- arrays in JSON
def enc(a):
    a = np.asarray(a, dtype=np.float64)
    return {'s': list(a.shape), 'd': [float(x) for x in a.ravel()]}


TRACK = None    # when a list: every array decoded (and so handed to the library) is recorded there


def dec(v):
    if isinstance(v, dict):
        v = np.array(v['d'], dtype=np.float64).reshape(v['s'])
        if TRACK is not None:
            TRACK.append(v)
    return v


R = np.real


# ---------------------------------------------------------------- unary elementwise
def _c_abs(x):
    return np.where(R(x) < 0, -x, x)


_UN = {
    'exp': np.exp, 'log': np.log, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan,
    'arcsin': np.arcsin, 'arccos': np.arccos, 'arctan': np.arctan,
    'sqrt': np.sqrt, 'square': lambda x: x * x, 'absolute': _c_abs, 'negative': lambda x: -x,
    'reciprocal': lambda x: 1.0 / x, 'nan_to_num': lambda x: x,
}
for _n, _f in _UN.items():
    def _mk(n, f):
        def build(ch, a, p):
            if p.get('via') == 'op':
                if n == 'negative':
                    return -+a[0] if p.get('plus') else -a[0]
                if n == 'absolute':
                    return abs(a[0])
            if p.get('via') == 'kw':
                return getattr(ch, n)(x=a[0])
            return getattr(ch, 'abs' if n == 'absolute' and p.get('via') == 'alias' else n)(a[0])
        op(n, build, lambda a, p: f(np.asarray(a[0])), lambda a, p: getattr(np, n)(np.asarray(a[0], dtype=np.float64)))
    _mk(_n, _f)

# zero-derivative unary
for _n, _f in {'floor': np.floor, 'ceil': np.ceil, 'sign': np.sign}.items():
    def _mk(n, f):
        def build(ch, a, p):
            if p.get('via') == 'op' and n != 'sign':
                return getattr(a[0], n)()
            return getattr(ch, n)(a[0])
        op(n, build, lambda a, p: f(R(a[0])) + 0.0)
    _mk(_n, _f)


# ---------------------------------------------------------------- binary elementwise
def _b(fn):
    return lambda a, p: fn(np.asarray(a[0]), np.asarray(a[1]))


def _cpow(x, y):
    if np.iscomplexobj(x) or np.iscomplexobj(y):
        x, y = np.broadcast_arrays(np.asarray(x, complex), np.asarray(y, complex))
        out = np.empty(x.shape, complex)
        for i in np.ndindex(*x.shape):
            b, e = x[i], y[i]
            n = e.real
            if e.imag == 0 and n == int(n) and abs(n) <= 64:
                k = int(abs(n))
                r = 1.0 + 0j
                for _ in range(k):
                    r = r * b
                out[i] = r if n >= 0 else 1.0 / r
            else:
                out[i] = np.exp(e * np.log(b))
        return out
    return np.power(x, y)


_BIN = {
    'add': (lambda x, y: x + y), 'subtract': (lambda x, y: x - y), 'multiply': (lambda x, y: x * y),
    'divide': (lambda x, y: x / y), 'power': _cpow,
    'maximum': (lambda x, y: np.where(R(x) >= R(y), x, y)),
    'minimum': (lambda x, y: np.where(R(x) <= R(y), x, y)),
}
_PYOP = {
    'add': lambda x, y: x + y, 'subtract': lambda x, y: x - y, 'multiply': lambda x, y: x * y,
    'divide': lambda x, y: x / y, 'power': lambda x, y: x ** y,
}
_KW = {'add': ('a', 'b'), 'subtract': ('a', 'b'), 'multiply': ('a', 'b'), 'divide': ('x1', 'x2'),
       'power': ('x', 'pow'), 'maximum': ('a', 'b'), 'minimum': ('a', 'b')}
for _n, _f in _BIN.items():
    def _mk(n, f):
        def build(ch, a, p):
            via = p.get('via')
            if via == 'op' and n in _PYOP:
                return _PYOP[n](a[0], a[1])
            if via == 'kw':
                k = _KW[n]
                return getattr(ch, n)(**{k[0]: a[0], k[1]: a[1]})
            return getattr(ch, n)(a[0], a[1])
        op(n, build, _b(f), lambda a, p: getattr(np, n)(np.asarray(a[0], dtype=np.float64), np.asarray(a[1], dtype=np.float64)))
    _mk(_n, _f)


def _nandiv(x, y):
    x, y = np.broadcast_arrays(x, y)
    bad = (R(y) == 0)
    q = x / np.where(bad, 1.0, y)
    return np.where(bad, 0.0, q)


def _nandiv_real(a, p):
    q = np.asarray(np.true_divide(a[0], a[1]))
    return np.where(np.isfinite(q), q, 0.0)


op('NanDivide', lambda ch, a, p: ch.NanDivide(a[0], a[1]), _b(_nandiv), _nandiv_real)

_CMP = {'greater': np.greater, 'greater_equal': np.greater_equal, 'less': np.less,
        'less_equal': np.less_equal, 'equal': np.equal, 'not_equal': np.not_equal}
_CMPOP = {'greater': lambda x, y: x > y, 'greater_equal': lambda x, y: x >= y,
          'less': lambda x, y: x < y, 'less_equal': lambda x, y: x <= y, 'not_equal': lambda x, y: x != y}
for _n, _f in _CMP.items():
    def _mk(n, f):
        def build(ch, a, p):
            if p.get('via') == 'op' and n in _CMPOP:
                return _CMPOP[n](a[0], a[1])
            return getattr(ch, n)(a[0], a[1])
        op(n, build, lambda a, p: np.asarray(f(R(a[0]), R(a[1])), np.float64))
    _mk(_n, _f)

for _n in ['all', 'any', 'isfinite', 'isinf', 'isnan', 'isneginf', 'isposinf', 'logical_not']:
    def _mk(n):
        def build(ch, a, p):
            kw = {} if p.get('axis') is None else {'axis': p['axis']}
            return getattr(ch, n)(a[0], **kw)

        def ref(a, p):
            kw = {} if p.get('axis') is None else {'axis': p['axis']}
            return np.asarray(getattr(np, n)(R(a[0]), **kw), np.float64)
        op(n, build, ref)
    _mk(_n)


# ---------------------------------------------------------------- reductions
def _red(ch, name, a, p, meth=None):
    ax = p.get('axis')
    via = p.get('via')
    if via == 'op' and meth:
        return getattr(a, meth)() if (ax is None and p.get('bare')) else getattr(a, meth)(axis=ax)
    if ax is None and p.get('bare'):
        return getattr(ch, name)(a)
    if via == 'pos':
        return getattr(ch, name)(a, ax)
    return getattr(ch, name)(a, axis=ax)


op('sum', lambda ch, a, p: _red(ch, 'sum', a[0], p, 'sum'), lambda a, p: np.sum(a[0], axis=p.get('axis')))
op('mean', lambda ch, a, p: _red(ch, 'mean', a[0], p, 'mean'), lambda a, p: np.mean(a[0], axis=p.get('axis')))
op('cumsum', lambda ch, a, p: _red(ch, 'cumsum', a[0], p, 'cumsum'), lambda a, p: np.cumsum(a[0], axis=p.get('axis')))
op('SumOfSquares', lambda ch, a, p: ch.SumOfSquares(a[0]), lambda a, p: np.sum(a[0] * a[0]))
op('norm', lambda ch, a, p: ch.linalg.norm(a[0]), lambda a, p: np.sqrt(np.sum(a[0] * a[0])))


def _ext(argf):
    def ref(a, p):
        x, ax = np.asarray(a[0]), p.get('axis')
        if ax is None:
            return x.ravel()[argf(R(x).ravel())]
        i = np.expand_dims(argf(R(x), axis=ax), ax)
        return np.squeeze(np.take_along_axis(x, i, ax), ax)
    return ref


for _n, _f, _m in [('amax', np.argmax, 'max'), ('amin', np.argmin, 'min'), ('max', np.argmax, 'max'), ('min', np.argmin, 'min'),
                   ('nanmax', np.nanargmax, None), ('nanmin', np.nanargmin, None)]:
    def _mk(n, f, m):
        op(n, lambda ch, a, p: _red(ch, n, a[0], p, m), _ext(f), lambda a, p: getattr(np, n)(a[0], axis=p.get('axis')))
    _mk(_n, _f, _m)


def _clip(a, p):
    x, lo, hi = a[0], p['lo'], p['hi']
    return np.where(R(x) < lo, lo, np.where(R(x) > hi, hi, x))


op('clip', lambda ch, a, p: ch.clip(a[0], p['lo'], p['hi']), _clip, lambda a, p: np.clip(a[0], p['lo'], p['hi']))


def _bound(x, d=None):
    return d if x is None else dec(x)


def _clipx(a, p):
    lo, hi = _bound(p['lo'], -np.inf), _bound(p['hi'], np.inf)
    x = a[0] + np.zeros(np.broadcast(a[0], lo, hi).shape)
    return np.where(R(x) < lo, lo, np.where(R(x) > hi, hi, x))


def _clipx_build(ch, a, p):
    lo, hi = _bound(p['lo']), _bound(p['hi'])
    return ch.clip(a[0], lo, hi) if not p.get('kw') else ch.clip(a=a[0], a_max=hi, a_min=lo)


# limits that are absent or arrays (which may be larger than the operand)
op('clipx', _clipx_build, _clipx, lambda a, p: np.clip(a[0], _bound(p['lo']), _bound(p['hi'])))

# ---------------------------------------------------------------- matrix products
op('dot', lambda ch, a, p: a[0].dot(a[1]) if p.get('via') == 'op' else ch.dot(a[0], a[1]),
   lambda a, p: np.dot(a[0], a[1]))


def _axes(p):
    ax = p['axes']
    return ax if isinstance(ax, int) else tuple(list(x) if isinstance(x, list) else x for x in ax)


op('tensordot', lambda ch, a, p: ch.tensordot(a[0], a[1], axes=_axes(p)) if p['axes'] != 2 or a[0].size % 3 == 0 else ch.tensordot(a[0], a[1]),
   lambda a, p: np.tensordot(a[0], a[1], axes=_axes(p)))


def _cross(a, p):
    ax = [p.get(k, -1) if p.get('axis') is None else p['axis'] for k in ('axisa', 'axisb', 'axisc')]
    x, y = np.moveaxis(a[0], ax[0], -1), np.moveaxis(a[1], ax[1], -1)
    if x.shape[-1] == 2 and y.shape[-1] == 2:
        return x[..., 0] * y[..., 1] - x[..., 1] * y[..., 0]
    x, y = [np.concatenate([v, 0 * v[..., :1]], axis=-1) if v.shape[-1] == 2 else v for v in (x, y)]
    return np.moveaxis(np.stack([x[..., 1] * y[..., 2] - x[..., 2] * y[..., 1],
                                 x[..., 2] * y[..., 0] - x[..., 0] * y[..., 2],
                                 x[..., 0] * y[..., 1] - x[..., 1] * y[..., 0]], axis=-1), -1, ax[2])


# (the NumPy of the generating side has no cross product of 2-element vectors any more)
op('cross', lambda ch, a, p: ch.cross(a[0], a[1], **p), _cross, lambda a, p: _cross(a, p) if np.__version__ >= '2' else np.cross(a[0], a[1], **p))


def _mv_build(ch, a, p):
    m = dec(p['m'])
    if p.get('sparse'):
        import scipy.sparse as sp
        m = sp.csc_matrix(m)
    return ch.MatVecMult(m, a[0])


def _mv_ref(a, p):
    m, v = dec(p['m']), np.asarray(a[0])
    r = m.dot(v.ravel())
    if v.ndim > 1 and v.shape[1] > 1:
        r = r.reshape((-1, v.shape[1]))
    return r


op('MatVecMult', _mv_build, _mv_ref)

# ---------------------------------------------------------------- linear algebra
op('inv', lambda ch, a, p: ch.linalg.inv(a[0]), lambda a, p: np.linalg.inv(a[0]))
op('det', lambda ch, a, p: ch.linalg.det(a[0]), lambda a, p: np.linalg.det(a[0]))


def _lad(a, p):
    d = np.linalg.det(a[0])
    return np.log(d * np.sign(R(d)))


op('logabsdet', lambda ch, a, p: ch.linalg.slogdet(a[0])[1], _lad)
op('signdet', lambda ch, a, p: ch.linalg.slogdet(a[0])[0], lambda a, p: np.sign(R(np.linalg.det(a[0]))))


def _pinv(a, p):
    x = np.asarray(a[0])
    xt = x.T
    if x.shape[1] > x.shape[0]:
        return xt.dot(np.linalg.inv(x.dot(xt)))
    return np.linalg.inv(xt.dot(x)).dot(xt)


op('pinv', lambda ch, a, p: ch.linalg.pinv(a[0]), _pinv)
op('lstsq', lambda ch, a, p: ch.linalg.lstsq(a[0], a[1])[0], lambda a, p: _pinv([a[0]], p).dot(a[1]))


def _lsres(a, p):
    x = _pinv([a[0]], p).dot(a[1])
    return np.sum((np.dot(a[0], x) - a[1]) ** 2, axis=0)


op('lstsq_res', lambda ch, a, p: ch.linalg.lstsq(a[0], a[1])[1], _lsres)


# ---------------------------------------------------------------- special functions
def _gamma(a, p):
    import scipy.special
    x = np.asarray(a[0])
    if np.iscomplexobj(x):
        g = scipy.special.gamma(x.real)
        return g + 1j * x.imag * g * scipy.special.digamma(x.real)
    return scipy.special.gamma(x)


op('gamma', lambda ch, a, p: ch.extras.gamma(a[0]), _gamma)


def _moment(a, p):
    x, k, ax = np.asarray(a[0]), p['k'], p['axis']
    m = np.expand_dims(np.mean(x, axis=ax), ax)
    d = x - m
    r = d
    for _ in range(k - 1):
        r = r * d
    return np.mean(r, axis=ax)


op('moment', lambda ch, a, p: ch.extras.moment(a[0], moment=p['k'], axis=p['axis']) if p['axis'] or a[0].size % 3 == 0 else ch.extras.moment(a[0], p['k']), _moment)


# ---------------------------------------------------------------- rearranging
def key_of(k):
    """Decode an index expression."""
    def one(x):
        if x == '...':
            return Ellipsis
        if x == 'new':
            return None
        if isinstance(x, dict):
            if 'sl' in x:
                return slice(*x['sl'])
            if 'ix' in x and x['sh'] == 'list':
                return list(x['ix'])
            r = np.array(x['ix'], dtype=int) if 'ix' in x else np.array(x['mask'], dtype=bool)
            r = r.reshape(x['sh'])
            if TRACK is not None:
                TRACK.append(r)
            return r
        return x
    if isinstance(k, list):
        return tuple(one(x) for x in k)
    return one(k)


op('getitem', lambda ch, a, p: a[0][key_of(p['key'])], lambda a, p: np.asarray(a[0])[key_of(p['key'])])


def _reshape_build(ch, a, p):
    s = p['shape']
    via = p.get('via')
    if via == 'meth':
        return a[0].reshape(tuple(s))
    if via == 'star':
        return a[0].reshape(*s)
    if via == 'ravel':
        return a[0].ravel()
    if via == 'fravel':
        return ch.ravel(a[0])
    return ch.reshape(a[0], tuple(s))


op('reshape', _reshape_build, lambda a, p: np.reshape(a[0], tuple(p['shape'])))


def _transpose_build(ch, a, p):
    ax, via = p.get('axes'), p.get('via')
    if ax is None:
        if via == 'T':
            return a[0].T
        if via == 'meth':
            return a[0].transpose()
        return ch.transpose(a[0])
    if via == 'meth':
        return a[0].transpose(list(ax))
    if via == 'star':
        return a[0].transpose(*ax)
    return ch.transpose(a[0], axes=tuple(ax))


op('transpose', _transpose_build, lambda a, p: np.transpose(a[0], p.get('axes')))
op('rollaxis', lambda ch, a, p: ch.rollaxis(a[0], p['axis']) if p.get('start') is None else ch.rollaxis(a[0], p['axis'], p['start']),
   lambda a, p: np.rollaxis(np.asarray(a[0]), p['axis'], p.get('start') or 0))
op('swapaxes', lambda ch, a, p: ch.swapaxes(a[0], p['x'], p['y']), lambda a, p: np.swapaxes(a[0], p['x'], p['y']))


def _reps(p):
    r = p['reps']
    if isinstance(r, list):
        return np.array(r) if p.get('arr') else tuple(r)
    return r


op('tile', lambda ch, a, p: ch.tile(a[0], _reps(p)), lambda a, p: np.tile(a[0], _reps(p)))
op('repeat', lambda ch, a, p: ch.repeat(a[0], p['n'], axis=p['axis']) if p.get('axis') is not None or a[0].size % 3 == 0 else ch.repeat(a[0], p['n']), lambda a, p: np.repeat(a[0], p['n'], axis=p.get('axis')))


def _dflt(f, x, v, default, **kw):
    """f(x, v); for some arrays the default is not spelled out."""
    if v == default and v is not True and x.size % 3:
        return f(x, **kw)
    return f(x, v, **kw)


def _tup(x):
    return tuple(x) if isinstance(x, list) else x


def _roll_build(ch, a, p):
    n, ax = _tup(p['n']), _tup(p.get('axis'))
    if p.get('lst') and not isinstance(n, tuple):
        n, ax = ([n], ax) if ax is not None and p['lst'] == 1 else (np.array(n), ax)
    elif p.get('lst'):
        n, ax = list(n), list(ax)
    return ch.roll(a[0], n, axis=ax) if ax is not None or a[0].size % 3 == 0 else ch.roll(a[0], n)


op('roll', _roll_build, lambda a, p: np.roll(a[0], _tup(p['n']), axis=_tup(p.get('axis'))))
op('rot90', lambda ch, a, p: _dflt(ch.rot90, a[0], p['k'], 1), lambda a, p: np.rot90(a[0], p['k']))
op('diag', lambda ch, a, p: _dflt(ch.diag, a[0], p['k'], 0), lambda a, p: np.diag(a[0], p['k']))
op('diagflat', lambda ch, a, p: _dflt(ch.diagflat, a[0], p['k'], 0), lambda a, p: np.diagflat(a[0], p['k']))


def _sort(a, p):
    x, ax = np.asarray(a[0]), p.get('axis', -1)
    if ax is None:
        x, ax = x.ravel(), -1
    return np.take_along_axis(x, np.argsort(R(x), axis=ax), ax)


op('sort', lambda ch, a, p: _dflt(ch.sort, a[0], p.get('axis', -1), -1), _sort, lambda a, p: np.sort(a[0], axis=p.get('axis', -1)))
op('squeeze', lambda ch, a, p: a[0].squeeze(p.get('axis')) if p.get('via') == 'op' else _dflt(ch.squeeze, a[0], p.get('axis'), None),
   lambda a, p: np.squeeze(a[0], p.get('axis')))
op('expand_dims', lambda ch, a, p: ch.expand_dims(a[0], p['axis']), lambda a, p: np.expand_dims(a[0], p['axis']))
op('fliplr', lambda ch, a, p: ch.fliplr(a[0]), lambda a, p: np.asarray(a[0])[:, ::-1])
op('flipud', lambda ch, a, p: ch.flipud(a[0]), lambda a, p: np.asarray(a[0])[::-1])
for _n in ['atleast_1d', 'atleast_2d', 'atleast_3d']:
    def _mk(n):
        op(n, lambda ch, a, p: getattr(ch, n)(a[0]), lambda a, p: getattr(np, n)(a[0]))
    _mk(_n)

op('concatenate', lambda ch, a, p: ch.concatenate(tuple(a) if p.get('tup') else list(a), axis=p['axis']) if p.get('axis') is not None else ch.concatenate(list(a)),
   lambda a, p: np.concatenate(a, axis=p.get('axis') or 0))
op('concatflat', lambda ch, a, p: ch.concatenate(list(a), axis=None), lambda a, p: np.concatenate(a, axis=None))
for _n in ['hstack', 'vstack', 'dstack']:
    def _mk(n):
        op(n, lambda ch, a, p: getattr(ch, n)(list(a)), lambda a, p: getattr(np, n)(a))
    _mk(_n)

# ---------------------------------------------------------------- lambdas (deferred graphs)
# each entry: argument names, function of keyword arguments written against an abstract namespace F
LAMBDAS = {
    'mul_sin': (('x', 'y'), lambda F, x, y: x * y + F.sin(x)),
    'sub_sq': (('a', 'b'), lambda F, a, b: (a - b) ** 2.),
    'tri': (('p', 'q', 's'), lambda F, p, q, s: F.cos(p) * q - s * p),
    'one': (('x',), lambda F, x: x * 2. + F.sin(x) * x),
    'swap': (('y', 'x'), lambda F, y, x: y - 3. * x),
    'ident': (('x',), lambda F, x: x),
    'unused': (('x', 'u'), lambda F, x, u: x * 3. + 1.),
}


def lambda_build(ch, name, args=None):
    names, fn = LAMBDAS[name]
    # chumpy inspects the argument names of the function it is given
    src = 'lambda %s: _fn(_F, %s)' % (', '.join(names), ', '.join(names))
    lam = eval(src, {'_fn': fn, '_F': ch})
    if args is None:
        return ch.ChLambda(lam), names
    return ch.ChLambda(lam, dict(zip(names, args))), names


def _lam_build(ch, a, p):
    via = p.get('via')
    if via == 'late':
        l, names = lambda_build(ch, p['f'])
        for n, x in zip(names, a):
            setattr(l, n, x)
        return l
    if via == 'call':
        names, fn = LAMBDAS[p['f']]
        src = 'lambda %s: _fn(_F, %s)' % (', '.join(names), ', '.join(names))
        lam = eval(src, {'_fn': fn, '_F': ch})
        return ch.Ch(lam, dict(zip(names, a)))
    return lambda_build(ch, p['f'], a)[0]


class _NPF(object):
    sin = staticmethod(np.sin)
    cos = staticmethod(np.cos)


op('lambda', _lam_build, lambda a, p: LAMBDAS[p['f']][1](_NPF, *[np.asarray(x) for x in a]))


# ---------------------------------------------------------------- evaluation of specs
def needed(nodes, outs):
    todo, seen = list(outs), set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        todo.extend(nodes[i].get('a', ()))
    return sorted(seen)


def ref_eval(nodes, outs=None, override=None):
    """Plain NumPy evaluation.  override: {node index: value} replaces a node by an independent value."""
    override = override or {}
    if outs is None:
        order = range(len(nodes))
    else:
        order, todo, seen = [], list(outs), set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            if i not in override:
                todo.extend(nodes[i].get('a', ()))
        order = sorted(seen)
    vals = {}
    for i in order:
        n = nodes[i]
        if i in override:
            vals[i] = override[i]
        elif n['o'] == 'leaf':
            vals[i] = np.atleast_1d(dec(n['v']))
        elif n['o'] == 'const':
            vals[i] = dec(n['v'])
        else:
            v = OPS[n['o']].ref([vals[j] for j in n['a']], n.get('p') or {})
            vals[i] = np.atleast_1d(v)
    return vals


H = 1e-20


def ref_jac(nodes, out, wrt, base=None, override=None):
    """Complex-step Jacobian of node `out` with respect to node `wrt` (wrt treated as independent).
    base: values from ref_eval (only needed when wrt is not a leaf)."""
    if base is None:
        base = ref_eval(nodes, [wrt], override)
    x0 = np.asarray(base[wrt], dtype=np.float64)
    cols = []
    m = None
    for k in range(x0.size):
        xp = np.array(x0, dtype=complex, order='C')
        xp.ravel()[k] += 1j * H
        ov = dict(override or {})
        ov[wrt] = xp
        r = ref_eval(nodes, [out], ov)[out]
        cols.append(np.imag(np.asarray(r, dtype=complex)).ravel() / H)
        m = r.size
    if m is None:
        m = ref_eval(nodes, [out], override)[out].size
    return np.array(cols).T.reshape((m, x0.size))


def make_leaf(ch, v, via=None):
    """An input variable holding v, constructed in one of the ways a user would."""
    if via == 'array':
        return ch.array(v)
    if via == 'list':
        return ch.Ch(v.tolist() if v.size else v.copy())
    if via == 'F':
        return ch.Ch(np.asfortranarray(v))
    if via == 'strided':
        big = np.zeros(tuple(2 * k for k in v.shape))
        sl = tuple(slice(None, None, 2) for _ in v.shape)
        big[sl] = v
        return ch.Ch(big[sl])
    if via == 'int' and np.all(np.isfinite(v)) and np.array_equal(v, np.round(v)):
        return ch.Ch(v.astype(int))
    if via == 'f32' and np.array_equal(v.astype(np.float32), v):
        return ch.Ch(v.astype(np.float32))
    if via == 'kw':
        return ch.Ch(x=v.copy())
    if via == 'scalar' and v.size == 1 and v.ndim == 1:
        return ch.Ch(float(v[0]))
    if via == 'asarray':
        return ch.asarray(v.copy())
    return ch.Ch(v)


def ch_build(ch, nodes, leaves=None, upto=None):
    """Build the chumpy graph.  leaves: optional dict index -> existing Ch object to reuse."""
    out = {}
    for i, n in enumerate(nodes):
        if upto is not None and i > upto:
            break
        if leaves and i in leaves:
            out[i] = leaves[i]
        elif n['o'] == 'leaf':
            out[i] = make_leaf(ch, dec(n['v']), n.get('via'))
        elif n['o'] == 'const':
            out[i] = dec(n['v'])
        else:
            out[i] = OPS[n['o']].build(ch, [out[j] for j in n['a']], n.get('p') or {})
    return out


def depends(nodes, out, wrt):
    return wrt in needed(nodes, [out])


# ---------------------------------------------------------------- attribute names of operands
TERM_NAMES = {}
for _n in list(_UN) + ['floor', 'ceil', 'sign', 'sum', 'mean', 'SumOfSquares', 'det', 'logabsdet', 'gamma',
                       'atleast_1d', 'atleast_2d', 'atleast_3d']:
    TERM_NAMES[_n] = ('x',)
for _n in ['amax', 'amin', 'max', 'min', 'nanmax', 'nanmin', 'clip', 'clipx', 'cumsum', 'inv', 'tile', 'repeat', 'roll', 'rot90', 'diag',
           'diagflat', 'sort', 'rollaxis', 'swapaxes', 'transpose', 'all', 'any', 'isfinite', 'logical_not']:
    TERM_NAMES[_n] = ('a',)
for _n, _k in _KW.items():
    TERM_NAMES[_n] = _k
TERM_NAMES['NanDivide'] = ('x1', 'x2')
for _n in _CMP:
    TERM_NAMES[_n] = ('x1', 'x2')
TERM_NAMES['dot'] = TERM_NAMES['cross'] = ('a', 'b')
TERM_NAMES['MatVecMult'] = ('vec',)
TERM_NAMES['pinv'] = ('mtx',)


def margin(nodes, vals, idxs):
    """Distance of the evaluated graph from points where it is not smooth (or is ill conditioned)."""
    m = 1e9

    def gaps(x, ax):
        x = np.asarray(x)
        x = x.reshape(1, -1) if ax is None else np.moveaxis(x, ax, -1).reshape(-1, x.shape[ax])
        return np.diff(np.sort(x, axis=1), axis=1).min() if x.shape[1] > 1 else 1e9
    for i in idxs:
        n = nodes[i]
        o = n['o']
        v = np.asarray(vals[i], dtype=np.float64)
        if not np.all(np.isfinite(v)) or np.abs(v).max() > 1e6:
            return 0.0
        if o in ('leaf', 'const'):
            continue
        a = [np.asarray(vals[j], dtype=np.float64) for j in n['a']]
        p = n.get('p') or {}
        if o in ('absolute', 'sign'):
            m = min(m, np.abs(a[0]).min())
        elif o in ('log', 'sqrt'):
            m = min(m, a[0].min())
        elif o == 'gamma':
            m = min(m, a[0].min(), 8 - a[0].max())
        elif o == 'reciprocal':
            m = min(m, np.abs(a[0]).min())
        elif o in ('divide', 'NanDivide'):
            m = min(m, np.abs(a[1]).min())
        elif o == 'power':
            e = a[1]
            if e.size == 1 and nodes[n['a'][1]]['o'] == 'const' and float(e.ravel()[0]) in (1., 2., 3., 4.):
                pass
            else:
                m = min(m, a[0].min())
        elif o in ('maximum', 'minimum') or o in _CMP:
            if n['a'][0] != n['a'][1]:
                m = min(m, np.abs(a[0] - a[1]).min())
        elif o == 'clip':
            m = min(m, np.abs(a[0] - p['lo']).min(), np.abs(a[0] - p['hi']).min())
        elif o == 'clipx':
            m = min([m] + [np.abs(a[0] - dec(b)).min() for b in (p['lo'], p['hi']) if b is not None])
        elif o in ('amax', 'amin', 'max', 'min', 'nanmax', 'nanmin', 'sort'):
            m = min(m, gaps(a[0], p.get('axis', -1 if o == 'sort' else None)))
        elif o in ('floor', 'ceil'):
            m = min(m, np.abs(a[0] - np.round(a[0])).min())
        elif o in ('all', 'any', 'logical_not'):
            m = min(m, np.abs(a[0]).min())
        elif o in ('arcsin', 'arccos'):
            m = min(m, 1 - np.abs(a[0]).max())
        elif o == 'tan':
            m = min(m, np.abs(np.cos(a[0])).min())
        elif o == 'exp':
            m = min(m, 12 - a[0].max())
        elif o == 'norm':
            m = min(m, float(v.min()))
        elif o in ('inv', 'det', 'logabsdet', 'signdet', 'pinv', 'lstsq', 'lstsq_res'):
            s = np.linalg.svd(a[0], compute_uv=False)
            m = min(m, float(s.min()), float((s.min(axis=-1) / s.max(axis=-1)).min()) * 10)
    return float(m)


def path_ops(nodes, out):
    return needed(nodes, [out])
