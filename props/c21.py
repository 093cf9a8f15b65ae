"""C21: creation, conversion and query helpers mirror NumPy."""
from vlib import ops

RULE = ('A routine (array creation, seeded random numbers, argument-of-extremum and nonzero queries, conversion, shape query, iteration, testing helper) is called with generated arguments (Ch, arrays, numbers, keyword forms) and '
        'with the same arguments on NumPy; results must agree exactly (values as float64, at least one-dimensional, for created inputs), errors must be of the same type when NumPy rejects, created arrays must be independent inputs (assignable, differentiable, '
        'not tied to the arrays they came from by later assignments), and testing helpers must accept or reject exactly as NumPy does. '
        'Non-trivial: the call was accepted by NumPy (or, for testing helpers, any call) with at least one argument that is not a default.')
CASES = {'quick': 16000, 'thorough': 500000}
ASSUMPTIONS = ['routines whose NumPy counterpart returns several arrays (linspace with retstep, ogrid) are compared array by array']

RANDOM = {
    'rand': [[], [3], [2, 3]], 'randn': [[], [4], [2, 2]], 'randint': [[5], [1, 9], [0, 7, [2, 3]]], 'random_integers': [[6], [2, 5, [3]]],
    'random_sample': [[], [3], [[2, 2]]], 'random': [[], [[2, 3]]], 'ranf': [[], [4]], 'sample': [[], [[3]]],
    'beta': [[1.5, 2.0], [0.5, 0.5, [3]]], 'binomial': [[5, 0.3], [9, 0.5, [2, 2]]], 'chisquare': [[2.0], [3.0, [4]]], 'dirichlet': [[[1.0, 2.0, 3.0]], [[0.5, 0.5], 3]],
    'exponential': [[], [2.0], [0.5, [3]]], 'f': [[2.0, 3.0], [4.0, 5.0, [2]]], 'gamma': [[2.0], [1.5, 2.0, [3]]], 'geometric': [[0.4], [0.2, [3]]],
    'gumbel': [[], [1.0, 2.0, [2]]], 'hypergeometric': [[5, 4, 3], [9, 3, 5, [4]]], 'laplace': [[], [0.0, 2.0, [3]]], 'logistic': [[], [1.0, 1.0, [2]]],
    'lognormal': [[], [0.0, 0.5, [3]]], 'logseries': [[0.6], [0.3, [4]]], 'multinomial': [[8, [0.2, 0.3, 0.5]], [5, [0.5, 0.5], 3]],
    'multivariate_normal': [[[0.0, 1.0], [[1.0, 0.2], [0.2, 2.0]]], [[0.0, 1.0], [[1.0, 0.2], [0.2, 2.0]], 3]],
    'negative_binomial': [[3, 0.4], [2, 0.6, [3]]], 'noncentral_chisquare': [[2.0, 1.0], [3.0, 0.5, [2]]], 'noncentral_f': [[3.0, 5.0, 1.0], [3.0, 5.0, 1.0, [2]]],
    'normal': [[], [2.0], [0.0, 3.0, [2, 2]]], 'pareto': [[2.0], [3.0, [3]]], 'poisson': [[], [4.0], [2.0, [3]]], 'power': [[2.0], [0.5, [3]]], 'rayleigh': [[], [2.0, [2]]],
    'standard_cauchy': [[], [[3]]], 'standard_exponential': [[], [[2]]], 'standard_gamma': [[1.5], [2.0, [3]]], 'standard_normal': [[], [[2, 2]]], 'standard_t': [[4.0], [5.0, [3]]],
    'triangular': [[0.0, 0.5, 1.0], [-1.0, 0.0, 2.0, [3]]], 'uniform': [[], [1.0, 2.0], [0.0, 5.0, [2, 3]]], 'vonmises': [[0.0, 2.0], [1.0, 4.0, [3]]], 'wald': [[1.0, 2.0], [2.0, 1.0, [2]]],
    'weibull': [[2.0], [1.5, [3]]], 'zipf': [[2.5], [3.0, [4]]],
}
ARGQ = ['argmax', 'nanargmax', 'argmin', 'nanargmin', 'argwhere', 'nonzero', 'flatnonzero']
CONV = ['asarray', 'array', 'asarray_int', 'float', 'int', 'str', 'repr', 'shape', 'size', 'ndim', 'len', 'dtype', 'flat', 'iter', 'fshape', 'astype', 'npfunc', 'itemsize']
TESTERS = ['assert_allclose', 'assert_almost_equal', 'assert_approx_equal', 'assert_array_almost_equal', 'assert_array_almost_equal_nulp', 'assert_array_equal',
           'assert_array_less', 'assert_array_max_ulp', 'assert_equal', 'assert_string_equal', 'assert_raises', 'assert_no_warnings', 'assert_warns']


def generate(g, tier):
    from vlib import gen
    t = g.weighted([(30, 'create'), (22, 'random'), (16, 'argq'), (16, 'conv'), (16, 'test')])
    c = {'t': t}
    if t == 'random':
        c['f'] = g.pick(sorted(RANDOM))
        c['n'] = g.int(0, len(RANDOM[c['f']]) - 1)
        c['seed'] = g.int(0, 99999)
        c['calls'] = g.int(1, 3)
        c['how'] = g.pick(['seed', 'state'])
        return c
    if t == 'create':
        f = c['f'] = g.pick(['empty', 'empty_like', 'eye', 'identity', 'ones', 'ones_like', 'zeros', 'zeros_like', 'array', 'arange', 'linspace', 'logspace', 'meshgrid', 'mgrid',
                             'ogrid', 'fromfunction', 'fromiter', 'tri', 'asarray', 'ctor', 'array_of', 'ascontiguousarray', 'asfarray'])
        if f in ('empty', 'ones', 'zeros'):
            s = gen.shape(g, 24, 3)
            c['args'] = [s[0] if g.chance(30) else s]
            c['kw'] = g.pick([{}, {}, {'dtype': 'f8'}, {'dtype': 'i4'}])
        elif f in ('empty_like', 'ones_like', 'zeros_like', 'array', 'asarray', 'ctor', 'array_of', 'ascontiguousarray', 'asfarray'):
            s = gen.shape(g, 24, 3)
            c['v'] = ops.enc(gen.values(g, s, g.pick(['generic', 'ties', 'special'])))
            c['as'] = g.pick(['ch', 'array', 'list', 'int', 'f32', 'scalar', 'F'])
        elif f == 'eye':
            c['args'] = [g.int(1, 4)] + ([g.int(1, 5)] + ([g.int(-2, 2)] if g.chance(50) else []) if g.chance(50) else [])
            c['kw'] = {'k': g.int(-1, 1)} if len(c['args']) < 3 and g.chance(30) else {}
        elif f == 'identity':
            c['args'] = [g.int(1, 5)]
        elif f == 'tri':
            c['args'] = [g.int(1, 4)] + ([g.int(1, 4), g.int(-1, 2)] if g.chance(50) else [])
        elif f == 'arange':
            c['args'] = g.pick([[5], [2, 7], [1, 9, 3], [0.0, 1.0, 0.25], [3.5], [5, 0, -2]])
        elif f in ('linspace', 'logspace'):
            c['args'] = g.pick([[0.0, 1.0], [0, 5, 6], [1.0, -1.0, 5], [2, 3, 1]])
            c['kw'] = {'endpoint': False} if g.chance(30) else {}
        elif f == 'meshgrid':
            n = g.int(1, 3)
            c['args'] = [[g.int(-3, 3) for _ in range(n)] for _ in range(2)]
            c['kw'] = {'indexing': 'ij'} if g.chance(40) else {}
            if g.chance(50):
                c['args'][1] = [g.int(-3, 3) for _ in range(g.int(1, 4))]
        elif f in ('mgrid', 'ogrid'):
            c['args'] = [[g.int(0, 2), g.int(3, 5), g.pick([None, 2])] for _ in range(g.int(1, 3))]
        elif f == 'fromfunction':
            c['args'] = gen.shape(g, 12, 3)
        elif f == 'fromiter':
            c['args'] = [g.int(-9, 9) for _ in range(g.int(1, 6))]
        return c
    s = gen.shape(g, 24, 3)
    if t == 'argq':
        c['f'] = g.pick(ARGQ)
        c['v'] = ops.enc(gen.values(g, s, g.pick(['generic', 'ties', 'ties', 'nonfinite'])))
        c['axis'] = g.pick([None] + list(range(-len(s), len(s))))
        c['as'] = g.pick(['ch', 'ch', 'expr', 'array', 'list'])
        c['how'] = g.pick(['pos', 'kw', 'none'])
        if c['as'] == 'ch' and g.chance(40):
            c['v0'] = ops.enc(gen.values(g, gen.shape(g, 24, 3), 'generic'))
        return c
    if t == 'conv':
        c['f'] = g.pick(CONV)
        c['v'] = ops.enc(gen.values(g, [1] * g.int(1, 3) if c['f'] in ('float', 'int') and g.chance(80) else s, g.pick(['generic', 'ties', 'special'])))
        c['as'] = g.pick(['ch', 'expr'])
        if c['as'] == 'ch' and g.chance(40):
            c['v0'] = ops.enc(gen.values(g, gen.shape(g, 24, 3), 'generic'))
        return c
    c['f'] = g.pick(TESTERS)
    v = gen.values(g, s, g.pick(['generic', 'ties', 'nonfinite']))
    w = v.copy()
    how = g.weighted([(35, 'same'), (25, 'near'), (20, 'far'), (10, 'ulp'), (10, 'shape')])
    k = g.int(0, v.size - 1)
    if how == 'near':
        w.ravel()[k] += g.pick([1e-8, 1e-6, 1e-5, 1e-4, -1e-7])
    elif how == 'far':
        w.ravel()[k] += g.pick([0.5, -1.0, 3.0])
    elif how == 'ulp':
        import numpy as np
        for _ in range(g.int(1, 4)):
            w.ravel()[k] = np.nextafter(w.ravel()[k], 1e9)
    elif how == 'shape':
        w = w.ravel()
    c.update({'a': ops.enc(v), 'b': ops.enc(w), 'as': [g.pick(['ch', 'array', 'expr']), g.pick(['ch', 'array', 'expr'])],
              'extra': g.pick([{}, {}, 'tol', 'dec', 'pos', 'pos']), 'n': g.int(0, 9), 'npos': g.int(1, 5)})
    return c


def earlier(case, a, v, f):
    """The input held something else when it was asked first."""
    if 'v0' in case:
        a.x = ops.dec(case['v0'])
        outcome(lambda: f(a))
        a.r
        a.x = v.copy()


def give(ch, v, how):
    """-> (argument for the library, the same for NumPy)"""
    import numpy as np
    if how == 'ch':
        return ch.Ch(v.copy()), v
    if how == 'expr':
        return ch.Ch(v.ravel().copy()).reshape(v.shape), v
    if how == 'list':
        return v.tolist(), v.tolist()
    if how == 'int':
        i = np.where(np.isfinite(v), np.clip(v, -1e6, 1e6), 0).astype(int)
        return i.copy(), i
    if how == 'f32':
        return v.astype(np.float32), v.astype(np.float32)
    if how == 'scalar':
        return float(v.ravel()[0]), float(v.ravel()[0])
    if how == 'F':
        return np.asfortranarray(v), v
    return v.copy(), v


def outcome(f):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return ('ok', f())
        except Exception as e:
            return ('raise', type(e))


def same_input(got, want, what):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, short
    require(isinstance(got, ch.Ch), '%s is not an input: %r', what, type(got))
    want = np.atleast_1d(np.asarray(want, dtype=np.float64))
    r = got.r
    require(r.dtype == np.float64 and r.shape == want.shape, '%s has shape %s and type %s, expected %s', what, r.shape, r.dtype, want.shape)
    require(np.array_equal(r, want, equal_nan=True), '%s is %s, expected %s', what, short(r), short(want))
    return want


def use_input(x, want, what):
    """A created array is an independent variable."""
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_jac
    if want.size == 0 or not np.all(np.isfinite(want)):
        return
    y = x * 3.0
    check_jac(y.dr_wrt(x), 3.0 * np.eye(want.size), 'derivative with respect to ' + what)
    k = np.unravel_index(want.size - 1, want.shape)
    w = want.copy()
    w[k] = 17.5
    x[k] = 17.5
    require(np.array_equal(x.r, w) and np.array_equal(y.r, w * 3.0), '%s does not take an assignment', what)


def check(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, short, fail
    t, f = case['t'], case['f']
    ctx.label(t, f)
    if t == 'random':
        args = [tuple(a) if isinstance(a, list) and f not in ('dirichlet', 'multivariate_normal', 'multinomial') else a for a in RANDOM[f][case['n']]]
        if case['how'] == 'seed':
            np.random.seed(case['seed'])
        else:
            np.random.seed(case['seed'])
            st = np.random.get_state()
        want = [outcome(lambda: getattr(np.random, f)(*args)) for _ in range(case['calls'])]
        tail = np.random.rand()
        if case['how'] == 'seed':
            ch.random.seed(case['seed'])
        else:
            ch.random.set_state(st)
            s2 = ch.random.get_state()
            require(s2[0] == st[0] and np.array_equal(s2[1], st[1]) and s2[2:] == st[2:], 'get_state does not return the state that was set')
        for k in range(case['calls']):
            got = outcome(lambda: getattr(ch.random, f)(*args))
            what = 'random.%s%r' % (f, tuple(args))
            require(got[0] == want[k][0], '%s: %s, NumPy: %s', what, got, want[k])
            if got[0] == 'ok':
                w = same_input(got[1], want[k][1], what)
                use_input(got[1], w, what)
        require(np.random.rand() == tail, 'random.%s consumes another amount of random numbers', f)
        return True
    if t == 'create':
        return create(case, ctx)
    if t == 'argq':
        v = ops.dec(case['v'])
        a, b = give(ch, v, case['as'])
        if f in ('argwhere', 'nonzero', 'flatnonzero'):
            call = lambda m, x: getattr(m, f)(x)
        elif case['how'] == 'pos':
            call = lambda m, x: getattr(m, f)(x, case['axis'])
        elif case['how'] == 'kw':
            call = lambda m, x: getattr(m, f)(x, axis=case['axis'])
        else:
            call = lambda m, x: getattr(m, f)(x)
        earlier(case, a, v, lambda z: call(ch, z))
        want = outcome(lambda: call(np, b))
        got = outcome(lambda: call(ch, a))
        what = '%s of %s' % (f, short(v))
        require(got[0] == want[0], '%s: %s, NumPy: %s', what, got, want)
        if got[0] == 'raise':
            require(got[1] is want[1], '%s raises %s, NumPy %s', what, got[1], want[1])
            return False
        g, w = got[1], want[1]
        if isinstance(w, tuple):
            require(isinstance(g, tuple) and len(g) == len(w), '%s is %r, expected %r', what, g, w)
            for x, y in zip(g, w):
                require(np.array_equal(x, y), '%s is %r, expected %r', what, g, w)
        else:
            require(np.shape(g) == np.shape(w) and np.array_equal(g, w), '%s is %r, expected %r', what, g, w)
        return True
    if t == 'conv':
        return convert(case, ctx)
    return tester(case, ctx)


def create(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require
    f = case['f']
    kw = case.get('kw') or {}
    if 'v' in case:
        v = ops.dec(case['v'])
        a, b = give(ch, v, case['as'])
        name = {'ctor': 'Ch', 'array_of': 'array'}.get(f, f)
        what = '%s(%s)' % (name, case['as'])
        if f in ('ascontiguousarray', 'asfarray'):
            r = getattr(ch, f)(a)
            require(np.array_equal(np.asarray(r, dtype=np.float64), np.asarray(b, dtype=np.float64)), '%s changes its argument', what)
            return True
        if f == 'asarray' and case['as'] == 'ch':
            require(ch.asarray(a) is a, 'asarray of an expression is another object')
            return True
        if f == 'array_of' and case['as'] in ('ch', 'array', 'F'):
            # a list of arrays
            got = ch.array([np.asarray(b), np.asarray(b) * 2.0])
            want = np.array([np.asarray(b), np.asarray(b) * 2.0])
        else:
            got = getattr(ch, name)(a)
            want = getattr(np, f if f not in ('ctor', 'array_of') else 'array')(b)
        if f == 'empty_like':
            require(isinstance(got, ch.Ch) and got.shape == np.atleast_1d(want).shape, '%s has shape %s', what, got.shape)
            w = np.atleast_1d(np.array(got.r))
        else:
            w = same_input(got, want, what)
        if isinstance(got, ch.Ch) and got is not a:
            snap = np.array(a.r if hasattr(a, 'dterms') else a, copy=True)
            use_input(got, w, what)
            require(np.array_equal(np.asarray(a.r if hasattr(a, 'dterms') else a), snap, equal_nan=True), 'assigning to the result of %s changes its argument', what)
        return True
    args = case['args']
    if f in ('mgrid', 'ogrid'):
        key = tuple(slice(*a) for a in args)
        key = key if len(key) > 1 else key[0]
        got, want = getattr(ch, f)[key], getattr(np, f)[key]
        if isinstance(want, (list, tuple)):
            require(len(got) == len(want), '%s gives %d arrays, expected %d', f, len(got), len(want))
            for x, y in zip(got, want):
                use_input(x, same_input(x, y, f), f)
        else:
            use_input(got, same_input(got, want, f), f)
        return True
    if f == 'fromfunction':
        fn = {1: lambda i: i * 2 + 1, 2: lambda i, j: i * 3 - j, 3: lambda i, j, k: i + j * k}[len(args)]
        got, want = ch.fromfunction(fn, tuple(args)), np.fromfunction(fn, tuple(args))
    elif f == 'fromiter':
        got, want = ch.fromiter(iter(args), float), np.fromiter(iter(args), float)
    elif f == 'meshgrid':
        w = np.meshgrid(*args, **kw)
        got, want = outcome(lambda: ch.meshgrid(*args, **kw)), np.array(w)
        require(got[0] == 'ok', 'meshgrid%r raises %s', tuple(args), got[1])
        got = got[1]
    else:
        args = [tuple(a) if isinstance(a, list) else a for a in args]
        got, want = getattr(ch, f)(*args, **kw), getattr(np, f)(*args, **kw)
    what = '%s%r %r' % (f, tuple(args), kw)
    if f == 'empty':
        require(isinstance(got, ch.Ch) and got.shape == want.shape, '%s has shape %s', what, got.shape)
        got.x = np.zeros(want.shape)
        want = np.zeros(want.shape)
    use_input(got, same_input(got, want, what), what)
    return True


def convert(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, short
    f = case['f']
    v = ops.dec(case['v'])
    x, v = give(ch, v, case['as'])
    what = '%s of %s' % (f, short(v))
    P = {
        'asarray': lambda z: np.asarray(z), 'array': lambda z: np.array(z), 'asarray_int': lambda z: np.asarray(z, dtype=int), 'float': float, 'int': int, 'str': str,
        'size': lambda z: z.size, 'ndim': lambda z: z.ndim, 'shape': lambda z: z.shape, 'len': len, 'dtype': lambda z: z.dtype, 'flat': lambda z: list(z.flat),
        'astype': lambda z: np.asarray(z).astype(np.float32), 'npfunc': lambda z: np.asarray(np.sum(np.asarray(z))), 'itemsize': lambda z: z.itemsize,
        'repr': str, 'iter': None, 'fshape': None,
    }
    earlier(case, x, v, P[f] or (ch.shape if f == 'fshape' else list))
    if f == 'fshape':
        for z in (x, v, v.tolist(), float(v.ravel()[0])):
            w = np.shape(v if z is x else z)
            require(tuple(ch.shape(z)) == w, 'shape(%r) is %r, expected %r', type(z), ch.shape(z), w)
        return True
    if f == 'iter':
        got = list(x)
        require(len(got) == len(v), 'iterating over %s gives %d items', short(v), len(got))
        for a, b in zip(got, v):
            b = np.atleast_1d(b)
            require(a.r.shape == b.shape and np.array_equal(a.r, b), 'iterating over %s gives %s, expected %s', short(v), short(a.r), short(b))
        return True
    fn = P[f]
    want = outcome(lambda: fn(v))
    if f == 'repr':
        r = repr(x)
        require(r.endswith(want[1]), 'the text form %r does not show the value %r', r, want[1])
        return True
    got = outcome(lambda: fn(x))
    require(got[0] == want[0], '%s: %s, NumPy: %s', what, got, want)
    if got[0] == 'raise':
        require(got[1] is want[1], '%s raises %s, NumPy %s', what, got[1], want[1])
        return False
    if isinstance(want[1], np.ndarray):
        require(got[1].dtype == want[1].dtype and got[1].shape == want[1].shape and np.array_equal(got[1], want[1], equal_nan=True), '%s is %r, expected %r', what, got[1], want[1])
        if f == 'array':
            got[1][...] = -5.0
            require(np.array_equal(x.r, v, equal_nan=True), 'writing into np.array(x) changes x')
    else:
        require(got[1] == want[1] or (got[1] != got[1] and want[1] != want[1]) or f == 'flat' and np.array_equal(got[1], want[1], equal_nan=True), '%s is %r, expected %r', what, got[1], want[1])
    return True


def tester(case, ctx):
    import warnings
    import numpy as np
    import chumpy as ch
    from vlib.util import require, short
    f = case['f']
    a, b = ops.dec(case['a']), ops.dec(case['b'])
    if f == 'assert_string_equal':
        s = [('abc', 'abc'), ('abc', 'abd'), ('', ''), ('a\nb', 'a\nb'), ('a\nb', 'a\nc')][case['n'] % 5]
        call = lambda m: m.assert_string_equal(*s)
    elif f == 'assert_raises':
        e, fn = [(ValueError, lambda: int('x')), (ValueError, lambda: 1), (TypeError, lambda: 1 + 'a'), (KeyError, lambda: {}['a'])][case['n'] % 4]
        call = lambda m: m.assert_raises(e, fn)
    elif f in ('assert_no_warnings', 'assert_warns'):
        fn = [lambda *k: warnings.warn('x', UserWarning), lambda *k: 5][case['n'] % 2]
        call = (lambda m: m.assert_no_warnings(fn)) if f == 'assert_no_warnings' else (lambda m: m.assert_warns(UserWarning, fn))
    else:
        kw, pos = {}, ()
        if case['extra'] == 'pos': # the optional arguments by position
            n, said = case['n'], ('look here', case['n'] % 2 == 0)
            pos = {'assert_allclose': ([1e-9, 1e-3][n % 2], [1e-5, 1., 0][n % 3], n % 4 != 0) + said, 'assert_almost_equal': (n,) + said, 'assert_approx_equal': (n + 1,) + said,
                   'assert_array_almost_equal': (n,) + said, 'assert_array_almost_equal_nulp': (n + 1,), 'assert_array_max_ulp': (n, [None, np.float32, np.float64][n % 3])}.get(f, said)
            pos = pos[:case['npos']]
        if case['extra'] == 'tol' and f == 'assert_allclose':
            kw = [{'rtol': 1e-3}, {'atol': 1e-5}, {'rtol': 1e-12, 'atol': 1e-12}][case['n'] % 3]
        if case['extra'] == 'dec':
            n = case['n']
            kw = {'assert_almost_equal': {'decimal': n}, 'assert_array_almost_equal': {'decimal': n}, 'assert_approx_equal': {'significant': n + 1},
                  'assert_array_almost_equal_nulp': {'nulp': n + 1}, 'assert_array_max_ulp': {'maxulp': n}}.get(f, {})
        if f == 'assert_approx_equal':
            # defined for scalars
            a, b = a.ravel()[:1], b.ravel()[:1]
        x, y = give(ch, a, case['as'][0])[0], give(ch, b, case['as'][1])[0]
        call = lambda m: getattr(m, f)(x, y, *pos, **kw) if m is ch.testing else getattr(m, f)(a, b, *pos, **kw)
    want, got = outcome(lambda: call(np.testing)), outcome(lambda: call(ch.testing))
    require(got[0] == want[0], '%s(%s, %s) %s, NumPy %s', f, short(a), short(b), got, want)
    if got[0] == 'raise':
        require(got[1] is want[1], '%s(%s, %s) raises %s, NumPy %s', f, short(a), short(b), got[1], want[1])
    ctx.label(got[0])
    return True
