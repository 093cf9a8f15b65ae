"""Planted bugs: source of /verif/seeded (see plant.py). Written from the property statements and the code."""
BUGS = []
PRE = '''import io, sys
import numpy as np
import chumpy as ch
from chumpy import Ch

def dense(j):
    return np.asarray(j.todense()) if hasattr(j, 'todense') else np.atleast_2d(np.asarray(j))

def same(a, b, what):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True):
        print('WRONG %s:\\n%r\\nexpected\\n%r' % (what, a, b))
        sys.exit(1)

'''


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append({'id': id, 'property': prop, 'edits': edits, 'needs': needs, 'what_it_breaks': breaks, 'demo': PRE + demo.strip()})


CH, OPS, RE, OI, OP, LA, EX = ['chumpy/%s.py' % n for n in ('ch', 'ch_ops', 'reordering', 'optimization_internal', 'optimization', 'linalg', 'extras')]

bug('c01-power-nan', 'C01',
    [(OPS, '        result.ravel()[np.isinf(result.ravel())] = 0\n', '        result.ravel()[~np.isfinite(result.ravel())] = 0\n')],
    'a power that is NaN in NumPy: a negative base with a fractional exponent, or a NaN operand',
    'x ** y gives 0 where NumPy gives NaN',
    '''
x = Ch(np.array([-2., 4.]))
same((x ** .5).r, [np.nan, 2.], 'power')
''')

bug('c02-broadcast-key', 'C02',
    [(OPS, '        uid = (a.shape, b.shape, wrt is a, wrt is b)\n', '        uid = (tuple(sorted((a.shape, b.shape))), wrt is a, wrt is b)\n')],
    'two expressions in one process that broadcast the same pair of shapes with the operands exchanged, both differentiated',
    'the Jacobian of the second expression uses the index pattern of the first',
    '''
x, y = Ch(np.arange(1., 4.)), Ch(np.arange(1., 7.).reshape(2, 3))
same(dense((x + y).dr_wrt(x)), np.tile(np.eye(3), (2, 1)), 'd(x+y)/dx')
same(dense((y + x).dr_wrt(y)), np.eye(6), 'd(y+x)/dy')
same(dense((y * x).dr_wrt(x)), np.vstack([np.diag([1., 2., 3.]), np.diag([4., 5., 6.])]), 'd(y*x)/dx')
''')

bug('c03-sum-cache-key', 'C03',
    [(OPS, '''            uid = tuple(list(self.x.shape) + [self.axis])
            if uid not in self.dr_cache:
                idxs_presum = np.arange(self.x.size).reshape(self.x.shape)
                idxs_presum = np.rollaxis(idxs_presum, self.axis, 0)
                idxs_postsum = np.arange(self.r.size).reshape(self.r.shape)
                tp = np.ones(idxs_presum.ndim, dtype=np.uint32)
                tp[0] = idxs_presum.shape[0]
                idxs_postsum = np.tile(idxs_postsum, tp)
                data = np.ones(idxs_postsum.size)
''', '''            uid = (self.r.size, self.x.size, self.axis)
            if uid not in self.dr_cache:
                idxs_presum = np.arange(self.x.size).reshape(self.x.shape)
                idxs_presum = np.rollaxis(idxs_presum, self.axis, 0)
                idxs_postsum = np.arange(self.r.size).reshape(self.r.shape)
                tp = np.ones(idxs_presum.ndim, dtype=np.uint32)
                tp[0] = idxs_presum.shape[0]
                idxs_postsum = np.tile(idxs_postsum, tp)
                data = np.ones(idxs_postsum.size)
''')],
    'a sum over an axis whose derivative was asked, then the input gets a new shape with the same sizes of input and result (or the axis changes on a square input is still fine)',
    'derivative of the sum after the shape change is the one of the old shape',
    '''
x = Ch(np.arange(12.).reshape(2, 3, 2))
s = ch.sum(x, axis=1)
s.dr_wrt(x)
x.x = np.arange(12.).reshape(4, 3, 1)
want = np.zeros((4, 12))
for i in range(4): want[i, 3*i:3*i+3] = 1
same(dense(s.dr_wrt(x)), want, 'derivative of sum after reshape of the input')
''')

bug('c03-parent-names', 'C03',
    [(CH, '''            if self not in value._parents:
                value._parents[self] = {'varnames': set([name])}
            else:
                value._parents[self]['varnames'].add(name)
''', '''            if self not in value._parents:
                value._parents[self] = {'varnames': set([name])}
''')],
    'an expression using one input in two operand places (x + x, or x used for two operands), one of which is later rebound',
    'after rebinding one operand the expression no longer notices changes of the other',
    '''
x, y = Ch(np.array([1., 2.])), Ch(np.array([10., 20.]))
s = ch.add(a=x, b=x)
for first in ('a', 'b'):
    s = ch.add(a=x, b=x)
    same(s.r, x.r * 2, 'x+x')
    setattr(s, first, y)
    same(s.r, x.r + y.r, 'y+x')
    x[:] = x.r + 5.
    same(s.r, x.r + y.r, 'y+x after a change of x')
''')

bug('c10-commutative-sid', 'C10',
    [(CH, '''        return (self.__class__, tuple([(k, id(self.__dict__[k])) for k in pnames if k in self.__dict__]))
''', '''        return (self.__class__, tuple(sorted([id(self.__dict__[k]) for k in pnames if k in self.__dict__])))
''')],
    'an expression containing the same non-commutative operation twice with the operands exchanged (x-y and y-x), then remove_redundancy',
    'remove_redundancy merges x-y with y-x',
    '''
x, y = Ch(np.array([1., 2.])), Ch(np.array([10., 30.]))
f = ch.multiply((x - y), ch.exp((y - x) / 10.))
want = f.r.copy()
f.remove_redundancy()
same(f.r, want, 'value after remove_redundancy')
''')

bug('c12-positional-args', 'C12',
    [(CH, '''            for initial_arg in initial_args:
                if initial_arg in args:
                    args[initial_arg].x = initial_args[initial_arg]        
''', '''            for arg, value in zip(args.values(), initial_args.values()):
                arg.x = value
''')],
    'initial arguments given by name in another order than the parameters of the function, or only some of them',
    'arguments are bound by position instead of by name',
    '''
x, y = Ch(np.array([1., 2.])), Ch(np.array([3., 5.]))
f = Ch(lambda a, b: a - 2. * b, {'b': y, 'a': x})
same(f.r, x.r - 2. * y.r, 'value')
same(dense(f.dr_wrt(y)), -2. * np.eye(2), 'derivative')
''')

bug('c09-replace-once', 'C09',
    [(CH, '''        for term_name in [t for t in list(self.dterms)+list(self.terms) if hasattr(self, t)]:
''', '''        # (each distinct operand once)
        for term_name in dict((id(getattr(self, t)), t) for t in list(self.dterms)+list(self.terms) if hasattr(self, t)).values():
''')],
    'replacing something that one operation uses for both of its operands',
    'only one of the two occurrences is replaced',
    '''
x, y = Ch(np.array([1., 2.])), Ch(np.array([10., 20.]))
f = ch.sin(x * x)
f.r
f.replace(x, y)
same(f.r, np.sin(y.r * y.r), 'after replace')
''')

bug('c13-cacheprop-subset', 'C13',
    [(CH, '''            if len(nameset.intersection(v['deps'])) > 0:
''', '''            if nameset.issubset(v['deps']):
''')],
    'a user operation using one sub-expression for two operands of which a cached property depends on only one',
    'the cached property keeps its old value after the shared operand changed',
    '''
class Op(Ch):
    dterms = 'a', 'b'
    @ch.depends_on('a')
    def twice(self):
        return self.a.r * 2.
    def compute_r(self):
        return self.twice + self.b.r
    def compute_dr_wrt(self, wrt):
        return (2. if wrt is self.a else 0.) + (1. if wrt is self.b else 0.) or None

x = Ch(np.array([1., 2.]))
op = Op(a=x, b=x)
same(op.r, [3., 6.], 'op')
x[:] = np.array([5., 7.])
same(op.r, [15., 21.], 'op after a change')
''')

bug('c14-accept-first', 'C14',
    [(OI, '''                else:  # Put the old parms back
                    obj.x = ch.Ch(state.p)
                    obj.on_changed('x') # copies from flat vector to free variables
''', '''                else:  # Put the old parms back
                    obj.x = ch.Ch(state.p)
                    if obj.fevals < max_fevals: # otherwise we are leaving anyway
                        obj.on_changed('x') # copies from flat vector to free variables
''')],
    'the evaluation limit is reached exactly on a rejected trial step',
    'the solver returns with the free variables at the rejected, worse point',
    '''
def run(limit):
    x = Ch(np.array([-1.2, 1.]))
    f = ch.concatenate([10. * (x[1:] - x[:1] ** 2.), 1. - x[:1]])
    start = np.sum(f.r ** 2)
    best = [start]
    ch.minimize(f, [x], callback=lambda o: best.append(np.sum(o.r ** 2)), options={'max_fevals': limit, 'disp': False, 'delta_0': 10.})
    same(np.sum(f.r ** 2), min(best), 'residual at the returned point with max_fevals=%d' % limit)
for limit in range(1, 30):
    run(limit)
''')

bug('c15-near-cache', 'C15',
    [(OP, '''        if np.max(np.abs(vs-scalar_jacfunc.vs)) == 0:
            return scalar_jacfunc.J
''', '''        if np.allclose(vs, scalar_jacfunc.vs):
            return scalar_jacfunc.J
''')],
    'a minimiser asking for the gradient at two points that are close to each other (as they do near convergence)',
    'the gradient given to SciPy is the one of the earlier point',
    '''
import scipy.optimize
real = scipy.optimize.minimize
seen = []
def spy(fun, x0, args=(), jac=None, **kw):
    for d in (0., 1e-7, 1e-3):
        v = np.array(x0) + d
        seen.append((v, np.array(jac(v, *args)).ravel().copy()))
    class R: x = np.array(x0)
    return R
x = Ch(np.array([1., 2.]))
f = 1e4 * (x ** 3.)
scipy.optimize.minimize = spy
try:
    ch.minimize(f, [x], method='BFGS')
finally:
    scipy.optimize.minimize = real
for v, g in seen:
    want = 1e8 * 6. * v ** 5
    if not np.allclose(g, want, rtol=1e-12):
        print('WRONG gradient at', v, g, want); sys.exit(1)
''')

bug('c17-shared-data', 'C17',
    [(OPS, '''        if isinstance(data, np.ndarray):
            result.data = data.ravel()
        else: # assumed scalar
            result.data = np.empty(result.nnz)
            result.data.fill(data)
    else:
''', '''        if isinstance(data, np.ndarray):
            result.data = data.ravel()
        else: # assumed scalar
            result.data.fill(data)
    else:
''')],
    'a Jacobian of a sum or difference of same-shaped arrays kept by the caller, while another sum or difference of that shape is differentiated',
    'Jacobians returned earlier change their contents',
    '''
x, y = Ch(np.arange(3.)), Ch(np.arange(3.) + 1)
j = (x + y).dr_wrt(x)
before = dense(j).copy()
(x - y).dr_wrt(y)
same(dense(j), before, 'Jacobian kept from before')
''')

bug('c20-parent-ref', 'C20',
    [(CH, '''                value._parents[self] = {'varnames': set([name])}
''', '''                value._parents[self] = {'varnames': set([name]), 'node': self}
''')],
    'a long-lived input from which expressions are built and dropped',
    'the weak table of parents keeps its keys alive, so dropped expressions are never released',
    '''
import gc, weakref
x = Ch(np.arange(3.))
y = ch.sin(x) * 2.
y.r
w = weakref.ref(y)
del y
for _ in range(5): gc.collect()
assert w() is None, 'dropped expression is still alive'
''')

bug('c11-pinv-orientation', 'C11',
    [(LA, '''        mtx = self.mtx
        if mtx.shape[1] > mtx.shape[0]:
            result = mtx.T.dot(Inv(mtx.dot(mtx.T)))
        else:
            result = Inv(mtx.T.dot(mtx)).dot(mtx.T)
        self._result = result
''', '''        mtx = self.mtx
        old, self._mtx = getattr(self, '_mtx', None), mtx
        if old is not None:
            self._result.replace(old, mtx)
        elif mtx.shape[1] > mtx.shape[0]:
            self._result = mtx.T.dot(Inv(mtx.dot(mtx.T)))
        else:
            self._result = Inv(mtx.T.dot(mtx)).dot(mtx.T)
''')],
    'a pseudo-inverse whose matrix later changes from tall to wide or the reverse',
    'the formula for the old orientation is used on a singular product',
    '''
A = np.array([[1., 2.], [0., 1.], [3., 1.]])
m = Ch(A)
p = ch.linalg.pinv(m)
same(p.r, np.linalg.pinv(A), 'pinv tall')
m.x = A.T.copy()
try:
    v = p.r
except np.linalg.LinAlgError as e:
    print('WRONG', e); sys.exit(1)
same(v, np.linalg.pinv(A.T), 'pinv wide')
''')

bug('c07-swapaxes-key', 'C07',
    [(RE, '''    def unique_reorder_id(self): return (self.a.shape, self.axis1, self.axis2)
''', '''    def unique_reorder_id(self): return (self.a.shape, self.axis1 + self.axis2)
''')],
    'a swapaxes of an array with four dimensions, differentiated, whose axes are then changed to another pair with the same sum',
    'the Jacobian is the one of the previous pair of axes',
    '''
x = Ch(np.arange(16.).reshape(2, 2, 2, 2))
s = ch.swapaxes(x, 0, 3)
s.dr_wrt(x)
s.axis1, s.axis2 = 1, 2
same(dense(s.dr_wrt(x)).dot(x.r.ravel()), np.swapaxes(x.r, 1, 2).ravel(), 'Jacobian of swapaxes')
''')

bug('c04-lop-prune', 'C04',
    [(CH, "            if hasattr(p, 'dterms') and p is not wrt: # and p.is_dr_wrt(wrt):\n", "            if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt):\n")],
    'left multiplication with respect to a selection of an input, of an expression that uses the input two or more operations further down',
    'the branch is skipped because the selection itself is not part of the graph, so the product is None',
    '''
x = Ch(np.arange(1., 5.))
s = x[1:3]
y = ch.sin(x * x) * 2.
want = dense(y.dr_wrt(s))
got = y.lop(s, np.eye(4))
assert got is not None, 'lop wrt a selection gives None'
same(np.asarray(got).reshape(want.shape), want, 'lop')
''')

bug('c05-select-size', 'C05',
    [(RE, "            if 'idxs' in which or self.a.r.size != self._dr_cached.shape[1]:\n", "            if 'idxs' in which:\n")],
    'a selection that was differentiated, and whose source is then given another size',
    'the Jacobian keeps the number of columns of the old source',
    '''
x = Ch(np.arange(4.))
s = x[np.array([0, 2])]
same(dense(s.dr_wrt(x)), np.eye(4)[[0, 2]], 'before')
x.x = np.arange(6.)
same(dense(s.dr_wrt(x)), np.eye(6)[[0, 2]], 'after')
''')

bug('c05-one-level', 'C05',
    [(CH, """            inner = wrt
            while issubclass(inner.__class__, Permute):
                inner = inner.a
                if inner is self: 
                    return None
                result = self.compute_dr_wrt(inner)

                if result is not None:
                    break
""", """            if issubclass(wrt.__class__, Permute):
                inner = wrt.a
                if inner is not self:
                    result = self.compute_dr_wrt(inner)
""")],
    'a derivative with respect to a selection of a selection (or of a reshaped or transposed view)',
    'the derivative is reported as absent',
    '''
x = Ch(np.arange(1., 7.))
y = x * x
s = x[::2][1:]
same(dense(y.dr_wrt(s)), np.diag(2 * x.r)[:, [2, 4]], 'derivative')
''')

bug('c06-refuse', 'C06',
    [(CH, "                if issubclass(inner.__class__, Permute):\n                    inner = inner.a\n                else: \n", "                if hasattr(inner, 'a') and not hasattr(inner, 'b'):\n                    inner = inner.a\n                else: \n")],
    'an assignment to a one-operand expression that is not a rearrangement (a running sum, a maximum, a clipped array)',
    'the assignment is not refused and overwrites elements of the input',
    '''
x = Ch(np.array([1., 5., 2.]))
y = ch.clip(x, 0., 3.)
try:
    y[0] = 2.
except Exception:
    pass
same(x.r, [1., 5., 2.], 'input after a refused assignment')
''')

bug('c08-setstate-first-parent', 'C08',
    [(CH, """        for k in set(self.dterms).intersection(set(self.__dict__.keys())):
            setattr(self, k, self.__dict__[k])
""", """        for k in set(self.dterms).intersection(set(self.__dict__.keys())):
            if not getattr(self.__dict__[k], '_parents', None):
                setattr(self, k, self.__dict__[k])
""")],
    'a copied expression in which an input has two users, changed after both were evaluated',
    'only the first user of a shared input is told about its changes',
    '''
x = Ch(np.arange(1., 4.))
y = ch.sin(x) + ch.exp(x)
z = y.copy()
z.r
x2 = z.a.x
x2[:] = np.array([.5, .25, .125])
same(z.r, np.sin(x2.r) + np.exp(x2.r), 'copy after a change of its input')
same(z.b.r, np.exp(x2.r), 'exp')
same(z.a.r, np.sin(x2.r), 'sin')
''')

bug('c09-terms-skipped', 'C09',
    [(CH, "        for term_name in [t for t in list(self.dterms)+list(self.terms) if hasattr(self, t)]:\n", "        for term_name in [t for t in list(self.dterms) if hasattr(self, t)]:\n")],
    'replacing an input below an expression that some operation holds as a parameter (singular vectors hold the decomposition)',
    'the singular vectors keep belonging to the old matrix',
    '''
A, B = Ch(np.array([[3., 1.], [0., 1.], [1., 0.]])), Ch(np.array([[1., 2.], [2., 0.], [0., 5.]]))
u, d, v = ch.linalg.svd(A)
y = u * 2.
y.r
y.replace(A, B)
want = ch.linalg.svd(Ch(B.r.copy()))[0].r * 2.
same(np.abs(y.r), np.abs(want), 'u of the new matrix')
''')

bug('c12-shared-blank', 'C12',
    [(CH, "        args = {argname: ChHandle(x=Ch(idx)) for idx, argname in enumerate(inspect.getargspec(lmb)[0])}\n", "        blank = Ch(0.)\n        args = {argname: ChHandle(x=blank) for argname in inspect.getargspec(lmb)[0]}\n")],
    'a deferred function with two or more arguments of which one is left unbound and then written to in place',
    'all arguments not bound yet are one and the same variable',
    '''
f = Ch(lambda a, b : a * 3. + b)
f.a[:] = 2.
f.b[:] = 5.
same(f.r, [11.], 'value')
same(dense(f.dr_wrt(f.a)), [[3.]], 'derivative')
''')

bug('c14-restore', 'C14',
    [(OI, "                    obj.on_changed('x') # copies from flat vector to free variables\n", "")],
    'a minimisation whose last trial step is rejected before a stopping condition holds',
    'the free variables are left at the rejected point',
    '''
x = Ch(np.array([3.]))
best = []
y = ch.concatenate([ch.exp(x) - 2., ch.sin(x * 5.) * 3.])
ch.minimize(y, [x], method='dogleg', callback=lambda o: best.append(float(np.sum(o.r ** 2))), options={'disp': False, 'maxiter': 40})
end = float(np.sum(y.r ** 2))
assert end <= best[-1] * (1 + 1e-12), (end, best[-1])
x = Ch(np.array([1.]))
y = ch.concatenate([ch.absolute(x) * 2., ch.sqrt(ch.absolute(x)) + 1.])
best = []
ch.minimize(y, [x], method='dogleg', callback=lambda o: best.append(float(np.sum(o.r ** 2))), options={'disp': False, 'max_fevals': 3})
assert float(np.sum(y.r ** 2)) <= best[-1] * (1 + 1e-12), (y.r, best)
''')

bug('c14-nested-order', 'C14',
    [(OI, "                        idxs = idxs[selects.pop()]\n", "                        idxs = idxs[selects.pop(0)]\n")],
    'a free variable that is a selection of a selection of a selection',
    'the steps are written to other elements than the ones they were computed for',
    '''
x = Ch(np.arange(8.))
fv = x[np.array([1, 3, 5, 7, 2])][np.array([4, 2, 0])][np.array([0, 2])]
t = np.array([10., 20.])
before = x.r.copy()
ch.minimize(fv * 1. - t, [fv], method='dogleg', options={'disp': False})
same(fv.r, t, 'free variables')
rest = [i for i in range(8) if i not in (1, 2)]
same(x.r[rest], before[rest], 'the other entries')
''')

bug('c14-fevals', 'C14',
    [(OI, "            if state.done or trial.is_improvement or (obj.fevals >= max_fevals):\n", "            if state.done or trial.is_improvement or (obj.fevals > max_fevals):\n")],
    'a limit on the number of evaluations that is reached by a rejected step',
    'one more evaluation than allowed is made',
    '''
import chumpy.optimization_internal as oi
worst = 0
for s in np.linspace(.2, 4., 40):
    for m in (2, 3, 4, 5, 6):
        calls = []
        class Count(Ch):
            dterms = 'x',
            def compute_r(self):
                calls.append(1)
                return self.x.r
            def compute_dr_wrt(self, wrt):
                return 1 if wrt is self.x else None
        x = Ch(np.array([s]))
        y = Count(x=ch.concatenate([ch.exp(x) - 2., ch.sin(x * 5.) * 3.]))
        ch.minimize(y, [x], method='dogleg', options={'disp': False, 'max_fevals': m})
        worst = max(worst, len(calls) - m)
print('evaluations above the limit:', worst)
assert worst <= 0
''')

bug('c15-final-assign', 'C15',
    [(OP, "    changevars(x1, obj, obj_scalar, free_variables)\n    return free_variables\n", "    if method.lower() not in ('powell', 'cobyla'):\n        changevars(x1, obj, obj_scalar, free_variables)\n    return free_variables\n")],
    'a minimisation with Powell or COBYLA whose last evaluation is not at the point it returns',
    'the free variables hold the last point tried instead of the answer',
    '''
import scipy.optimize
seen = []
orig = scipy.optimize.minimize
def rec(*a, **k):
    r = orig(*a, **k)
    seen.append(np.array(r.x))
    return r
scipy.optimize.minimize = rec
try:
    for m in ('Powell', 'COBYLA'):
        for k in range(6):
            x = Ch(np.array([1.5 + k, -2.]))
            y = ch.concatenate([x - np.array([.3, k * .7]), ch.sin(x)])
            ch.minimize(y, [x], method=m, options={'maxiter': 7 + k})
            same(x.r, np.ravel(seen[-1]), 'answer of ' + m)
finally:
    scipy.optimize.minimize = orig
''')

bug('c16-part-once', 'C16',
    [(OI, "        obj = ch.concatenate([f.ravel() for f in list(obj.values())])\n", "        obj = ch.concatenate([f.ravel() for f in list({id(f): f for f in obj.values()}.values())])\n")],
    'a dictionary of parts in which one expression stands under two labels',
    'the repeated part is counted once',
    '''
x = Ch(np.array([0.]))
p, q = x - 1., x - 4.
ch.minimize({'a': p, 'b': q, 'c': p}, [x], method='dogleg', options={'disp': False})
same(x.r, [2.], 'minimiser')
''')

bug('c19-interp-image', 'C19',
    [(EX, "        if 'image' in which:\n", "        if 'image' in which and not hasattr(self, 'gx'):\n")],
    'an interpolation whose volume is replaced after it was evaluated',
    'slopes of the first volume are used with values of the new one',
    '''
from chumpy.extras import Interp3D
im = np.arange(27.).reshape(3, 3, 3)
loc = Ch(np.array([[.5, .25, .75], [1.5, 1., .25]]))
y = Interp3D(image=im, locations=loc)
y.r
y.image = im ** 2
z = Interp3D(image=im ** 2, locations=loc)
same(y.r, z.r, 'value')
same(dense(y.dr_wrt(loc)), dense(z.dr_wrt(loc)), 'derivative')
''')

bug('c20-strong-drs', 'C20',
    [(CH, "        object.__setattr__(result, '_cache', {'r': None, 'drs': weakref.WeakKeyDictionary()})\n", "        object.__setattr__(result, '_cache', {'r': None, 'drs': {}})\n")],
    'a long-lived expression that was differentiated with respect to temporary selections',
    'the selections stay alive as keys of the derivative cache',
    '''
import gc, weakref
x = Ch(np.arange(1., 5.))
y = x * x
s = x[1:3]
y.dr_wrt(s)
w = weakref.ref(s)
del s
for _ in range(5): gc.collect()
assert w() is None, 'dropped selection is still alive'
''')

bug('c21-int', 'C21',
    [(CH, "        return self.r.__int__()\n", "        return int(np.round(self.r.__float__()))\n")],
    'int() of a one-element array that is not integral',
    'the number is rounded instead of truncated',
    '''
assert int(Ch([2.75])) == 2 and int(Ch([-1.75])) == -1, (int(Ch([2.75])), int(Ch([-1.75])))
''')

bug('c22-walk-sid', 'C22',
    [(CH, "        if self not in visited:\n", "        if self.sid not in visited:\n"), (CH, "            visited.add(self)\n            yield self\n", "            visited.add(self.sid)\n            yield self\n")],
    'an expression containing two separately built copies of the same operation on the same operands',
    'only one of the two nodes is visited',
    '''
x = Ch(np.arange(3.))
a, b = ch.sin(x), ch.sin(x)
y = a * b
ids = [id(n) for n in y.tree_iterator()]
assert sorted(ids) == sorted(map(id, (x, a, b, y))), len(ids)
''')

bug('c23-dirty-first', 'C23',
    [(CH, "            self.on_changed(self._dirty_vars)\n            object.__setattr__(self, '_dirty_vars', set())\n", "            which = self._dirty_vars\n            object.__setattr__(self, '_dirty_vars', set())\n            self.on_changed(which)\n")],
    'a change notification that raises, followed by another query',
    'the change is forgotten, so the next query computes from the state of before the change',
    '''
class Op(Ch):
    dterms = 'x',
    bad = False
    def on_changed(self, which):
        if 'x' in which:
            if Op.bad:
                raise ValueError('not now')
            object.__setattr__(self, 'twice', self.x.r * 2.)
    def compute_r(self): return self.twice
    def compute_dr_wrt(self, wrt): return 2. if wrt is self.x else None
x = Ch(np.array([1., 2.]))
y = Op(x=x)
same(y.r, [2., 4.], 'before')
x.x = np.array([3., 4.])
Op.bad = True
try:
    y.r
    sys.exit('no exception')
except ValueError:
    pass
Op.bad = False
same(y.r, [6., 8.], 'after')
''')

bug('c24-cache-top-only', 'C24',
    [(CH, "        if len(list(self._parents.keys())) != 1:\n            self._cache['drs'][wrt] = result\n", "        if len(list(self._parents.keys())) == 0:\n            self._cache['drs'][wrt] = result\n")],
    'a sub-expression used by two or more other expressions',
    'its derivative is computed again for every user (exponential work in towers)',
    '''
calls = []
class Op(Ch):
    dterms = 'x',
    def compute_r(self): return np.sin(self.x.r)
    def compute_dr_wrt(self, wrt):
        if wrt is self.x:
            calls.append(1)
            return np.diag(np.cos(self.x.r))
x = Ch(np.arange(1., 3.))
s = Op(x=x)
y = ch.exp(s) + ch.cos(s)
y.dr_wrt(x)
assert len(calls) == 1, len(calls)
''')

bug('c01-max-nan', 'C01',
    [(OPS, "class amax(A_extremum):\n    def f(self, *args, **kwargs):    return np.amax(*args, **kwargs)\n", "class amax(A_extremum):\n    def f(self, *args, **kwargs):    return np.nanmax(*args, **kwargs)\n")],
    'a maximum over an array that contains a NaN',
    'the NaN is ignored',
    '''
same(ch.max(Ch([1., np.nan, 3.])).r, [np.nan], 'max')
''')

bug('c11-svd-threshold', 'C11',
    [(LA, "        result[1][np.abs(result[1]) < np.spacing(1)] = 0.\n", "        result[1][np.abs(result[1]) < 1e-8] = 0.\n")],
    'the singular values of a well-conditioned matrix with small entries',
    'small singular values become zero',
    '''
A = np.array([[3., 1.], [0., 1.], [1., 2.]]) * 1e-9
same(ch.linalg.svd(Ch(A))[1].r / 1e-9, np.linalg.svd(A, full_matrices=False)[1] / 1e-9, 'singular values')
''')

bug('c18-lop-zero', 'C18',
    [(CH, """                if lhs_for_child is not None: # Can be None with ChLambda, _result etc
""", """                if lhs_for_child is not None and np.any(lhs_for_child if not sp.issparse(lhs_for_child) else lhs_for_child.data): # Nothing to pass on otherwise
""")],
    'a left product with a vector that meets only zeros on the way to the input',
    'the product is missing (None) where it should be zero, although the expression depends on the input',
    """
x = Ch(np.array([1., 2.]))
y = ch.sin(x) * 2.
v = y.lop(x, np.zeros((1, 2)))
if v is None:
    print('WRONG: no product')
    sys.exit(1)
same(np.asarray(v).ravel(), [0., 0.], 'left product')
""")

bug('c08-dirty-dropped', 'C08',
    [(CH, '''        d['_parents'] = weakref.WeakKeyDictionary()
        d['_cache'] =''', '''        d['_parents'], d['_dirty_vars'] = weakref.WeakKeyDictionary(), set()
        d['_cache'] =''')],
    'copying or pickling an operation before its first evaluation, when its change notification prepares something from a parameter',
    'the copy is never told about its parameters and fails or answers differently from the original',
    '''
import pickle
from chumpy.extras import Interp3D
loc = np.array([[.5, 1., 1.5]])
f = Interp3D(image=np.arange(27.).reshape(3, 3, 3) ** 2, locations=loc)
g = pickle.loads(pickle.dumps(f))
same(g.r, f.r, 'copy')
''')

bug('c10-repr-sid', 'C10',
    [(CH, '''        return (self.__class__, tuple([(k, id(self.__dict__[k])) for k in pnames if k in self.__dict__]))
''', '''        return (self.__class__, tuple([(k, id(v) if hasattr(v, 'dterms') else repr(v)) for k, v in [(k, self.__dict__[k]) for k in pnames if k in self.__dict__]]))
''')],
    'two operations on the same operand whose array parameters print alike: more than 1000 elements with equal ends, or different beyond 8 digits',
    'removing redundancy merges expressions that are different',
    '''
x = Ch(np.linspace(0., 1., 1200))
i, j = np.arange(1200), np.arange(1200)
j[[500, 600]] = j[[600, 500]]
y = x[i] * x[j]
want = np.array(y.r)
y.remove_redundancy()
same(y.r, want, 'value after removing redundancy')
''')

bug('c07-nested-axis', 'C07',
    [(RE, '''        if isinstance(mtx, Concatenate) and mtx.axis == axis:
            mtxs = [getattr(mtx, s) for s in mtx.dterms] + mtxs
''', '''        if isinstance(mtx, Concatenate) and (mtx.axis == axis or mtx.ndim + min(mtx.axis, axis) == max(mtx.axis, axis) or len(mtx.dterms) == 1):
            mtxs = mtxs[:0] + [getattr(mtx, s) for s in sorted(mtx.dterms)] + mtxs
''')],
    'a concatenation of eleven or more arrays inside another concatenation along the same axis',
    'the parts of the inner concatenation are joined in the order m0, m1, m10, m11, m2, ...',
    '''
xs = [Ch(np.array([float(i)])) for i in range(12)]
y = ch.concatenate((ch.concatenate(xs), Ch(np.array([99.]))))
same(y.r, list(range(12)) + [99.], 'nested concatenation')
''')

bug('c13-props-by-name', 'C13',
    [(CH, '''    if cls not in _props_for_dict:
        _props_for_dict[cls] = set([p[0] for p in inspect.getmembers(cls, lambda x : isinstance(x, property))])
    return _props_for_dict[cls]
''', '''    if cls.__name__ not in _props_for_dict:
        _props_for_dict[cls.__name__] = set([p[0] for p in inspect.getmembers(cls, lambda x : isinstance(x, property))])
    return _props_for_dict[cls.__name__]
'''), (CH, '''_props_for_dict = weakref.WeakKeyDictionary()
''', '''_props_for_dict = {}
''')],
    'two user-defined classes of the same name, where an operand of the second has the name of a property of the first',
    'the operand is taken for a property: it is not wrapped and registered, and changes of it go unnoticed',
    '''
def make(prop):
    class Op(Ch):
        dterms = 'a', 'b'
        def compute_r(self):
            return self.a.r * 2.
        def compute_dr_wrt(self, wrt):
            if wrt is self.a:
                return np.eye(2) * 2.
    if prop:
        class Op(Ch):
            dterms = 'q',
            @property
            def a(self):
                return 1.
            def compute_r(self):
                return self.q.r
            def compute_dr_wrt(self, wrt):
                return None
    return Op
x = Ch(np.array([1., 2.]))
make(True)(q=x).r
y = make(False)(a=x, b=Ch(np.zeros(2)))
same(y.r, [2., 4.], 'value')
x[:] = np.array([5., 6.])
same(y.r, [10., 12.], 'value after a change')
''')

bug('c23-prop-flag', 'C23',
    [(CH, '''                sdf['value'] = func(self, *args, **kwargs)
                sdf['out_of_date'] = False
''', '''                sdf['out_of_date'] = False
                sdf['value'] = func(self, *args, **kwargs)
''')],
    'a cached property of a user-defined operation raises, its cause is not an operand, and the query is repeated',
    'the value from before the failure is returned (or None) instead of raising again or recomputing',
    '''
STATE = {'fail': False}
class Op(Ch):
    dterms = 'a',
    @ch.depends_on('a')
    def twice(self):
        if STATE['fail']:
            raise ValueError('not now')
        return self.a.r * 2.
    def compute_r(self):
        return self.twice
    def compute_dr_wrt(self, wrt):
        if wrt is self.a:
            return np.eye(2) * 2.
x = Ch(np.array([1., 2.]))
y = Op(a=x)
same(y.r, [2., 4.], 'value')
x[:] = np.array([5., 6.])
STATE['fail'] = True
try:
    y.r
    raise AssertionError('no exception')
except ValueError:
    pass
STATE['fail'] = False
same(y.r, [10., 12.], 'value after the failure')
''')

bug('c24-none-again', 'C24',
    [(CH, '''        drs = []

        if wrt in self._cache['drs']:
            if DEBUG:
''', '''        drs = []

        if self._cache['drs'].get(wrt) is not None:
            if DEBUG:
''')],
    'the derivative of an expression with respect to an input it does not depend on is asked for twice',
    'the second query visits every operation again',
    '''
COUNT = [0]
class Op(Ch):
    dterms = 'a',
    def compute_r(self):
        return self.a.r * 2.
    def compute_dr_wrt(self, wrt):
        COUNT[0] += 1
        if wrt is self.a:
            return np.eye(2) * 2.
x, z = Ch(np.array([1., 2.])), Ch(np.array([3.]))
y = Op(a=x)
assert y.dr_wrt(z) is None
n = COUNT[0]
assert y.dr_wrt(z) is None
assert COUNT[0] == n, 'computed again'
''')

bug('c24-nan-again', 'C24',
    [(CH, '''        if self._cache['r'] is None:
''', '''        if self._cache['r'] is None or np.isnan(np.sum(self._cache['r'])):
''')],
    'an expression whose value contains a NaN is asked for its value again',
    'its value, and those of everything below that is NaN, is computed again although nothing changed',
    '''
COUNT = [0]
class Op(Ch):
    dterms = 'a',
    def compute_r(self):
        COUNT[0] += 1
        return self.a.r * np.nan
    def compute_dr_wrt(self, wrt):
        return None
y = Op(a=Ch(np.array([1., 2.])))
y.r
n = COUNT[0]
y.r
(y + 1.).r
assert COUNT[0] == n, 'computed again'
''')

bug('c16-sorted-parts', 'C16',
    [('chumpy/optimization_internal.py', '''                        new_jac = new_jac[:, freevar.idxs]
                    except''', '''                        new_jac = new_jac[:, np.sort(freevar.idxs)]
                    except''')],
    'dogleg with a free variable that selects entries of an input in another order than that of the array',
    'the columns of its Jacobian are assigned to the wrong entries, the steps are wrong and another point is returned',
    '''
a = np.array([[3., 1., 0.], [0., 2., 1.], [1., 0., 4.], [1., 1., 1.]])
b = np.array([1., 2., 3., 4.])
best = np.linalg.lstsq(a, b, rcond=None)[0]
for sel in (slice(None), [2, 0, 1]):
    x = Ch(np.zeros(3))
    ch.minimize(ch.dot(a, x) - b, [x[sel]], method='dogleg', options={'disp': False})
    same(x.r, best, 'minimum')
''')

bug('c22-report-inputs', 'C22',
    [(CH, '''            if hasattr(dt, 'dterms'):
                dt.print_labeled_residuals(''', '''            if hasattr(dt, 'dterms') and not dt.is_ch_baseclass():
                dt.print_labeled_residuals(''')],
    'an input (rather than an expression) is labelled',
    'the residual report leaves it out',
    '''
import io
x = Ch(np.array([1., 2.]))
x.label = 'input'
y = x * 2.
y.label = 'double'
out = io.StringIO()
ch.sum(y).print_labeled_residuals(where_to_print=out)
assert 'double: 2.00e+01' in out.getvalue() and 'input: 5.00e+00' in out.getvalue(), out.getvalue()
''')

bug('c04-lmult-selection', 'C04',
    [(CH, '''        drs = []        

        direct_dr = self._compute_dr_wrt_sliced(wrt)

        if direct_dr is not None:
            drs.append(self._superdot(lhs, direct_dr))
''', '''        drs = []        

        direct_dr = self.compute_dr_wrt(wrt)

        if direct_dr is not None:
            drs.append(self._superdot(lhs, direct_dr))
''')],
    'reverse mode with respect to a selection of an input that is used by an operation below the top one',
    'the selection is not recognised there, so that part of the derivative is missing',
    '''
x = Ch(np.array([1., 2., 3.]))
y = ch.sum(ch.sin(x)) * 2.
w = x[1:]
b = y.dr_wrt(w, reverse_mode=True)
a = (ch.sum(ch.sin(x)) * 2.).dr_wrt(w)
assert b is not None, 'no derivative in reverse mode'
same(np.asarray(b.todense() if hasattr(b, 'todense') else b), np.asarray(a.todense() if hasattr(a, 'todense') else a), 'reverse mode')
''')

bug('c05-select-only', 'C05',
    [(CH, '''            while issubclass(inner.__class__, Permute):
                inner = inner.a
                if inner is self: 
                    return None
''', '''            while hasattr(inner, 'idxs'):
                inner = inner.a
                if inner is self: 
                    return None
''')],
    'derivative with respect to a rearranged (transposed, reshaped) input of an expression of the input itself',
    'only selections are traced back to the input, the derivative is absent',
    '''
x = Ch(np.arange(6.).reshape(2, 3))
y = x * 2.
w = x.T
J = y.dr_wrt(w)
assert J is not None, 'no derivative'
J = np.asarray(J.todense() if hasattr(J, 'todense') else J)
same(J.dot(np.arange(6.)), 2. * np.arange(6.).reshape(3, 2).T.ravel(), 'derivative')
''')

bug('c02-index-width', 'C02',
    [(OPS, '''            IS = np.arange(output_sz)
            JS = np.asarray((np.add(a2,b2)).ravel(), np.uint32)
''', '''            IS = np.arange(output_sz)
            JS = np.asarray((np.add(a2,b2)).ravel(), np.uint16)
''')],
    'the derivative of a broadcast product with respect to an operand of more than 65536 elements',
    'its columns are taken modulo 65536',
    '''
n = 66000
x, y = Ch(np.linspace(1., 2., 2 * n).reshape(2, n)), Ch(np.ones(n) * 3.)
v = np.zeros((2, n))
v[1, -1] = 1.
J = (x * y).dr_wrt(x)
same(np.asarray(J.dot(v.ravel())).ravel(), 3. * v.ravel(), 'derivative times a vector')
''')

bug('c03-visit-limit', 'C03',
    [(CH, '''        nodes_visited = 0
        while len(todo) > 0:
''', '''        nodes_visited = 0
        while len(todo) > 0 and nodes_visited < 500:
''')],
    'an input that more than 500 expressions depend on changes after they were evaluated',
    'only the first 500 of them are invalidated, the others go on answering with their old values',
    '''
x = Ch(np.array([1., 2.]))
y = ch.concatenate([x * float(k) for k in range(700)])
y.r
x[:] = np.array([3., 4.])
same(y.r, np.concatenate([np.array([3., 4.]) * k for k in range(700)]), 'value after the change')
''')

bug('c21-float-first', 'C21',
    [(CH, "        return self.r.__float__()\n", "        return float(self.r.ravel()[0])\n")],
    'float() of an array that has several elements, or none',
    'a number is made of the first element where NumPy refuses',
    '''
x = Ch(np.arange(3.) + 1.)
try:
    v = float(x)
except TypeError:
    v = None
if v is not None:
    print('WRONG: float of a 3-element array gives', v)
    sys.exit(1)
''')

bug('c21-testing-args', 'C21',
    [("chumpy/testing.py", "np.asarray(args[1]), *args[2:], **kwargs)", "np.asarray(args[1]), *args[2:3], **kwargs)")],
    'a testing helper called with two or more positional tolerances or flags',
    'the second one is ignored, so the helper rejects what NumPy accepts',
    '''
from chumpy import testing
testing.assert_allclose(Ch(np.array([1.])), np.array([1.05]), 1e-9, .1)
''')

bug('c19-nan-to-num-inf', 'C19',
    [(OPS, "    _d = lambda self, x : np.asarray(np.isfinite(x), np.float64)\n", "    _d = lambda self, x : np.asarray(~np.isnan(x), np.float64)\n")],
    'an infinite element under nan_to_num',
    'its replacement, a constant, is said to have derivative one',
    '''
with np.errstate(all='ignore'):
    x = Ch(np.array([1., np.inf, -np.inf, np.nan]))
    same(np.diag(dense(ch.nan_to_num(x).dr_wrt(x))), [1., 0., 0., 0.], 'derivative')
''')

bug('c19-interp-shape', 'C19',
    [(EX, """        locations = self.locations.r.copy()
        for i in range(3):
            locations[:,i] = np.clip(locations[:,i], 0, self.image.shape[i]-1)
        locs =""", """        locations = np.clip(self.locations.r, 0, np.array(sorted(self.image.shape))-1)
        locs =""")],
    'a volume whose sides are not in ascending order',
    'points are clamped to the wrong side length',
    '''
from chumpy.extras import Interp3D
im = np.arange(60.).reshape(5, 4, 3)
f = Interp3D(image=im, locations=np.array([[4., 1., 1.], [3., 3., 2.]]))
same(f.r, [im[4, 1, 1], im[3, 3, 2]], 'value at grid points')
''')

bug('c17-inplace-value', 'C17',
    [(CH, """            self._cache['r'] = np.asarray(np.atleast_1d(self.compute_r()), dtype=np.float64, order='C')
""", """            r = np.asarray(np.atleast_1d(self.compute_r()), dtype=np.float64, order='C')
            buf = self._cache.get('buf') # (saves an allocation for each evaluation)
            if buf is not None and buf.shape == r.shape and buf.flags.writeable and r.size >= 8 and not self.is_ch_baseclass():
                buf[...] = r
                r = buf
            self._cache['r'] = self._cache['buf'] = r
""")],
    'a value of eight or more elements kept by the caller while the expression is evaluated again after a change',
    'values returned earlier change',
    '''
x = Ch(np.arange(10.))
y = x * 2.
kept = y.r
before = kept.copy()
x[:] = 5.
y.r
same(kept, before, 'value kept from before')
''')

bug('c18-zero-absent', 'C18',
    [(CH, "            if nonzero == 0 or hasattr(result, 'size') and result.size / float(nonzero) >= 10.0:\n", """            if nonzero == 0:
                result = None
            elif hasattr(result, 'size') and result.size / float(nonzero) >= 10.0:
""")],
    'a dense derivative that is zero at the current point',
    'the derivative is reported as absent although the expression depends on the input',
    '''
x = Ch(np.zeros((2, 2)))
y = ch.dot(x, np.zeros((2, 2)))
w = ch.sum(x ** 2.)
for e in (y, w):
    j = e.dr_wrt(x)
    if j is None:
        print('WRONG: no derivative')
        sys.exit(1)
    same(dense(j), np.zeros((e.size, 4)), 'derivative')
''')

bug('c06-close-skip', 'C06',
    [(CH, "            data.__setitem__(key, value)\n", "            data[key] = np.where(np.abs(np.subtract(data[key], value)) < 1e-12, data[key], value)\n")],
    'an assignment that changes elements by less than 1e-12',
    'the assignment is ignored',
    '''
x = Ch(np.array([0., 1e-20, 3.]))
x[0:2] = np.array([1e-18, 0.])
if not np.array_equal(x.r, [1e-18, 0., 3.]):
    print('WRONG:', x.r)
    sys.exit(1)
''')

bug('c15-constraints-bounds', 'C15',
    [(OP, "        bounds=bounds, constraints=constraints, tol=tol, options=options).x\n", "        bounds=bounds, constraints=constraints if bounds is None else (), tol=tol, options=options).x\n")],
    'a minimisation with bounds and constraints together',
    'the constraints are dropped',
    '''
x = Ch(np.array([0.5, 0.5]))
ch.minimize(x - np.array([2., 2.]), [x], method='SLSQP', bounds=[(-1., 5.), (-1., 5.)], constraints=[{'type': 'ineq', 'fun': lambda v: 1.5 - v.sum()}])
if np.sum(x.r) > 1.5 + 1e-4:
    print('WRONG:', x.r)
    sys.exit(1)
''')

bug('c01-rollaxis-start', 'C01',
    [(RE, "    def reorder(self, a):    return np.rollaxis(a, axis=self.axis, start=self.start)\n", "    def reorder(self, a):    return np.rollaxis(a, axis=self.axis, start=self.start if self.start != a.ndim else 0)\n")],
    'rollaxis to the very end',
    'the axis is moved to the front',
    '''
a = np.arange(24.).reshape(2, 3, 4)
same(ch.rollaxis(Ch(a), 0, 3).r, np.rollaxis(a, 0, 3), 'rollaxis')
''')
