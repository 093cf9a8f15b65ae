"""User-defined operations that prepare state in on_changed or in depends_on properties (module level: they can be pickled)."""
import numpy as np
import chumpy as ch
from chumpy import Ch, depends_on


class Poly(Ch):
    """sum(c_k x^k) + s^2: the derivative's coefficients are prepared when the coefficients change"""
    dterms = 'x', 's'
    terms = 'coef', 'scale'

    def on_changed(self, which):
        if 'coef' in which:
            self.dcoef = np.asarray(self.coef)[1:] * np.arange(1, len(self.coef))
        if 's' in which:
            self.s2 = self.s.r ** 2
        if 'scale' in which:
            self.scale2 = 2. * self.scale

    def compute_r(self):
        return self.scale2 * (np.polyval(np.asarray(self.coef)[::-1], self.x.r) + self.s2)

    def compute_dr_wrt(self, wrt):
        import scipy.sparse as sp
        J = None
        if wrt is self.x:
            J = sp.diags([self.scale2 * np.polyval(self.dcoef[::-1], self.x.r).ravel()], [0]).tocsc()
        if wrt is self.s:
            K = sp.csc_matrix(self.scale2 * 2. * self.s.r[0] * np.ones((self.x.size, 1)))
            J = K if J is None else J + K
        return J


class Lazy(Ch):
    """scale * x^2 * sum(coef) + s, through cached properties"""
    dterms = 'x', 's'
    terms = 'coef', 'scale'

    @depends_on('coef', 'scale')
    def weight(self):
        return 2. * self.scale * np.sum(self.coef)

    @depends_on('x')
    def square(self):
        return self.x.r ** 2

    @depends_on('s')
    def shift(self):
        return self.s.r[0]

    def compute_r(self):
        return self.weight * self.square + self.shift

    def compute_dr_wrt(self, wrt):
        import scipy.sparse as sp
        J = None
        if wrt is self.x:
            J = sp.diags([self.weight * 2. * self.x.r.ravel()], [0]).tocsc()
        if wrt is self.s:
            K = sp.csc_matrix(np.ones((self.x.size, 1)))
            J = K if J is None else J + K
        return J


def model(op, p):
    """-> value, {operand: dense Jacobian}"""
    x, s, coef, scale = np.asarray(p['x'], float), float(p['s']), np.asarray(p['coef'], float), float(p['scale'])
    n = x.size
    if op == 'poly':
        v = 2 * scale * (sum(c * x ** k for k, c in enumerate(coef)) + s ** 2)
        d = 2 * scale * sum((k * c * x ** (k - 1) for k, c in enumerate(coef) if k), np.zeros(n))
        return v, {'x': np.diag(d), 's': np.full((n, 1), 4 * scale * s)}
    w = 2 * scale * coef.sum()
    return w * x ** 2 + s, {'x': np.diag(2 * w * x), 's': np.ones((n, 1))}
