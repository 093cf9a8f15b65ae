"""Helpers used inside the worker (PyPy): result normalisation and comparisons."""
import numpy as np
import scipy.sparse as sp


class Violation(Exception):
    """The code under test broke the property on this case."""


class Inconclusive(Exception):
    """The case fell outside the property's domain; counted as trivial."""


class Ctx(object):
    """Per-case collector for distribution labels and known findings."""

    def __init__(self):
        self.labels, self.knowns = [], []

    def label(self, *ls):
        self.labels.extend(ls)

    def known(self, fid):
        self.knowns.append(fid)


def real_collect():
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def short(a, n=12):
    try:
        a = np.asarray(a)
        if a.size <= n:
            return '%s%s' % (a.shape, a.tolist())
        return '%s%s...' % (a.shape, a.ravel()[:n].tolist())
    except Exception:
        return repr(a)[:200]


def dense(J, nrow=None, ncol=None, what='derivative'):
    """A Jacobian in any of the library's representations -> ndarray of the promised shape."""
    if J is None:
        fail('%s is None', what)
    if sp.issparse(J):
        J = J.toarray()
    elif not isinstance(J, np.ndarray) and hasattr(J, 'matvec') and hasattr(J, 'shape'):
        J = J.dot(np.eye(J.shape[1]))
    try:
        J = np.array(J, dtype=np.float64)
    except (TypeError, ValueError):
        fail('%s is not a numeric matrix: %r', what, type(J))
    if nrow is not None:
        require(J.shape == (nrow, ncol), '%s has shape %s, expected %s', what, J.shape, (nrow, ncol))
    return J


def close(a, b, rtol=1e-6, atol=1e-8):
    """a: observed, b: reference; both ndarrays of equal shape."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    with np.errstate(all='ignore'):
        fin = np.isfinite(b)
        if not np.array_equal(np.isfinite(a), fin):
            return False
        if not fin.all():
            an, bn = a[~fin], b[~fin]
            same = (an == bn) | (np.isnan(an) & np.isnan(bn))
            if not same.all():
                return False
            a, b = a[fin], b[fin]
            if a.size == 0:
                return True
        scale = max(1.0, float(np.max(np.abs(b))))
        return bool(np.all(np.abs(a - b) <= rtol * np.abs(b) + atol * scale))


def check_value(got, want, what='value', rtol=1e-9, atol=1e-10, shape=True):
    """got: .r of a node."""
    require(isinstance(got, np.ndarray), '%s is not an ndarray: %r', what, type(got))
    require(got.dtype == np.float64, '%s has dtype %s, expected float64', what, got.dtype)
    want = np.atleast_1d(np.asarray(want, dtype=np.float64))
    if shape:
        require(got.shape == want.shape, '%s has shape %s, expected %s', what, got.shape, want.shape)
    else:
        got, want = got.ravel(), want.ravel()
    require(close(got, want, rtol, atol), '%s is %s, expected %s', what, short(got), short(want))


def check_jac(J, want, what='derivative', rtol=1e-6, atol=1e-8, none_is_zero=True):
    want = np.asarray(want)
    if J is None:
        if none_is_zero:
            scale = float(np.max(np.abs(want))) if want.size else 0.0
            require(scale <= 1e-9, '%s is None (no dependence) but the true derivative is %s', what, short(want))
            return
        fail('%s is None', what)
    J = dense(J, want.shape[0], want.shape[1], what)
    require(close(J, want, rtol, atol), '%s is %s, expected %s', what, short(J, 40), short(want, 40))
