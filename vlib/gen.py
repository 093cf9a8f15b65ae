"""Hypothesis-driven generators (CPython side).  Every random choice goes through `draw`."""
import warnings
import numpy as np
from functools import lru_cache
from hypothesis import strategies as st
from . import ops

warnings.simplefilter('ignore')

try:
    # Hypothesis re-mixes parts of earlier examples, which for graph-shaped cases mostly yields
    # near-duplicates; spend the budget on fresh draws instead (generation and shrinking unchanged)
    from hypothesis.internal.conjecture import engine as _ce
    if hasattr(_ce.ConjectureRunner, 'generate_mutations_from'):
        _ce.ConjectureRunner.generate_mutations_from = lambda self, data: None
except Exception:
    pass


@lru_cache(maxsize=None)
def _ints(lo, hi):
    return st.integers(lo, hi)


class G(object):
    """Thin wrapper over Hypothesis' draw; small values are the simple ones, so shrinking works."""

    def __init__(self, draw):
        self.draw = draw

    def int(self, lo, hi):
        return lo if hi <= lo else self.draw(_ints(lo, hi))

    def pick(self, seq):
        seq = list(seq)
        return seq[self.int(0, len(seq) - 1)]

    def chance(self, pct):
        """True with about pct percent; shrinks to False."""
        return self.int(0, 99) >= 100 - pct

    def weighted(self, pairs):
        tot = sum(w for w, _ in pairs)
        k = self.int(0, tot - 1)
        for w, x in pairs:
            if k < w:
                return x
            k -= w
        return pairs[-1][1]

    def perm(self, n):
        l = list(range(n))
        for i in range(n - 1):
            j = self.int(i, n - 1)
            l[i], l[j] = l[j], l[i]
        return l

    def shuffled(self, seq):
        seq = list(seq)
        return [seq[i] for i in self.perm(len(seq))]

    def subset(self, seq, lo=0):
        seq = list(seq)
        out = [x for x in seq if self.chance(50)]
        while len(out) < min(lo, len(seq)):
            r = [x for x in seq if x not in out]
            out.append(self.pick(r))
        return out


REJECTED = []


def strategy(fn, *args):
    from hypothesis import reject
    from hypothesis.errors import HypothesisException

    @st.composite
    def s(draw):
        try:
            return fn(G(draw), *args)
        except (HypothesisException, NameError, AttributeError):
            raise
        except Exception as e:
            # a corner the generator does not handle: drop the draw (counted in the evidence)
            if len(REJECTED) > 400:
                raise
            import traceback
            REJECTED.append(traceback.format_exc()[-1500:])
        reject()
    return s()


SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 1e-3, -1e-3, 10.0, -10.0, 1e-8, 1e6, -1e6, 100.5]
NONFIN = [float('nan'), float('inf'), float('-inf')]


def size_of(s):
    n = 1
    for k in s:
        n *= k
    return n


def shape(g, max_size=24, max_ndim=3, min_ndim=1):
    nd = g.weighted([(40, 1), (40, 2), (16, 3), (4, 4)])
    nd = max(min_ndim, min(max_ndim, nd))
    for _ in range(20):
        s = [g.weighted([(22, 1), (26, 2), (26, 3), (12, 4), (7, 5), (7, 7)]) for _ in range(nd)]
        if size_of(s) <= max_size:
            return s
    return [1] * nd


def values(g, shp, kind=None):
    """An array of the given shape.  kinds: distinct (no ties), generic, ties, special, nonfinite, positive."""
    n = size_of(shp)
    if kind is None:
        kind = g.weighted([(45, 'distinct'), (40, 'generic'), (15, 'ties')])
    if kind == 'distinct':
        m = 101
        a, b = g.int(1, 40), g.int(0, 100)
        v = ((np.arange(n) * (2 * a + 1) + b) % m - 50) / 16.0
        if n > m:
            v = v + np.arange(n) // m / 32.0
    elif kind == 'generic':
        s = g.int(0, 99999)
        v = np.round(np.random.RandomState(s).randn(n) * 1.3 * 4096) / 4096
    elif kind == 'ties':
        v = np.array([g.int(-2, 2) for _ in range(n)], float) if n <= 12 else np.random.RandomState(g.int(0, 9999)).randint(-2, 3, n) * 1.0
    elif kind == 'special':
        v = np.array([g.pick(SPECIAL) for _ in range(n)], float) if n <= 12 else np.random.RandomState(g.int(0, 9999)).choice(SPECIAL, n)
    elif kind == 'nonfinite':
        v = values(g, shp, 'generic').ravel().copy()
        for _ in range(g.int(1, 3)):
            v[g.int(0, n - 1)] = g.pick(NONFIN)
    elif kind == 'positive':
        v = np.abs(values(g, shp, 'generic').ravel()) + 0.25
    else:
        raise ValueError(kind)
    return np.asarray(v, dtype=np.float64).reshape(shp)


def index_key(g, shp, allow_adv=True, nonempty=True):
    """A NumPy index expression valid for `shp` giving a non-empty result; returns its encoding."""
    for _ in range(6):
        k = _index_key(g, shp, allow_adv)
        try:
            r = np.empty(shp)[ops.key_of(k)]
        except Exception:
            continue
        if np.size(r) > 0 or not nonempty:
            return k
    return '...'


def _axis_key(g, n, adv):
    t = g.weighted([(30, 'sl'), (30, 'int'), (20, 'full'), (20 if adv else 0, 'ix')])
    if t == 'full':
        return {'sl': [None, None, None]}
    if t == 'int':
        return g.int(-n, n - 1)
    if t == 'ix':
        return {'ix': [g.int(-n, n - 1) for _ in range(g.int(1, 4))], 'sh': 'list'}
    a = g.pick([None] + list(range(-n, n)))
    b = g.pick([None] + list(range(-n, n + 1)))
    c = g.pick([None, None, 1, 2, -1, -2, 3])
    return {'sl': [a, b, c]}


def _index_key(g, shp, adv):
    nd = len(shp)
    t = g.weighted([(40, 'tuple'), (25, 'single'), (8 if adv else 0, 'mask'), (7 if adv else 0, 'ix2'),
                    (8, 'ell'), (6, 'new'), (6 if adv else 0, 'pair')])
    if t == 'mask':
        n = size_of(shp)
        m = [g.int(0, 1) for _ in range(n)] if n <= 16 else list(np.random.RandomState(g.int(0, 9999)).randint(0, 2, n))
        m = [bool(x) for x in m]
        if not any(m):
            m[g.int(0, n - 1)] = True
        return {'mask': m, 'sh': list(shp)}
    if t == 'ix2':
        n = shp[0]
        r, c = g.int(1, 2), g.int(1, 3)
        return {'ix': [g.int(-n, n - 1) for _ in range(r * c)], 'sh': [r, c]}
    if t == 'pair' and nd >= 2:
        k = g.int(1, 4)
        return [{'ix': [g.int(-n, n - 1) for _ in range(k)], 'sh': [k]} for n in shp[:2]]
    if t == 'single' or nd == 0:
        return _axis_key(g, shp[0], adv)
    if t == 'ell':
        return ['...', _axis_key(g, shp[-1], False)] if g.chance(50) else [_axis_key(g, shp[0], False), '...']
    if t == 'new':
        k = [_axis_key(g, n, False) for n in shp[:g.int(0, nd)]]
        k.insert(g.int(0, len(k)), 'new')
        return k
    used_adv = False
    out = []
    for n in shp[:g.int(1, nd)]:
        a = _axis_key(g, n, adv and not used_adv)
        used_adv = used_adv or (isinstance(a, dict) and 'ix' in a)
        out.append(a)
    return out


class Dag(object):
    """Builds a graph spec by construction; every node's real value is tracked so that each
    operation is only applied inside its domain.

    mode 'deriv': stay away from kinks, poles, ties where the op is not differentiable.
    mode 'value': anything NumPy defines (ties, special values)."""

    MAXABS = 200.0
    empty = False

    def __init__(self, g, mode='deriv', max_size=24, max_ndim=3, vkind=None):
        self.g, self.mode, self.max_size, self.max_ndim, self.vkind = g, mode, max_size, max_ndim, vkind
        self.nodes, self.vals, self.ch = [], [], []

    # -- primitive node creation
    def _push(self, node, val, is_ch):
        self.nodes.append(node)
        self.vals.append(val)
        self.ch.append(is_ch)
        return len(self.nodes) - 1

    def leaf(self, shp=None, kind=None, val=None):
        g = self.g
        if val is None:
            shp = shape(g, self.max_size, self.max_ndim) if shp is None else shp
            val = values(g, shp, kind or self.vkind)
        node = {'o': 'leaf', 'v': ops.enc(val)}
        if g.chance(25):
            node['via'] = g.pick(['array', 'list', 'F', 'strided', 'int', 'f32', 'kw', 'scalar', 'asarray'])
        return self._push(node, np.atleast_1d(val), True)

    def const(self, shp=None, kind=None, val=None):
        g = self.g
        if val is None:
            if shp is None or shp == []:
                val = g.pick([2, 3.0, 0.5, -1.5, 1, -2, 0.25, 4.0, -3])
                return self._push({'o': 'const', 'v': val}, val, False)
            val = values(g, shp, kind or self.vkind)
        return self._push({'o': 'const', 'v': ops.enc(val)}, val, False)

    def chs(self, pred=None):
        return [i for i in range(len(self.nodes)) if self.ch[i] and (pred is None or pred(self.vals[i]))]

    def any_ch(self, pred=None):
        c = self.chs(pred)
        if not c:
            return None
        # favour recent nodes so that graphs become deep, but allow sharing
        if self.g.chance(55):
            return c[-1 - self.g.int(0, min(2, len(c) - 1))]
        return self.g.pick(c)

    def ok(self, v):
        v = np.asarray(v)
        if (v.size == 0 and not self.empty) or v.size > max(self.max_size * 4, 40) or v.ndim > 5:
            return False
        if self.mode == 'deriv':
            return bool(np.all(np.isfinite(v))) and float(np.max(np.abs(v), initial=0.0)) <= self.MAXABS
        return True

    def apply(self, o, a, p=None):
        """Push op node if its value is acceptable, else return None."""
        if any(i is None for i in a):
            return None
        p = p or {}
        with np.errstate(all='ignore'):
            try:
                v = np.atleast_1d(ops.OPS[o].ref([self.vals[i] for i in a], p))
            except ValueError:
                return None      # e.g. three operands that only broadcast pairwise
        v = np.asarray(v, dtype=np.float64)
        if not self.ok(v):
            return None
        n = {'o': o, 'a': list(a)}
        if p:
            n['p'] = p
        return self._push(n, v, True)

    # -- operand helpers
    def operand_for(self, shp, raw_ok=True, kind=None):
        """A node broadcast-compatible with shp: existing, fresh leaf, constant or scalar."""
        g = self.g
        c = self.chs(lambda v: self._bc(v.shape, tuple(shp)))
        if c and g.chance(55):
            return g.pick(c)
        s = list(shp)
        if g.chance(45):
            s = [1 if g.chance(35) else k for k in s]
            s = s[g.int(0, len(s)):] if g.chance(40) else s
        elif g.chance(20) and len(s) < self.max_ndim and size_of(s) * 2 <= self.max_size:
            s = [2] + s
        if raw_ok and g.chance(35):
            return self.const(s if s and not g.chance(40) else None, kind)
        return self.leaf(s if s else [1], kind)

    def _bc(self, s, t):
        try:
            r = np.broadcast_shapes(s, t)
        except ValueError:
            return False
        return size_of(r) <= self.max_size * 2

    def _axis(self, nd, none_pct=30):
        if self.g.chance(none_pct):
            return None
        return self.g.int(-nd, nd - 1)

    # -- op generators: each returns a node index or None when not applicable
    def op_unary(self):
        g = self.g
        o = g.pick(['sin', 'cos', 'exp', 'log', 'tan', 'arcsin', 'arccos', 'arctan', 'sqrt', 'square', 'absolute',
                    'negative', 'reciprocal', 'nan_to_num'])
        i = self.any_ch()
        if i is None:
            return None
        v = self.vals[i]
        p = {}
        if o in ('negative', 'absolute') and g.chance(50):
            p['via'] = 'op'
            if o == 'negative' and g.chance(20):
                p['plus'] = 1
        elif o == 'absolute' and g.chance(30):
            p['via'] = 'alias'
        elif g.chance(15):
            p['via'] = 'kw'
        if self.mode == 'deriv':
            i = self._adapt(o, i)
            if i is None:
                return None
        return self.apply(o, [i], p)

    def _adapt(self, o, i):
        """Insert nodes making node i's value lie safely inside o's domain."""
        v = self.vals[i]
        mn, mx, am = float(v.min()), float(v.max()), float(np.abs(v).min())
        if o in ('log', 'sqrt', 'reciprocal', 'gamma', 'pow') and mn < 0.2:
            if o == 'reciprocal' and am > 0.2:
                return i
            j = self.apply('square', [i])
            if j is None:
                j = self.apply('sin', [i])
                j = self.apply('square', [j])
            k = self._push({'o': 'const', 'v': 0.5}, 0.5, False)
            return self.apply('add', [j, k], {'via': 'op'})
        if o in ('arcsin', 'arccos') and (mx > 0.9 or mn < -0.9):
            j = self.apply('sin', [i])
            k = self._push({'o': 'const', 'v': 0.75}, 0.75, False)
            return self.apply('multiply', [j, k], {'via': 'op'})
        if o == 'exp' and mx > 4:
            return self.apply('sin', [i])
        if o == 'tan' and float(np.abs(np.cos(v)).min()) < 0.3:
            return self.apply('sin', [i])
        if o == 'absolute' and am < 1e-2:
            return self.apply('exp', [i]) if mx < 4 else self._adapt('log', i)
        return i

    def op_binary(self, names=('add', 'subtract', 'multiply', 'divide', 'power', 'maximum', 'minimum')):
        g = self.g
        o = g.pick(names)
        i = self.any_ch()
        if i is None:
            return None
        if o == 'power':
            return self._power(i)
        if g.chance(14):
            j = i
        else:
            j = self.operand_for(self.vals[i].shape)
        a = [i, j] if g.chance(50) else [j, i]
        if o == 'divide' and self.mode == 'deriv':
            d = np.asarray(self.vals[a[1]], float)
            if np.abs(d).min() < 0.2:
                if not self.ch[a[1]]:
                    return None
                same = a[0] == a[1]
                k = self._adapt('reciprocal', a[1])
                if k is None:
                    return None
                a = [k, k] if same else [a[0], k]
        if o in ('maximum', 'minimum') and self.mode == 'deriv' and a[0] != a[1]:
            x, y = np.broadcast_arrays(self.vals[a[0]], self.vals[a[1]])
            if np.min(np.abs(x - y)) < 1e-2:
                return None
        p = {}
        if o not in ('maximum', 'minimum'):
            p = {'via': g.pick(['op', 'op', 'op', 'fn', 'kw'])}
        elif g.chance(20):
            p = {'via': 'kw'}
        return self.apply(o, a, p)

    def _power(self, i):
        g = self.g
        t = g.pick(['int', 'frac', 'tensor', 'self', 'base'])
        via = {'via': g.pick(['op', 'op', 'fn', 'kw'])}
        if self.mode == 'value' and g.chance(40):
            # any base with any exponent (not a number for negative bases, infinite results are not compared)
            j = i if g.chance(10) else self.operand_for(self.vals[i].shape)
            return self.apply('power', [i, j] if g.chance(50) else [j, i], via)
        if t == 'int':
            e = g.pick([2, 3, 2.0, 3.0, 1.0, 4.0, 0.0, -1.0, -2.0])
            if e <= 0 and (np.abs(self.vals[i]).min() < 0.3 if self.mode == 'deriv' else (self.vals[i] == 0).any()):
                e = 2.0
            if not np.all(np.isfinite(self.vals[i])):
                return None
            k = self._push({'o': 'const', 'v': e}, e, False)
            return self.apply('power', [i, k], via)
        i = self._adapt('pow', i) if self.mode == 'deriv' or (self.vals[i] <= 0).any() else i
        if i is None or not np.all(np.isfinite(self.vals[i])) or self.vals[i].max() > 40 or self.vals[i].min() <= 0:
            return None
        if t == 'frac':
            k = self.const(val=None)
            return self.apply('power', [i, k], via)
        if t == 'self':
            if self.vals[i].max() > 3.5:
                return None
            return self.apply('power', [i, i], via)
        if t == 'base':
            k = self._push({'o': 'const', 'v': 1.5}, 1.5, False)
            if self.vals[i].max() > 12:
                return None
            return self.apply('power', [k, i], via)
        j = self.operand_for(self.vals[i].shape)
        if not np.all(np.isfinite(self.vals[j])) or np.max(np.abs(self.vals[j])) > 6:
            return None
        return self.apply('power', [i, j], via)

    def op_reduce(self):
        g = self.g
        o = g.weighted([(5, 'sum'), (5, 'mean'), (2, 'amax'), (2, 'amin'), (1, 'max'), (1, 'min'), (1, 'nanmax'), (1, 'nanmin'),
                        (2, 'cumsum'), (2, 'SumOfSquares'), (1, 'norm')])
        i = self.any_ch()
        if i is None:
            return None
        v = self.vals[i]
        p = {}
        if o in ('SumOfSquares', 'norm'):
            if o == 'norm' and (not np.all(np.isfinite(v)) or (self.mode == 'deriv' and np.sum(v * v) < 0.05)):
                return None
            return self.apply(o, [i])
        ax = self._axis(v.ndim)
        if o == 'cumsum' and self.mode == 'deriv':
            ax = None
        p = {'axis': ax, 'via': g.pick(['fn', 'op', 'pos'])}
        if o in ('nanmax', 'nanmin'):
            p['via'] = g.pick(['fn', 'pos'])
            if np.isnan(v).any():
                return None
        if ax is None and g.chance(50):
            p['bare'] = 1
        if o in ('amax', 'amin', 'max', 'min', 'nanmax', 'nanmin') and self.mode == 'deriv' and not self._sep(v, ax, o):
            return None
        return self.apply(o, [i], p)

    def _sep(self, v, ax, o):
        x = v.ravel()[None, :] if ax is None else np.moveaxis(v, ax, -1).reshape(-1, v.shape[ax])
        if x.shape[1] < 2:
            return True
        s = np.sort(x, axis=1)
        gap = (s[:, -1] - s[:, -2]) if 'max' in o else (s[:, 1] - s[:, 0])
        return bool(gap.min() > 1e-2)

    def op_clip(self):
        g = self.g
        i = self.any_ch()
        if i is None:
            return None
        v = self.vals[i]
        if g.chance(45):
            s = list(v.shape)
            q = {}
            for k, c in (('lo', [-1.03, -0.51, -3.01]), ('hi', [0.57, 1.11, 2.17])):
                if g.chance(25):
                    q[k] = None
                    continue
                t = [x if g.chance(60) else 1 for x in s[g.int(0, len(s) - 1):]]
                if g.chance(12) and v.size < self.max_size:
                    t = [2] + s
                q[k] = ops.enc(np.array([g.pick(c) for _ in range(size_of(t))]).reshape(t))
            if q['lo'] is None and q['hi'] is None:
                return None
            q['kw'] = int(g.chance(30))
            if self.mode == 'deriv' and min([np.abs(v - ops.dec(b)).min() for b in (q['lo'], q['hi']) if b is not None]) < 1e-3:
                return None
            return self.apply('clipx', [i], q)
        lo = g.pick([-1.03, -0.51, 0.07, -3.01])
        hi = lo + g.pick([0.52, 1.11, 2.17, 9.3])
        if self.mode == 'deriv' and min(np.abs(v - lo).min(), np.abs(v - hi).min()) < 1e-3:
            return None
        return self.apply('clip', [i], {'lo': lo, 'hi': hi})

    def op_dot(self):
        g = self.g
        i = self.any_ch(lambda v: v.ndim <= 3)
        if i is None:
            return None
        v = self.vals[i]
        if g.chance(50):     # v on the left
            n = v.shape[-1]
            if g.chance(10) and v.ndim == 2 and v.shape[0] == v.shape[1]:
                return self.apply('dot', [i, i], {'via': g.pick(['op', 'fn'])})
            c = self.chs(lambda w: w.ndim <= 2 and (w.shape[0] == n if w.ndim == 1 else w.shape[-2] == n))
            t = g.pick(['old', 'vec', 'mat', 'mat', 'cube'])
            if t == 'old' and c:
                j = g.pick(c)
            else:
                s = {'vec': [n], 'cube': [2, n, 2]}.get(t, [n, g.int(1, 3)])
                if t == 'cube' and v.ndim > 2:
                    s = [n, 2]
                j = self.const(s) if g.chance(25) else self.leaf(s)
            a = [i, j]
        else:
            if v.ndim > 2:
                return None
            n = v.shape[0] if v.ndim == 1 else v.shape[-2]
            t = g.pick(['vec', 'mat', 'mat', 'cube'])
            s = {'vec': [n], 'cube': [2, 2, n]}.get(t, [g.int(1, 3), n])
            j = self.const(s) if g.chance(25) else self.leaf(s)
            a = [j, i]
        via = 'op' if self.ch[a[0]] and g.chance(50) else 'fn'
        return self.apply('dot', a, {'via': via})

    def op_tensordot(self):
        g = self.g
        i = self.any_ch(lambda v: v.ndim <= 3)
        if i is None:
            return None
        v = self.vals[i]
        nd = v.ndim
        k = g.int(0, min(2, nd))
        ax = g.perm(nd)[:k]
        other = g.int(0, 1)
        s = [v.shape[a] for a in ax]
        extra = [g.int(1, 3) for _ in range(other)] if k else [2]
        order = g.perm(len(s) + len(extra))
        full = s + extra
        s2 = [full[o] for o in order]
        axb = [order.index(m) for m in range(k)]
        if size_of(s2) > 40:
            return None
        j = self.const(s2) if g.chance(25) else self.leaf(s2)
        axes = [[a - nd if g.chance(20) else a for a in ax], [b - len(s2) if g.chance(20) else b for b in axb]]
        if k == 1 and g.chance(20):
            axes = [axes[0][0], axes[1][0]]
        if g.chance(35):
            # integer form: last k axes of a, first k of b
            s2 = list(v.shape[nd - k:]) + extra
            if size_of(s2) > 40:
                return None
            j = self.leaf(s2)
            axes = k
        if k == 0 and not isinstance(axes, int):
            axes = 0
        return self.apply('tensordot', [i, j], {'axes': axes})

    def op_cross(self):
        g = self.g
        i = self.any_ch(lambda v: v.ndim <= 3 and v.shape[-1] == 3)
        if i is None:
            i = self.leaf(g.pick([[3], [1, 3], [2, 3], [3, 3], [2, 2, 3]]))
        if g.chance(12):
            j = i
        else:
            c = self.chs(lambda w: w.shape == self.vals[i].shape)
            s = list(self.vals[i].shape)
            if g.chance(30):
                s = g.pick([[3], [1, 3], [2, 1, 3]])
                if not self._bc(tuple(s), self.vals[i].shape):
                    s = [3]
            j = g.pick(c) if c and g.chance(50) else (self.leaf(s) if g.chance(70) else self.const(s))
        a = [i, j] if g.chance(50) else [j, i]
        if self.vals[i].ndim > 1 and g.chance(25):
            return self.apply('cross', a, {'axisc': g.int(-self.vals[i].ndim, self.vals[i].ndim - 1)} if self.vals[i].ndim >= self.vals[j].ndim else {})
        return self.apply('cross', a)

    def op_cross_axes(self):
        """Vectors along any axis, of two or three elements."""
        g = self.g
        nd = g.int(1, 3)
        lead = [g.int(1, 3) for _ in range(nd - 1)]
        i = self.any_ch(lambda v: v.ndim <= 3 and any(d in (2, 3) for d in v.shape))
        if i is not None and g.chance(60):
            s = list(self.vals[i].shape)
            ka = g.pick([k for k in range(len(s)) if s[k] in (2, 3)])
            lead = s[:ka] + s[ka + 1:]
            nd = len(s)
        else:
            ka = g.int(0, nd - 1)
            i = self.leaf(lead[:ka] + [g.pick([2, 3])] + lead[ka:])
        w = self.vals[i].shape[ka] if g.chance(75) else g.pick([2, 3])
        lb = [x if g.chance(80) else 1 for x in lead]
        if g.chance(25):
            lb = lb[g.int(0, len(lb)):]
        kb = g.int(0, len(lb))
        both2 = w == 2 and self.vals[i].shape[ka] == 2
        p = {}
        if kb == ka and len(lb) == len(lead) and g.chance(40):
            p = {'axis': ka if g.chance(60) else ka - nd}
        else:
            p = {'axisa': ka if g.chance(60) else ka - nd, 'axisb': kb if g.chance(60) else kb - len(lb) - 1}
            if g.chance(40) and not both2:
                p['axisc'] = g.int(-nd, nd - 1)
        s = lb[:kb] + [w] + lb[kb:]
        c = self.chs(lambda v: list(v.shape) == s)
        j = g.pick(c) if c and g.chance(60) else (self.leaf(s) if g.chance(80) else self.const(s))
        if g.chance(50):
            i, j = j, i
            if 'axisa' in p:
                p['axisa'], p['axisb'] = p['axisb'], p['axisa']
        return self.apply('cross', [i, j], p)

    def op_matvec(self):
        g = self.g
        i = self.any_ch(lambda v: v.size <= 8)
        if i is None:
            return None
        v = self.vals[i]
        rows = g.int(1, 4)
        if v.ndim > 1 and v.shape[1] > 1:
            rows = v.shape[1] * g.int(1, 2)
        if not np.all(np.isfinite(v)):
            return None
        m = values(g, [rows, v.size], 'generic')
        if g.chance(40):
            m = np.where(np.abs(m) < 0.8, 0.0, m)
        return self.apply('MatVecMult', [i], {'m': ops.enc(m), 'sparse': int(g.chance(50))})

    def op_linalg(self):
        g = self.g
        o = g.pick(['inv', 'det', 'logabsdet', 'pinv', 'inv3', 'lstsq', 'lstsq_res'])
        n = g.int(1, 3)
        if o in ('inv', 'det', 'logabsdet'):
            i = self.any_ch(lambda v: v.ndim == 2 and v.shape[0] == v.shape[1] and v.shape[0] <= 3)
            if i is None or g.chance(30):
                i = self.leaf([n, n])
            n = self.vals[i].shape[0]
            k = self.const(val=np.eye(n) * (2.0 + np.ceil(np.abs(self.vals[i]).sum(axis=1).max())) * g.pick([1, -1]))
            i = self.apply('add', [i, k], {'via': 'op'})
            if i is None:
                return None
            if o == 'det' and abs(np.linalg.det(self.vals[i])) > 150:
                o = 'logabsdet'
            return self.apply(o, [i])
        if o == 'inv3':
            b = g.int(1, 3)
            v = values(g, [b, n, n], 'generic') + 4.0 * np.eye(n)
            return self.apply('inv', [self.leaf(val=v)])
        m = n + g.int(0, 2)
        base = np.eye(m)[:, :n] * 3.0
        wide = g.chance(40)
        v = values(g, [m, n], 'generic') * 0.4 + base
        i = self.leaf(val=v.T.copy() if wide else v)
        if o == 'pinv':
            return self.apply('pinv', [i])
        rows = self.vals[i].shape[0]
        j = self.leaf([rows] if g.chance(50) else [rows, g.int(1, 2)])
        if o == 'lstsq_res' and wide:
            o = 'lstsq'
        return self.apply(o, [i, j])

    def op_extras(self):
        g = self.g
        i = self.any_ch()
        if i is None:
            return None
        if g.chance(40):
            i = self._adapt('gamma', i) if self.vals[i].min() < 0.2 else i
            if i is None or self.vals[i].max() > 5:
                return None
            return self.apply('gamma', [i])
        v = self.vals[i]
        return self.apply('moment', [i], {'k': g.pick([2, 3, 4]), 'axis': g.int(-v.ndim, v.ndim - 1)})

    def op_nandiv(self):
        i = self.any_ch()
        if i is None:
            return None
        j = self.operand_for(self.vals[i].shape)
        d = np.asarray(self.vals[j], float)
        if self.mode == 'deriv' and np.any((np.abs(d) < 0.2)):
            return None
        if not np.all(np.isfinite(d)) or not np.all(np.isfinite(self.vals[i])):
            return None
        return self.apply('NanDivide', [i, j])

    def op_nodrv(self):
        """Ops without a derivative, used as masks."""
        g = self.g
        i = self.any_ch()
        if i is None:
            return None
        v = self.vals[i]
        o = g.pick(['greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal', 'floor', 'ceil', 'sign', 'logic'])
        if o == 'logic':
            o = g.pick(['all', 'any', 'isfinite', 'isinf', 'isnan', 'isneginf', 'isposinf', 'logical_not'])
            if self.mode == 'deriv' and o in ('all', 'any', 'logical_not') and np.min(np.abs(v)) < 1e-3:
                return None
            p = {'axis': self._axis(v.ndim)} if o in ('all', 'any') else {}
            return self.apply(o, [i], p)
        if o in ('floor', 'ceil', 'sign'):
            if self.mode == 'deriv' and np.min(np.abs(v - np.round(v))) < 1e-3:
                return None
            return self.apply(o, [i], {'via': g.pick(['fn', 'op'])})
        j = self.operand_for(v.shape)
        if self.mode == 'deriv':
            x, y = np.broadcast_arrays(v, self.vals[j])
            if np.min(np.abs(x - y)) < 1e-3:
                return None
        # raw left operand + operator spelling would need reflected comparison; keep Ch on the left
        return self.apply(o, [i, j], {'via': g.pick(['op', 'fn'])})

    def op_mask(self):
        """where-like product x * (x > c)."""
        i = self.any_ch()
        m = self.op_nodrv()
        if i is None or m is None or not self._bc(self.vals[i].shape, self.vals[m].shape):
            return None
        return self.apply('multiply', [i, m], {'via': 'op'})

    def op_reorder(self, names=None):
        g = self.g
        o = g.pick(names or ['reshape', 'transpose', 'rollaxis', 'swapaxes', 'tile', 'repeat', 'roll', 'rot90', 'diag', 'diagflat',
                             'sort', 'squeeze', 'expand_dims', 'fliplr', 'flipud', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'getitem', 'getitem'])
        i = self.any_ch()
        if i is None:
            return None
        v = self.vals[i]
        p = self.reorder_params(o, v)
        if p is None:
            return None
        return self.apply(o, [i], p)

    def reorder_params(self, o, v):
        g = self.g
        nd = v.ndim
        if o == 'reshape':
            if g.chance(20):
                return {'shape': [-1], 'via': g.pick(['ravel', 'fravel', 'meth', 'fn'])}
            s = reshape_of(g, v.size)
            if g.chance(40):
                s[g.int(0, len(s) - 1)] = -1
            return {'shape': s, 'via': g.pick(['meth', 'fn'] + (['star'] if len(s) > 1 else []))}
        if o == 'transpose':
            if g.chance(45):
                return {'axes': None, 'via': g.pick(['T', 'meth', 'fn'])}
            return {'axes': g.perm(nd), 'via': g.pick(['meth', 'fn'] + (['star'] if nd > 1 else []))}
        if o == 'rollaxis':
            p = {'axis': g.int(-nd, nd - 1)}
            if g.chance(60):
                p['start'] = g.int(-nd, nd)
            return p
        if o == 'swapaxes':
            return {'x': g.int(-nd, nd - 1), 'y': g.int(-nd, nd - 1)}
        if o == 'tile':
            r = [g.int(1, 3) for _ in range(g.int(1, nd + 1))]
            if size_of(r) * v.size > self.max_size * 3:
                r = [2]
            if g.chance(25):
                return {'reps': r[0]}
            return {'reps': r, 'arr': int(g.chance(20))}
        if o == 'repeat':
            return {'n': g.int(1, 3), 'axis': self._axis(nd)}
        if o == 'roll':
            return {'n': g.int(-4, 4), 'axis': self._axis(nd), 'lst': g.pick([0, 0, 0, 1, 2])}
        if o == 'rot90':
            return {'k': g.int(-2, 4)} if nd >= 2 else None
        if o == 'diag':
            if nd == 1:
                return {'k': g.int(-2, 2)} if v.size <= 4 else None
            if nd == 2:
                return {'k': g.int(-(v.shape[0] - 1), v.shape[1] - 1)}
            return None
        if o == 'diagflat':
            return {'k': g.int(-1, 1)} if v.size <= 5 else None
        if o == 'sort':
            ax = g.int(-nd, nd - 1) if not g.chance(15) else None
            if self.mode == 'deriv':
                x = v.reshape(1, -1) if ax is None else np.moveaxis(v, ax, -1).reshape(-1, v.shape[ax])
                if x.shape[1] > 1 and np.diff(np.sort(x, axis=1), axis=1).min() < 1e-2:
                    return None
            return {'axis': ax}
        if o == 'squeeze':
            ones = [k for k in range(nd) if v.shape[k] == 1]
            return {'axis': g.pick(ones) if ones and g.chance(50) else None, 'via': g.pick(['op', 'fn'])}
        if o == 'expand_dims':
            return {'axis': g.int(-nd - 1, nd)} if nd < 4 else None
        if o == 'fliplr':
            return {} if nd >= 2 else None
        if o == 'atleast_3d' and nd > 3:
            return None
        if o == 'getitem':
            return {'key': index_key(g, list(v.shape))}
        return {}

    def op_stack(self, names=None):
        g = self.g
        o = g.pick(names or ['concatenate', 'concatenate', 'concatenate', 'hstack', 'vstack', 'dstack', 'concatflat'])
        i = self.any_ch(lambda v: v.ndim <= 3)
        if i is None:
            return None
        v = self.vals[i]
        if o == 'concatflat':
            args = [i]
            for _ in range(g.int(1, 2)):
                j = self.any_ch(lambda w: w.size <= self.max_size)
                args.append(self.const(shape(g, 6, 2)) if j is None or g.chance(20) else j)
            return self.apply(o, [args[m] for m in g.perm(len(args))])
        if o == 'hstack' and v.ndim == 1:
            ax = 0
        elif o == 'concatenate':
            ax = g.int(-v.ndim, v.ndim - 1)
        else:
            ax = {'hstack': 1, 'vstack': 0, 'dstack': 2}[o]
        k = g.int(1, 3)
        args = [i]
        for _ in range(k):
            if g.chance(15):
                args.append(i)
                continue
            s = list(v.shape)
            if o == 'concatenate' or (o == 'hstack') or (o == 'vstack' and v.ndim > 1) or (o == 'dstack' and v.ndim == 3):
                s[ax] = g.int(1, 3)
            c = self.chs(lambda w: list(w.shape) == s)
            if c and g.chance(50):
                args.append(g.pick(c))
            else:
                args.append(self.const(s) if g.chance(20) else self.leaf(s))
        if g.chance(30):
            args = [args[m] for m in g.perm(len(args))]
        if not any(self.ch[a] for a in args):
            return None
        p = {}
        if o == 'concatenate':
            p = {'axis': ax, 'tup': int(g.chance(40))}
            if ax == 0 and g.chance(40):
                p = {}
        return self.apply(o, args, p)

    def op_lambda(self):
        g = self.g
        f = g.pick(['mul_sin', 'sub_sq', 'tri', 'one', 'swap', 'ident', 'unused'])
        names = ops.LAMBDAS[f][0]
        i = self.any_ch()
        if i is None:
            return None
        args = [i]
        for _ in names[1:]:
            c = self.chs(lambda v: self._bc(v.shape, self.vals[i].shape))
            args.append(g.pick(c) if c and g.chance(60) else self.leaf(list(self.vals[i].shape)))
        if len(set(args)) == 1 and len(args) > 1 and not g.chance(30):
            args[-1] = self.leaf(list(self.vals[i].shape))
        return self.apply('lambda', args, {'f': f, 'via': g.pick(['init', 'late', 'call'])})

    DERIV_OPS = [(20, 'op_unary'), (26, 'op_binary'), (13, 'op_reduce'), (3, 'op_clip'), (8, 'op_dot'), (4, 'op_tensordot'),
                 (3, 'op_cross'), (2, 'op_cross_axes'), (2, 'op_matvec'), (4, 'op_linalg'), (2, 'op_extras'), (3, 'op_nandiv'), (4, 'op_mask'),
                 (16, 'op_reorder'), (8, 'op_stack'), (3, 'op_lambda')]
    VALUE_OPS = [(20, 'op_unary'), (26, 'op_binary'), (14, 'op_reduce'), (4, 'op_clip'), (8, 'op_dot'), (4, 'op_tensordot'),
                 (3, 'op_cross'), (2, 'op_cross_axes'), (2, 'op_matvec'), (2, 'op_nandiv'), (10, 'op_nodrv'), (6, 'op_mask'),
                 (4, 'op_reorder'), (3, 'op_stack')]

    def grow(self, n_ops, table):
        made = []
        for _ in range(n_ops):
            for _try in range(4):
                name = self.g.weighted(table)
                r = getattr(self, name)()
                if r is not None:
                    made.append(r)
                    break
        return made


def gen_empty(g):
    """A graph in which some part has no elements."""
    d = Dag(g, 'deriv', 12, 3, 'generic')
    d.empty = True
    made = []
    for _ in range(g.int(1, 2)):
        s = shape(g, 12, 3)
        k = g.int(0, len(s) - 1)
        if g.chance(40):
            s[k] = 0
            made.append(d.leaf(s))
            continue
        i = d.leaf(s)
        if g.chance(30):
            key = {'mask': [0] * size_of(s), 'sh': s}
        else:
            key = [{'sl': [None, None, None]}] * k + [{'sl': g.pick([[0, 0, None], [None, 0, None], [s[k], None, None]])}]
        made.append(d.apply('getitem', [i], {'key': key}))
    for _ in range(g.int(1, 4)):
        i = g.pick(made) if g.chance(80) else g.pick(d.chs())
        v = d.vals[i]
        k = g.int(0, 9)
        r = None
        if k <= 2:
            r = d.apply(g.pick(['sin', 'cos', 'exp', 'square', 'arctan', 'negative', 'absolute', 'sqrt', 'reciprocal', 'log', 'nan_to_num', 'tan']), [i])
            if r is not None and v.size:
                d.nodes.pop(), d.vals.pop(), d.ch.pop()
                r = None
        elif k <= 5:
            c = [j for j in d.chs(lambda w: d._bc(w.shape, v.shape)) if j != i] or [i]
            j = g.pick(c) if g.chance(70) else d.const([])
            a = [i, j] if g.chance(50) else [j, i]
            if v.size == 0 or d.vals[j] is None:
                r = d.apply(g.pick(['add', 'subtract', 'multiply', 'maximum', 'minimum', 'divide', 'power', 'NanDivide']) if v.size == 0 else 'add', a)
        elif k == 6:
            r = d.apply(g.pick(['sum', 'sum', 'SumOfSquares', 'cumsum']), [i])
            if r is not None and d.nodes[r]['o'] == 'sum' and g.chance(60):
                d.nodes.pop(), d.vals.pop(), d.ch.pop()
                r = d.apply('sum', [i], {'axis': g.int(-v.ndim, v.ndim - 1)})
        elif k == 7:
            o = g.pick(['transpose', 'swapaxes', 'roll', 'tile', 'repeat', 'atleast_2d', 'rollaxis', 'sort'])
            r = d.apply(o, [i], d.reorder_params(o, v)) if v.size == 0 and not (o == 'sort') else d.apply('transpose', [i], {'axes': None, 'via': 'T'})
        elif k == 8:
            s = list(v.shape)
            ax = g.int(0, len(s) - 1)
            s[ax] = g.int(0, 2)
            r = d.apply('concatenate', [i, d.leaf(s)] if size_of(s) else [i, i], {'axis': ax, 'tup': 0})
        else:
            if v.ndim == 2:
                r = d.apply('dot', [i, d.leaf([v.shape[1], 2]) if v.shape[1] else d.const([2])] if v.shape[1] else [i, i])
        if r is not None:
            made.append(r)
    return d, made


def reshape_of(g, n):
    s, m = [], n
    for _ in range(g.int(0, 2)):
        d = g.pick([k for k in range(1, m + 1) if m % k == 0])
        s.append(d)
        m //= d
    s.append(m)
    return s


def prune(nodes, outs):
    """Drop nodes not needed by outs; returns (nodes, mapping)."""
    keep = ops.needed(nodes, outs)
    mp = {o: n for n, o in enumerate(keep)}
    new = []
    for o in keep:
        n = dict(nodes[o])
        if 'a' in n:
            n['a'] = [mp[x] for x in n['a']]
        new.append(n)
    return new, mp


def gen_dag(g, mode='deriv', max_ops=8, table=None, max_size=24, max_ndim=3, vkind=None, n_leaves=3, min_ops=1):
    d = Dag(g, mode, max_size, max_ndim, vkind)
    for _ in range(g.int(1, n_leaves)):
        d.leaf()
    made = d.grow(g.int(min_ops, max_ops), table or (Dag.DERIV_OPS if mode == 'deriv' else Dag.VALUE_OPS))
    if not made:
        i = d.apply('sin', [0])
        made = [i if i is not None else d.apply('negative', [0])]
    return d, made


def best_out(g, d, made):
    """A recently made node with many ancestors (mostly), so that pruning keeps a real graph."""
    if g.chance(80):
        cand = made[-4:]
        sizes = [len(ops.needed(d.nodes, [m])) for m in cand]
        return cand[sizes.index(max(sizes))]
    return made[-1]
