"""C23: failures leave no trace."""
from vlib import ops

RULE = ('A graph of library operations and instrumented user-defined operations is driven by a history of queries in which things go wrong: inputs and operands get shapes that do not fit, or contents that are no numbers, assignments are rejected, user-defined operations raise in their value, derivative, '
        'change notification, cached property or validity test at a chosen call, callbacks and residuals raise in the middle of a minimisation. The model is a NumPy program over the current inputs: a query it cannot answer must raise (never return an old answer), a query after a failure must '
        'be answered as if the failure had not happened, and rejected assignments and aborted minimisations must leave other inputs as they were and all expressions consistent with the inputs. Non-trivial: at least one failure that really happened, followed by a query that was answered.')
CASES = {'quick': 6000, 'thorough': 250000}
ASSUMPTIONS = ['derivative queries on expressions without a value may raise or answer, values must raise']

SITES = ['r', 'dr', 'changed', 'prop']


def generate(g, tier):
    from vlib import gen
    n = g.int(1, 3)
    shp = [n] if g.chance(60) else [n, g.int(1, 3)]
    val = lambda s: ops.enc(gen.values(g, s, g.pick(['generic', 'distinct'])))
    objs = [{'k': 'leaf', 'v': val(shp)} for _ in range(g.int(2, 3))]
    nl = len(objs)
    same = list(range(nl))
    nops = 0
    for _ in range(g.int(2, 7)):
        k = g.weighted([(30, 'op' if nops < 3 else 'un'), (20, 'un'), (25, 'bin'), (8, 'sum'), (6, 'dot'), (8, 'cat'), (6, 'T'), (4, 'lam')])
        a, b = g.pick(same), g.pick(same)
        anyo = g.int(0, len(objs) - 1)
        if k == 'op':
            objs.append({'k': k, 'a': a, 'b': b, 'p': g.pick([1.0, 0.5, -2.0])})
            nops += 1
            same.append(len(objs) - 1)
        elif k == 'un':
            objs.append({'k': k, 'f': g.pick(['sin', 'square', 'arctan']), 'a': a})
            same.append(len(objs) - 1)
        elif k in ('bin', 'lam'):
            objs.append({'k': k, 'f': g.pick(['add', 'mul', 'sub']), 'a': a, 'b': b})
            same.append(len(objs) - 1)
        elif k == 'sum':
            objs.append({'k': k, 'a': anyo, 'x': g.pick([None, 0])})
        elif k == 'dot':
            objs.append({'k': 'dot', 'a': a, 'b': b, 't': int(len(shp) == 2)})
        elif k == 'cat':
            objs.append({'k': 'cat', 'a': a, 'b': b})
        else:
            objs.append({'k': 'T', 'a': anyo})
    if not nops:
        objs.append({'k': 'op', 'a': 0, 'b': 1, 'p': 1.0})
    if g.chance(70):
        objs.append({'k': 'bin', 'f': g.pick(['add', 'mul']), 'a': g.pick([i for i, o in enumerate(objs) if o['k'] == 'op']), 'b': g.pick(same)})
    opsi = [i for i, o in enumerate(objs) if o['k'] == 'op']
    inner = list(range(nl, len(objs)))
    steps = []
    for _ in range(g.int(4, 14)):
        t = g.weighted([(16, 'set'), (14, 'bad'), (10, 'reject'), (8, 'rebind'), (22, 'arm'), (26, 'get'), (26, 'dr'), (5, 'valid'), (5, 'min'), (6, 'param'), (6, 'mend')])
        s = {'t': t}
        if t == 'set':
            s.update(i=g.int(0, nl - 1), v=val(shp))
        elif t == 'bad':
            kind = g.pick(['longer', 'longer', 'one', 'more', 'text'])
            sh = {'longer': [shp[0] + 1] + shp[1:], 'one': [1] * len(shp), 'more': [2] + shp, 'text': shp}[kind]
            s.update(i=g.int(0, nl - 1), v='text' if kind == 'text' else val(sh))
        elif t == 'reject':
            s.update(i=g.int(0, len(objs) - 1), how=g.pick(['index', 'shape', 'expr', 'type', 'expr-target']))
        elif t == 'rebind':
            o = g.pick([i for i in inner if objs[i]['k'] in ('op', 'bin')])
            s.update(i=o, m=g.pick('ab'), to=g.pick([j for j in range(o)] + ['bad']), v=val([shp[0] + 1] + shp[1:]))
        elif t == 'arm':
            s.update(i=g.pick(opsi), site=g.pick(SITES), n=g.weighted([(70, 0), (20, 1), (10, 2)]))
        elif t == 'get':
            s.update(i=g.pick(inner))
        elif t == 'dr':
            s.update(i=g.pick(inner), w=g.int(0, nl - 1), m=g.pick(['fwd', 'fwd', 'rev', 'lop']))
        elif t == 'valid':
            s.update(i=g.pick(opsi), v=g.int(0, 1))
        elif t == 'param':
            s.update(i=g.pick(opsi), v=g.pick([1.0, 0.25, -1.5]))
        elif t == 'min':
            s.update(i=g.pick(inner), w=g.int(0, nl - 1), how=g.pick(['callback', 'op', 'op']), o=g.pick(opsi), site=g.pick(SITES), n=g.int(0, 3), meth=g.pick(['dogleg', 'dogleg', 'BFGS', 'CG']))
        steps.append(s)
    return {'objs': objs, 'steps': steps, 'good': [val(shp) for _ in range(nl)]}


class Fault(Exception):
    pass


CLS = []


def user_class():
    if CLS:
        return CLS[0]
    import numpy as np
    import chumpy as ch

    class FaultyOp(ch.Ch):
        """r = p * a * b"""
        dterms = 'a', 'b'
        terms = 'p', 'ok'

        def site(self, s):
            if getattr(self, 'bomb', None) and self.bomb[0] == s:
                if self.bomb[1] == 0:
                    self.bomb = None
                    self.fired.append(s)
                    raise Fault(s)
                self.bomb = [s, self.bomb[1] - 1]

        def is_valid(self):
            return self.ok, 'not valid'

        def on_changed(self, which):
            self.site('changed')
            if self.a.shape != self.b.shape:
                raise ValueError('shapes differ')
            if 'a' in which:
                self.own = np.array(self.a.r)

        @ch.depends_on('p', 'b')
        def pb(self):
            self.site('prop')
            return self.p * self.b.r

        def compute_r(self):
            self.site('r')
            return self.own * self.pb

        def compute_dr_wrt(self, wrt):
            self.site('dr')
            if wrt is self.a or wrt is self.b:
                d = 0.
                if wrt is self.a:
                    d = d + self.pb
                if wrt is self.b:
                    d = d + self.p * self.own
                return np.diag(d.ravel())
    CLS.append(FaultyOp)
    return FaultyOp


def check(case, ctx):
    import io
    import sys
    import warnings
    old = sys.stdout, sys.stderr
    try:
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()   # the library prints tracebacks
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return run(case, ctx)
    finally:
        sys.stdout, sys.stderr = old


def run(case, ctx):
    import numpy as np
    import scipy.sparse as sp
    import chumpy as ch
    from vlib.util import require, check_value, check_jac, fail, Violation
    Op = user_class()
    objs = [dict(o) for o in case['objs']]
    leafv = {i: np.atleast_1d(ops.dec(o['v'])).astype(float) for i, o in enumerate(objs) if o['k'] == 'leaf'}
    B, fired = {}, []
    for i, o in enumerate(objs):
        a, b = B.get(o.get('a')), B.get(o.get('b'))
        B[i] = {'leaf': lambda: ch.Ch(leafv[i].copy()),
                'op': lambda: Op(a=a, b=b, p=o['p'], ok=True),
                'un': lambda: getattr(ch, o['f'])(a),
                'bin': lambda: {'add': lambda: a + b, 'mul': lambda: a * b, 'sub': lambda: a - b}[o['f']](),
                'lam': lambda: ch.Ch(lambda u, v: {'add': lambda: u + v, 'mul': lambda: u * v, 'sub': lambda: u - v}[o['f']]()),
                'sum': lambda: ch.sum(a, axis=o['x']) if o['x'] is not None else ch.sum(a),
                'dot': lambda: ch.dot(a, b.T) if o['t'] else ch.dot(a, b),
                'cat': lambda: ch.concatenate([a, b]),
                'T': lambda: a.T}[o['k']]()
        if o['k'] == 'op':
            B[i].fired = fired
            B[i].bomb = None
            o['ok'] = True
        if o['k'] == 'lam':
            B[i].u = a
            B[i].v = b
    extra = {}     # operands that came by rebinding to something that does not fit
    opsi = [i for i, o in enumerate(objs) if o['k'] == 'op']

    def ev(i, ov, memo):
        if i in ov:
            return ov[i]
        if i in memo:
            return memo[i]
        if i in extra:
            return extra[i]
        o = objs[i]
        k = o['k']
        if k == 'leaf':
            r = leafv[i]
            if isinstance(r, str):
                raise ValueError('not a number')
        else:
            a = ev(o['a'], ov, memo)
            b = ev(o['b'], ov, memo) if 'b' in o else None
            if k == 'op':
                if not o['ok']:
                    raise ValueError('not valid')
                if a.shape != b.shape:
                    raise ValueError('shapes differ')
                r = o['p'] * a * b
            elif k == 'un':
                r = getattr(np, o['f'])(a)
            elif k in ('bin', 'lam'):
                r = {'add': lambda: a + b, 'mul': lambda: a * b, 'sub': lambda: a - b}[o['f']]()
            elif k == 'sum':
                r = np.atleast_1d(np.sum(a, axis=o['x']))
            elif k == 'dot':
                r = np.atleast_1d(a.dot(b.T) if o['t'] else a.dot(b))
            elif k == 'cat':
                r = np.concatenate([a, b])
            else:
                r = np.array(a.T, order='C')
        memo[i] = r
        return r

    def model(i):
        try:
            r = ev(i, {}, {})
        except Exception:
            return None
        return r

    def jac(i, w):
        n = ev(i, {}, {}).size
        cols = []
        for k in range(leafv[w].size):
            z = np.array(leafv[w], dtype=complex, order='C')
            z.ravel()[k] += 1e-20j
            cols.append(np.imag(np.asarray(ev(i, {w: z}, {}), complex)).ravel() / 1e-20)
        return np.array(cols).T.reshape(n, -1)

    def armed():
        return any(B[i].bomb for i in opsi)

    def big(r):
        return r is not None and not (r.size and float(np.max(np.abs(r))) < 1e6)

    def diff(i, w, m, where):
        x, y = B[w], B[i]
        W = jac(i, w)
        if m == 'lop':
            lhs = np.cos(np.arange(W.shape[0]) + 1.0).reshape(1, -1)
            J = y.lop(x, lhs)
            W = lhs.dot(W)
            if J is not None and not sp.issparse(J) and np.size(J) == 1 and W.size == 1:
                J = np.reshape(np.asarray(J, dtype=np.float64), (1, 1))
        else:
            J = y.dr_wrt(x, reverse_mode=m == 'rev')
        check_jac(J, W, '%s: derivative of object %d wrt input %d [%s]' % (where, i, w, m))

    def higher(i):
        """No derivative comparisons above products whose operands are now stacks of matrices."""
        o = objs[i]
        if o['k'] == 'dot' and max(model(o['a']).ndim, model(o['b']).ndim) > 2:
            return True
        return any(higher(o[m]) for m in ('a', 'b') if m in o and o[m] not in extra)

    failed = answered = False
    for si, s in enumerate(case['steps']):
        t = s['t']
        where = 'step %d (%s)' % (si, t)
        i = s.get('i')
        ctx.label(t)
        if t in ('set', 'bad'):
            if s['v'] == 'text':
                B[i].x = 'text'
                leafv[i] = 'text'
            else:
                v = ops.dec(s['v'])
                B[i].x = v.copy()
                leafv[i] = np.array(v)
        elif t == 'reject':
            y = B[i]
            how = s['how']
            leaf = objs[i]['k'] == 'leaf'
            if isinstance(leafv.get(i), str) or model(i) is None or armed():
                continue
            before = {j: None if isinstance(leafv[j], str) else np.array(B[j].r) for j in leafv}
            size = model(i).size
            try:
                if how == 'index':
                    y[np.array([size + 7])] = 1.0
                elif how == 'shape':
                    y[...] = np.zeros(model(i).shape[:-1] + (model(i).shape[-1] + 2,))
                elif how == 'expr':
                    y[0] = ch.Ch(1.0)
                elif how == 'type':
                    y[...] = 'text'
                else:
                    if leaf or objs[i]['k'] == 'T':
                        continue
                    y[0] = 1.0
                fail('%s: an assignment (%s) that cannot be done was accepted by object %d', where, how, i)
            except Violation:
                raise
            except Exception:
                failed = True
            for j in leafv:
                if before[j] is not None:
                    require(np.array_equal(B[j].r, before[j]), '%s: the rejected assignment changed input %d', where, j)
        elif t == 'rebind':
            if s['to'] == 'bad':
                v = ops.dec(s['v'])
                k = 'x%d' % si
                extra[k] = np.array(v)
                B[k] = ch.Ch(v.copy())
                objs[i][s['m']] = k
            else:
                objs[i][s['m']] = s['to']
            setattr(B[i], s['m'], B[objs[i][s['m']]])
        elif t == 'arm':
            B[i].bomb = [s['site'], s['n']]
        elif t == 'valid':
            B[i].ok = bool(s['v'])
            objs[i]['ok'] = bool(s['v'])
        elif t == 'param':
            B[i].p = s['v']
            objs[i]['p'] = s['v']
        elif t == 'mend':
            for j in opsi:
                B[j].bomb = None
                if not objs[j]['ok']:
                    B[j].ok = objs[j]['ok'] = True
            for j in leafv:
                leafv[j] = np.atleast_1d(ops.dec(case['good'][j])).astype(float)
                B[j].x = leafv[j].copy()
        elif t in ('get', 'dr'):
            want = model(i)
            if big(want) or (t == 'dr' and want is not None and (isinstance(leafv[s['w']], str) or higher(i))):
                continue
            del fired[:]
            try:
                if t == 'get':
                    r = B[i].r
                    if want is None:
                        fail('%s: object %d has no value, but answered %s', where, i, r)
                    check_value(r, want, '%s: value of object %d' % (where, i))
                elif want is None:
                    B[i].dr_wrt(B[s['w']])
                else:
                    diff(i, s['w'], s['m'], where)
                if want is not None:
                    answered = answered or failed
            except Violation:
                raise
            except Exception as e:
                if want is not None and not fired:
                    raise
                failed = True
                ctx.label('failed-' + (fired[0] if fired else 'shape'))
        elif t == 'min':
            w = s['w']
            want = model(i)
            if want is None or big(want) or isinstance(leafv[w], str) or higher(i) or armed() or any(isinstance(v, str) for v in leafv.values()) or not np.any(jac(i, w)) or not np.all(np.isfinite(want)):
                continue
            calls = []

            def cb(*a):
                calls.append(1)
                if s['how'] == 'callback' and len(calls) > s['n']:
                    fired.append('callback')
                    raise Fault('callback')
            del fired[:]
            if s['how'] == 'op':
                B[s['o']].bomb = [s['site'], s['n']]
            try:
                if s['meth'] == 'dogleg':
                    ch.minimize(B[i], [B[w]], method='dogleg', callback=cb, options={'disp': False, 'maxiter': 4})
                else:
                    ch.minimize(ch.SumOfSquares(B[i]), [B[w]], method=s['meth'], callback=cb, options={'maxiter': 4})
            except Fault:
                failed = True
                ctx.label('failed-minimise')
            except Exception as e:
                # the problem itself may be unsuitable (no derivative, singular, not finite)
                pass
            B[s['o']].bomb = None
            for j in leafv:
                if j != w:
                    require(np.array_equal(B[j].r, np.atleast_1d(leafv[j])), '%s: minimising over input %d changed input %d', where, w, j)
            require(B[w].r.shape == np.atleast_1d(leafv[w]).shape, '%s: the free variable has shape %s', where, B[w].r.shape)
            leafv[w] = np.array(B[w].r)
            if not np.all(np.isfinite(leafv[w])) or np.max(np.abs(leafv[w])) > 1e3:
                leafv[w] = np.atleast_1d(ops.dec(case['good'][w])).astype(float)
                B[w].x = leafv[w].copy()
    # everything is made good again: all answers are right
    for j in opsi:
        B[j].bomb = None
        if not objs[j]['ok']:
            B[j].ok = objs[j]['ok'] = True
    for k in [k for k in B if k in extra]:
        for j, o in enumerate(objs):
            for m in ('a', 'b'):
                if o.get(m) == k:
                    o[m] = 0
                    setattr(B[j], m, B[0])
    for j in leafv:
        leafv[j] = np.atleast_1d(ops.dec(case['good'][j])).astype(float)
        B[j].x = leafv[j].copy()
    for i in range(len(objs)):
        if objs[i]['k'] == 'leaf' or model(i) is None or big(model(i)):
            continue
        check_value(B[i].r, ev(i, {}, {}), 'end: value of object %d' % i)
        if not higher(i):
            for w in leafv:
                check_jac(B[i].dr_wrt(B[w]), jac(i, w), 'end: derivative of object %d wrt input %d' % (i, w))
        answered = answered or failed
    return failed and answered
