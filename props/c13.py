"""C13: contract for user-defined operations."""
from vlib import ops

RULE = ('1-3 instrumented user-defined operations (three operands, two parameters, three cached properties; derivatives returned dense, in several sparse formats, as a scalar or as a linear operator) over inputs, expressions and each other, inside further expressions; '
        'a history of 4-14 input changes, operand and parameter assignments, property reads and queries. An event model predicts exactly which names each change notification must list and which recomputations are allowed; values and derivatives are compared with NumPy. '
        'Every seventh case is a family of classes derived from each other, with inherited, redeclared or reordered operands, parameters and cached properties, instantiated with positional and keyword arguments, dropped and defined again under the same names. '
        'About 1 % are classes whose names collide with those of every expression, which must be refused, and 2 % operations that get further operands while they live. '
        'Non-trivial: a change after a query followed by another query (for class families: a derived class with positional arguments, or a change).')
CASES = {'quick': 8000, 'thorough': 300000}
ASSUMPTIONS = ['assigning an operand, parameter or input counts as changing it, also when the new value is equal']

FORMS = ['dense', 'csc', 'csr', 'coo', 'diag', 'lo', 'matrix']


def generate(g, tier):
    if g.chance(15):
        return gen_classes(g)
    if g.chance(1):
        return {'kind': 'reserved', 'names': g.subset(RESERVED, 1)[:3], 'own': g.subset(['a', 'b', 'mtx'], 1), 'n': g.int(0, 1 << 20), 'base': g.int(0, 1), 'times': g.int(1, 3)}
    if g.chance(2):
        return gen_grow(g)
    from vlib import gen
    n = g.weighted([(15, 1), (30, 2), (40, 3), (15, 12)])
    shp = [n] if n == 12 or g.chance(70) else [n, 1]
    objs = []
    for _ in range(g.int(2, 4)):
        objs.append({'k': 'leaf', 'v': ops.enc(gen.values(g, shp, g.pick(['generic', 'distinct'])))})
    nl = len(objs)
    nops = 0
    for _ in range(g.int(1, 6)):
        last = len(objs) - 1
        if (g.chance(45) and nops < 3) or (nops == 0 and _ >= 2):
            objs.append({'k': 'op', 'a': g.int(0, last), 'b': g.int(0, last), 'c': g.int(0, last), 'p': g.pick([1.0, 0.5, -2.0]), 'q': g.pick([1.0, 2.5]),
                         'f': {m: g.pick(FORMS) for m in 'abc'}, 'scalar': g.int(0, 1)})
            nops += 1
        else:
            objs.append({'k': 'mid', 'f': g.pick(['sin', 'scale', 'mul', 'add']), 'a': g.int(0, last), 'b': g.int(0, last)})
    if nops == 0:
        objs.append({'k': 'op', 'a': 0, 'b': 1, 'c': 0, 'p': 1.0, 'q': 2.5, 'f': {'a': 'dense', 'b': 'csc', 'c': 'dense'}, 'scalar': 1})
    opsi = [i for i, o in enumerate(objs) if o['k'] == 'op']
    if g.chance(60):
        objs.append({'k': 'mid', 'f': 'sum3', 'a': g.pick(opsi), 'b': g.int(0, len(objs) - 1)})
    steps = []
    for _ in range(g.int(4, 14)):
        t = g.weighted([(30, 'set'), (14, 'rebind'), (10, 'param'), (8, 'multi'), (25, 'get'), (25, 'dr'), (14, 'prop')])
        if t == 'set':
            l = g.int(0, nl - 1)
            steps.append({'t': t, 'i': l, 'v': ops.enc(gen.values(g, shp, g.pick(['generic', 'distinct']))), 'how': g.pick(['x', 'item', 'elem'])})
        elif t == 'rebind':
            o = g.pick(opsi)
            steps.append({'t': t, 'i': o, 'b': {m: g.int(0, o - 1) for m in g.subset('abc', 1)}, 'how': g.pick(['attr', 'set'])})
        elif t == 'param':
            steps.append({'t': t, 'i': g.pick(opsi), 'b': {m: g.pick([1.0, 0.5, 3.0, -1.5]) for m in g.subset('pq', 1)}, 'how': g.pick(['attr', 'set'])})
        elif t == 'multi':
            o = g.pick(opsi)
            steps.append({'t': t, 'i': o, 'a': g.int(0, o - 1), 'p': g.pick([0.25, 2.0]), 'how': g.pick(['set', 'call'])})
        elif t == 'get':
            steps.append({'t': t, 'i': g.int(nl, len(objs) - 1)})
        elif t == 'dr':
            steps.append({'t': t, 'i': g.int(nl, len(objs) - 1), 'w': g.int(0, nl - 1), 'm': g.pick(['fwd', 'fwd', 'rev', 'lop'])})
        else:
            steps.append({'t': t, 'i': g.pick(opsi), 'n': g.pick(['pab', 'pq', 'pout'])})
    return {'objs': objs, 'steps': steps}


def gen_grow(g):
    """Operations that get further operands while they live."""
    acts = []
    for _ in range(g.int(3, 9)):
        t = g.weighted([(35, 'add'), (20, 'set'), (15, 'rebind'), (20, 'query'), (10, 'prop')])
        acts.append({'t': t, 'o': g.int(0, 1), 'm': g.int(0, 3), 'l': g.int(0, 3), 'v': g.int(-8, 8) / 8.0, 'raw': int(g.chance(15))})
    return {'kind': 'grow', 'acts': acts, 'n': g.int(1, 3), 'wrap': g.int(0, 1)}


def check_grow(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_value, check_jac
    n = case['n']
    log = []
    W = {'a': 1.0, 'b': 2.0, 'c': -3.0, 'd': 0.5}

    class Grow(ch.Ch):
        dterms = 'a',

        def on_changed(self, which):
            log.append((self.tag, set(which)))

        @ch.depends_on('a')
        def twice(self):
            return 2.0 * self.a.r

        def compute_r(self):
            return sum(W[m] * np.sin(getattr(self, m).r) for m in self.dterms)

        def compute_dr_wrt(self, wrt):
            out = [W[m] * np.cos(getattr(self, m).r) for m in self.dterms if getattr(self, m) is wrt]
            return np.diag(sum(out)) if out else None
    leaves = [ch.Ch(np.linspace(-0.5, 0.75, n) + 0.25 * i) for i in range(4)]
    val = [np.array(l.r) for l in leaves]
    objs, binds, pend, tops = [], [], [], []
    for k in range(2):
        y = Grow(a=leaves[k])
        y.tag = k
        objs.append(y)
        binds.append({'a': k})
        pend.append(set('a'))
        tops.append(y * 2.0 + leaves[0] if case['wrap'] else y)

    def raw(b):
        return val[b] if isinstance(b, int) else np.array(b)

    def query(k, where):
        del log[:]
        want = sum(W[m] * np.sin(raw(b)) for m, b in binds[k].items())
        got = np.array(tops[k].r)
        names = set().union(*[w for q, w in log if q == k])
        require(names == pend[k], '%s: operation %d is told about changes of %s, changed are %s', where, k, sorted(names), sorted(pend[k]))
        pend[k] = set()
        check_value(got, want * 2.0 + val[0] if case['wrap'] else want, '%s: value of operation %d with operands %s' % (where, k, sorted(binds[k])))
        for j, x in enumerate(leaves):
            c = [W[m] * np.cos(val[j]) for m, b in binds[k].items() if b == j and isinstance(b, int)]
            J = np.diag(sum(c)) if c else np.zeros((n, n))
            if case['wrap']:
                J = 2.0 * J + (np.eye(n) if j == 0 else 0)
            check_jac(tops[k].dr_wrt(x), J, '%s: derivative of operation %d wrt input %d' % (where, k, j))
        check_value(objs[k].twice, 2.0 * raw(binds[k]['a']), '%s: cached property' % where)

    for ai, a in enumerate(case['acts']):
        k, m = a['o'], 'abcd'[a['m']]
        where = 'step %d (%s)' % (ai, a['t'])
        b = [a['v'] + 0.125 * i for i in range(n)] if a['raw'] else a['l']
        if a['t'] == 'add':
            objs[k].add_dterm(m, np.array(b) if a['raw'] else leaves[b])
        elif a['t'] == 'rebind':
            if m not in binds[k]:
                continue
            setattr(objs[k], m, np.array(b) if a['raw'] else leaves[b])
        elif a['t'] == 'set':
            j = a['l']
            val[j] = val[j] + 0.125 * a['v'] + 0.03125
            leaves[j][:] = val[j]
            for q in range(2):
                pend[q] |= set(w for w, c in binds[q].items() if isinstance(c, int) and c == j)
            continue
        elif a['t'] == 'prop':
            check_value(objs[k].twice, 2.0 * raw(binds[k]['a']), '%s: cached property' % where)
            continue
        else:
            query(k, where)
            continue
        binds[k][m] = b
        pend[k].add(m)
        require(set(objs[k].dterms) == set(binds[k]), '%s: operands of operation %d are %s, expected %s', where, k, objs[k].dterms, sorted(binds[k]))
    require(set(Grow.dterms) == set('a'), 'the operands of the class became %s', Grow.dterms)
    for k in range(2):
        query(k, 'end')
        require(sorted(id(getattr(objs[k], m)) for m in binds[k]) and all(id(q) in [id(e) for e in objs[k].tree_iterator()] for q in [getattr(objs[k], m) for m in binds[k]]), 'an operand is not visited')
    ctx.label('grow')
    return any(len(b) > 1 for b in binds)


RESERVED = ['r', 'T', 'shape', 'size', 'ndim', 'dr_wrt', 'lop', 'set', 'replace', 'compute_r', 'compute_dr_wrt', 'on_changed', 'sum', 'mean', 'dot', 'reshape', 'ravel', 'copy', 'clear_cache', '__len__', 'minimize']


def check_reserved(case, ctx):
    """Names every expression has can't be operands or parameters: refused, naming them."""
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_value
    h = case['n']
    d = [n for i, n in enumerate(case['names'] + case['own']) if (h >> i) & 1]
    t = [n for n in case['names'] + case['own'] if n not in d]
    body = {'compute_r': lambda self: np.zeros(2), 'compute_dr_wrt': lambda self, w: None}
    base = type('Base', (ch.Ch,), dict(body, dterms=['u'])) if case['base'] else ch.Ch
    cls = type('Op', (base,), dict(body, dterms=d, terms=t))
    for k in range(case['times']):
        try:
            cls(*[ch.array([1.0, 2.0]) for _ in d + t])
        except Exception as e:
            require(all(repr(n) in str(e) for n in case['names']), 'a class with the reserved names %s is refused with the error %r, which does not name them', case['names'], str(e))
        else:
            require(False, 'a class with the reserved names %s among its operands %s and parameters %s is accepted', case['names'], d, t)
    good = type('Op', (base,), dict(body, dterms=case['own'], terms=[]))
    check_value(good(*[ch.array([1.0, 2.0]) for _ in case['own']]).r, np.zeros(2), 'value of a well-named operation')
    ctx.label('reserved-names')
    return True


NAMES = ['a', 'b', 'c', 'd', 'e']


def gen_classes(g):
    """A family of user-defined classes, derived from each other, and what is done with them."""
    specs = []
    for k in range(g.int(1, 4)):
        s = {'base': g.int(-1, k - 1) if k and g.chance(75) else -1}
        root = s['base'] < 0
        if root or g.chance(60):
            names = g.shuffled(NAMES)
            nd = g.int(1, 3)
            if root or g.chance(80):
                s['dterms'] = names[:nd]
            if (root and g.chance(60)) or (not root and g.chance(60)):
                s['terms'] = [n + '_p' for n in names[:g.int(0, 2)]]
            if g.chance(30):
                s['order'] = g.int(0, 1 << 20)
                if g.chance(25):
                    s['part'] = g.int(1, 2)     # the last ones can only be given by name
        s['form'] = g.pick(['list', 'tuple', 'str'])
        if g.chance(50):
            s['prop'] = [g.int(0, 7), g.int(0, 7)]
        s['pname'] = g.int(0, 5)
        specs.append(s)
    acts = []
    for _ in range(g.int(2, 8)):
        t = g.weighted([(30, 'make'), (30, 'change'), (10, 'drop'), (12, 'query')])
        acts.append({'t': t, 'c': g.int(0, len(specs) - 1), 'pos': g.int(0, 5), 'n': g.int(0, 9), 'v': g.pick([0.5, -1.25, 2.0])})
    return {'kind': 'classes', 'specs': specs, 'acts': acts, 'n': g.int(1, 3), 'dup': g.int(0, 1), 'early': g.int(0, 1)}


def check_classes(case, ctx):
    import gc
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_value, check_jac
    n = case['n']

    def resolve(k):
        """Declared operands, parameters, and the order of positional arguments (None: not determined)."""
        s = case['specs'][k]
        if s['base'] < 0:
            d, t, o, p = [], [], None, None
        else:
            d, t, o, p = resolve(s['base'])
        old = set(d) | set(t)
        d2, t2 = s.get('dterms', d), s.get('terms', t)
        if 'order' in s:
            o = sorted(d2 + t2, key=lambda x: hash_(x, s['order']))
            o = o[:max(1, len(o) - s.get('part', 0))]
        elif s['base'] < 0 or set(d2) | set(t2) != old:
            o = t2 + d2
        elif 'dterms' in s or 'terms' in s:
            o = None
        p2 = p
        if 'prop' in s:
            al = d2 + t2
            p2 = sorted(set(al[i % len(al)] for i in s['prop']))
        elif p and not set(p) <= set(d2 + t2):
            p2 = False  # an inherited property whose dependencies are gone
        return d2, t2, o, p2

    def root(k):
        while case['specs'][k]['base'] >= 0:
            k = case['specs'][k]['base']
        return k

    def pname(k):
        """Name of the cached property of a family: maybe that of an operand of another family."""
        r = root(k)
        used = set(m for j, s in enumerate(case['specs']) if root(j) == r for m in s.get('dterms', []))
        c = ['cp'] + [m for m in NAMES if m not in used]
        return c[case['specs'][r].get('pname', 0) % len(c)]

    def hash_(x, seed):
        return (sum(ord(c) * (j + 3) for j, c in enumerate(x)) * 2654435761 + seed * 40503) % 1000003

    def form(l, f):
        if f == 'str' and len(l) == 1:
            return l[0]
        return tuple(l) if f == 'tuple' else list(l)

    class Generic(ch.Ch):
        def weights(self):
            w = 1.0
            for i, t in enumerate(sorted(self.terms)):
                w = w * (1.0 + (i + 1) * getattr(self, t))
            return w

        def compute_r(self):
            return sum((i + 1) * np.sin(getattr(self, m).r) for i, m in enumerate(sorted(self.dterms))) * self.weights()

        def compute_dr_wrt(self, wrt):
            out = [(i + 1) * np.cos(getattr(self, m).r) * self.weights() for i, m in enumerate(sorted(self.dterms)) if getattr(self, m) is wrt]
            return np.diag(sum(out)) if out else None

    def define(k, made):
        s = case['specs'][k]
        body = {}
        for key in ('dterms', 'terms'):
            if key in s:
                body[key] = form(s[key], s['form'])
        if 'order' in s:
            body['term_order'] = resolve(k)[2]
        if 'prop' in s:
            deps = resolve(k)[3]

            def cp(self):
                return tuple(np.sum(v.r if hasattr(v, 'r') else v) for v in [getattr(self, m) for m in deps])
            cp.__name__ = pname(k)
            body[pname(k)] = ch.depends_on(*deps)(cp)
        base = Generic if s['base'] < 0 else made[s['base']]
        return type(str('UserClass%d' % (0 if case['dup'] else k)), (base,), body)

    def define_all():
        made = {}
        for k in range(len(case['specs'])):
            made[k] = define(k, made)
        return made
    made = define_all()
    leaves = [ch.Ch(np.linspace(0.2, 0.9, n) + 0.17 * i) for i in range(4)]
    live = []
    derived = changed = False

    def verify(e, where):
        obj, k, vals = e
        d, t, o, p = resolve(k)
        w = 1.0
        for i, m in enumerate(sorted(t)):
            w = w * (1.0 + (i + 1) * vals[m])
        ref = sum((i + 1) * np.sin(leaves[vals[m]].r) for i, m in enumerate(sorted(d))) * w
        check_value(obj.r, ref, '%s: value of an instance of class %d' % (where, k))
        for j, x in enumerate(leaves):
            c = [(i + 1) * np.cos(x.r) * w for i, m in enumerate(sorted(d)) if vals[m] == j]
            J = obj.dr_wrt(x)
            if not c:
                require(J is None, '%s: class %d has a derivative with respect to something that is no operand', where, k)
            else:
                check_jac(J, np.diag(sum(c)), '%s: derivative of an instance of class %d' % (where, k))
        if p:
            want = tuple(float(np.sum(leaves[vals[m]].r)) if m in d else vals[m] for m in p)
            got = getattr(obj, pname(k))
            require(np.allclose(got, want), '%s: cached property of class %d is %s, expected %s', where, k, got, want)

    for ai, a in enumerate(case['acts']):
        where = 'step %d (%s)' % (ai, a['t'])
        k = a['c']
        d, t, o, p = resolve(k)
        if a['t'] == 'make':
            vals = {}
            for i, m in enumerate(d):
                vals[m] = (a['n'] + i) % 4
            for i, m in enumerate(t):
                vals[m] = 0.5 + 0.25 * i + a['v']
            conv = {m: leaves[v] if m in d else v for m, v in vals.items()}
            pos = []
            if o is not None:
                pos = o[:a['pos']]
            obj = made[k](*[conv.pop(m) for m in pos], **conv)
            derived = derived or (case['specs'][k]['base'] >= 0 and len(pos) > 0)
            live.append((obj, k, vals))
            if a['n'] % 3:
                verify(live[-1], where)
        elif a['t'] == 'change' and live:
            obj, k, vals = live[a['n'] % len(live)]
            d, t, o, p = resolve(k)
            m = (d + t)[a['pos'] % len(d + t)]
            changed = True
            if m in d:
                if a['n'] % 2:
                    leaves[vals[m]][:] = leaves[vals[m]].r + 0.01 * a['v']
                else:
                    vals[m] = (vals[m] + 1) % 4
                    setattr(obj, m, leaves[vals[m]])
            else:
                vals[m] = vals[m] + 0.125
                setattr(obj, m, vals[m])
        elif a['t'] == 'drop':
            # the classes go, others with the same names come
            del live[:]
            made = obj = None
            if a['n'] < 2:
                gc.collect()
            made = define_all()
        elif a['t'] == 'query' and live:
            verify(live[a['n'] % len(live)], where)
        ctx.label('class-' + a['t'])
    for e in live:
        verify(e, 'end')
    return derived or (changed and len(live) > 0)


CLS = []
LOG = []


def user_class():
    """Defined once, like a class in user code."""
    if CLS:
        return CLS[0]
    import numpy as np
    import scipy.sparse as sp
    import chumpy as ch
    from scipy.sparse.linalg import LinearOperator

    class UserOp(ch.Ch):
        """r = p * a * b + q * c"""
        dterms = 'a', 'b', 'c'
        terms = 'p', 'q'
        term_order = 'a', 'b', 'c', 'p', 'q'

        def on_changed(self, which):
            LOG.append(('changed', self.tag, frozenset(which)))
            # the usual pattern: refresh what depends on the named operands
            if 'a' in which or 'b' in which or 'p' in which:
                self.own = self.p * self.a.r * self.b.r

        @ch.depends_on('a', 'b')
        def pab(self):
            LOG.append(('prop', self.tag, 'pab'))
            return np.array(self.a.r * self.b.r)

        @ch.depends_on('q')
        def pq(self):
            LOG.append(('prop', self.tag, 'pq'))
            return self.q * 2.0

        @ch.depends_on(['c', 'p'])
        def pout(self, out=None):
            LOG.append(('prop', self.tag, 'pout'))
            LOG.append(('out', self.tag, None if out is None else np.array(out)))
            return self.c.r * self.p

        def compute_r(self):
            LOG.append(('r', self.tag))
            return self.own + self.pq * self.c.r * 0.5 + (self.pab - self.a.r * self.b.r)

        def compute_dr_wrt(self, wrt):
            LOG.append(('dr', self.tag))
            out = []
            n = self.a.size
            for name in 'abc':
                if getattr(self, name) is not wrt:
                    continue
                d = {'a': lambda: self.p * self.b.r, 'b': lambda: self.p * self.a.r, 'c': lambda: np.ones(self.c.shape) * self.q}[name]().ravel()
                out.append((name, d))
            if not out:
                return None
            if len(out) == 1:
                name, d = out[0]
                if name == 'c' and self.scalar:
                    return float(self.q)
                f = self.forms[name]
                if f == 'dense':
                    return np.diag(d)
                if f == 'matrix':
                    return np.asmatrix(np.diag(d))
                if f == 'lo':
                    return LinearOperator((n, n), matvec=lambda x: (d * np.asarray(x).ravel()).reshape(np.shape(x)), dtype=np.float64)
                if f == 'diag':
                    return sp.diags([d], [0])
                return sp.csc_matrix(np.diag(d)).asformat(f)
            return np.diag(sum(d for _, d in out))
    CLS.append(UserOp)
    return UserOp


def check(case, ctx):
    import numpy as np
    import scipy.sparse as sp
    import chumpy as ch
    from vlib.util import require, check_value, check_jac, fail
    if case.get('kind') == 'classes':
        return check_classes(case, ctx)
    if case.get('kind') == 'grow':
        return check_grow(case, ctx)
    if case.get('kind') == 'reserved':
        return check_reserved(case, ctx)
    UserOp = user_class()
    del LOG[:]
    objs = case['objs']
    leafv = {i: np.atleast_1d(ops.dec(o['v'])).astype(float) for i, o in enumerate(objs) if o['k'] == 'leaf'}
    st = {i: dict(o) for i, o in enumerate(objs)}
    B = {}
    for i, o in enumerate(objs):
        if o['k'] == 'leaf':
            B[i] = ch.Ch(leafv[i].copy())
        elif o['k'] == 'mid':
            a, b = B[o['a']], B[o['b']]
            B[i] = {'sin': lambda: ch.sin(a), 'scale': lambda: a * 1.5, 'mul': lambda: a * b, 'add': lambda: a + b, 'sum3': lambda: ch.sum(a) * b + ch.sin(a)}[o['f']]()
        else:
            B[i] = UserOp(a=B[o['a']], b=B[o['b']], c=B[o['c']], p=o['p'], q=o['q'])
            B[i].tag, B[i].forms, B[i].scalar = i, o['f'], o['scalar']
    opsi = [i for i, o in enumerate(objs) if o['k'] == 'op']
    kids = {i: (('a', 'b', 'c') if o['k'] == 'op' else (('a', 'b') if o['k'] == 'mid' and o['f'] in ('mul', 'add', 'sum3') else ('a',) if o['k'] == 'mid' else ())) for i, o in enumerate(objs)}

    def ev(i, ov, memo):
        if i in ov:
            return ov[i]
        if i in memo:
            return memo[i]
        o = st[i]
        if o['k'] == 'leaf':
            r = leafv[i]
        elif o['k'] == 'mid':
            a = ev(o['a'], ov, memo)
            b = ev(o['b'], ov, memo) if len(kids[i]) > 1 else None
            r = {'sin': lambda: np.sin(a), 'scale': lambda: a * 1.5, 'mul': lambda: a * b, 'add': lambda: a + b, 'sum3': lambda: np.sum(a) * b + np.sin(a)}[o['f']]()
        else:
            r = o['p'] * ev(o['a'], ov, memo) * ev(o['b'], ov, memo) + o['q'] * ev(o['c'], ov, memo)
        memo[i] = r
        return r

    def jac(i, w):
        cols = []
        for k in range(leafv[w].size):
            z = np.array(leafv[w], dtype=complex, order='C')
            z.ravel()[k] += 1e-20j
            cols.append(np.imag(np.asarray(ev(i, {w: z}, {}), complex)).ravel() / 1e-20)
        return np.array(cols).T

    # event model
    dirty = {i: set(['a', 'b', 'c', 'p', 'q']) for i in opsi}
    stale = {i: set(['pab', 'pq', 'pout']) for i in opsi}
    rvalid = {i: False for i in opsi}
    drdone = {i: set() for i in opsi}
    lastout = {i: None for i in opsi}
    DEPS = {'pab': ('a', 'b'), 'pq': ('q',), 'pout': ('c', 'p')}

    def above(i):
        """(op, name) pairs reached from a change of object i."""
        hit, todo, out = set([i]), [i], set()
        while todo:
            x = todo.pop()
            for j in st:
                for nm in kids[j]:
                    if st[j][nm] == x:
                        if st[j]['k'] == 'op':
                            out.add((j, nm))
                        if j not in hit:
                            hit.add(j)
                            todo.append(j)
        return out, hit

    def touch(i, names=None):
        out, hit = above(i)
        if names:
            out |= set((i, n) for n in names)
        for j, nm in out:
            dirty[j].add(nm)
            for p in DEPS:
                if nm in DEPS[p]:
                    stale[j].add(p)
        for j in hit:
            if j in rvalid:
                rvalid[j] = False
                drdone[j] = set()

    def flush(where, allow_dr=None):
        """Check the calls received by the user operations against the model."""
        for e in LOG:
            k, i = e[0], e[1]
            if k == 'changed':
                require(len(e[2]) > 0, '%s: operation %d notified of an empty set of changes', where, i)
                require(set(e[2]) == dirty[i], '%s: operation %d was told that %s changed, but %s did', where, i, sorted(e[2]), sorted(dirty[i]))
                dirty[i] = set()
            elif k == 'r':
                require(not dirty[i], '%s: operation %d was asked for its value before being told that %s changed', where, i, sorted(dirty[i]))
                require(not rvalid[i], '%s: operation %d recomputed its value although nothing changed', where, i)
                rvalid[i] = True
            elif k == 'dr':
                require(not dirty[i], '%s: operation %d was asked for a derivative before being told that %s changed', where, i, sorted(dirty[i]))
            elif k == 'prop':
                require(e[2] in stale[i], '%s: cached property %s of operation %d recomputed although none of its dependencies changed', where, e[2], i)
                stale[i].discard(e[2])
            elif k == 'out':
                require((lastout[i] is None) == (e[2] is None) and (e[2] is None or np.array_equal(e[2], lastout[i])), '%s: cached property received %s as its previous value, expected %s', where, e[2], lastout[i])
        del LOG[:]

    def big(i):
        return not float(np.max(np.abs(ev(i, {}, {})))) < 1e5

    queried = changed = nt = False
    for si, s in enumerate(case['steps']):
        where = 'step %d' % si
        i = s['i']
        ctx.label(s['t'])
        if s['t'] in ('set', 'rebind', 'param', 'multi'):
            changed = changed or queried
        if s['t'] == 'set':
            v = ops.dec(s['v'])
            if s['how'] == 'x':
                B[i].x = v.copy()
            elif s['how'] == 'item':
                B[i][...] = v
            else:
                n = leafv[i].copy()
                n[0] = v[0]
                B[i][0] = v[0]
                v = n
            leafv[i] = np.array(v)
            touch(i)
        elif s['t'] == 'rebind':
            for m, j in s['b'].items():
                st[i][m] = j
            if s['how'] == 'attr':
                for m, j in s['b'].items():
                    setattr(B[i], m, B[j])
            else:
                B[i].set(**{m: B[j] for m, j in s['b'].items()})
            touch(i, list(s['b']))
        elif s['t'] == 'param':
            st[i].update(s['b'])
            if s['how'] == 'attr':
                for m, v in s['b'].items():
                    setattr(B[i], m, v)
            else:
                B[i].set(**s['b'])
            touch(i, list(s['b']))
        elif s['t'] == 'multi':
            st[i]['a'], st[i]['p'] = s['a'], s['p']
            touch(i, ['a', 'p'])
            if s['how'] == 'set':
                B[i].set(a=B[s['a']], p=s['p'])
            elif big(i):
                B[i].set(a=B[s['a']], p=s['p'])
            else:
                r = B[i](a=B[s['a']], p=s['p'])
                check_value(r, ev(i, {}, {}), where + ': value returned by a call')
        elif s['t'] == 'get':
            if big(i):
                continue
            check_value(B[i].r, ev(i, {}, {}), '%s: value of object %d' % (where, i))
            nt, queried = nt or changed, True
        elif s['t'] == 'prop':
            o = B[i]
            got = getattr(o, s['n'])
            a, b, c = [ev(st[i][m], {}, {}) for m in 'abc']
            want = {'pab': lambda: a * b, 'pq': lambda: st[i]['q'] * 2.0, 'pout': lambda: c * st[i]['p']}[s['n']]()
            require(np.allclose(got, want, rtol=1e-9, atol=1e-12), '%s: cached property %s is %s, expected %s', where, s['n'], got, want)
            flush(where)
            if s['n'] == 'pout':
                lastout[i] = np.array(got)
        else:
            if big(i):
                continue
            W = jac(i, s['w'])
            y, x = B[i], B[s['w']]
            key = (s['w'], s['m'])
            alone = i in opsi and not any(st[j][nm] == i for j in st for nm in kids[j])
            if s['m'] == 'fwd':
                J = y.dr_wrt(x)
            elif s['m'] == 'rev':
                J = y.dr_wrt(x, reverse_mode=True)
            else:
                lhs = np.cos(np.arange(W.shape[0]) + 1.0).reshape(1, -1)
                W = lhs.dot(W)
                J = y.lop(x, lhs)
                if J is not None and not sp.issparse(J) and not hasattr(J, 'matvec') and np.size(J) == 1 and W.size == 1:
                    J = np.reshape(np.asarray(J, dtype=np.float64), (1, 1))
            check_jac(J, W, '%s: derivative of object %d wrt input %d [%s]' % (where, i, s['w'], s['m']))
            if alone and s['m'] != 'lop':
                if s['w'] in drdone[i]:
                    require(not any(e[0] == 'dr' and e[1] == i for e in LOG), '%s: derivative of operation %d recomputed although nothing changed', where, i)
                    ctx.label('derivative-kept')
                drdone[i].add(s['w'])
            nt, queried = nt or changed, True
        flush(where)
    for i in range(len(objs)):
        if objs[i]['k'] != 'leaf' and not big(i):
            check_value(B[i].r, ev(i, {}, {}), 'end: value of object %d' % i)
            for w in leafv:
                check_jac(B[i].dr_wrt(B[w]), jac(i, w), 'end: derivative of object %d wrt input %d' % (i, w))
    flush('end')
    return nt
