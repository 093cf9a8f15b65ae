"""Calling forms: the same call with optional arguments by position, by keyword, in any order, or left out."""

# function: (names of the parameters, in NumPy's order; how many have no default)
FORMS = {
    'sum': (['a', 'axis'], 1), 'mean': (['a', 'axis'], 1), 'cumsum': (['a'], 1), 'amax': (['a', 'axis'], 1), 'amin': (['a', 'axis'], 1), 'max': (['a', 'axis'], 1),
    'min': (['a', 'axis'], 1), 'nanmax': (['a', 'axis'], 1), 'nanmin': (['a', 'axis'], 1), 'tensordot': (['a', 'b', 'axes'], 2), 'roll': (['a', 'shift', 'axis'], 2),
    'rollaxis': (['a', 'axis', 'start'], 2), 'swapaxes': (['a', 'axis1', 'axis2'], 3), 'transpose': (['a', 'axes'], 1), 'tile': (['A', 'reps'], 2),
    'repeat': (['a', 'repeats', 'axis'], 2), 'diag': (['v', 'k'], 1), 'diagflat': (['v', 'k'], 1), 'rot90': (['m', 'k'], 1), 'sort': (['a', 'axis', 'kind'], 1),
    'clip': (['a', 'a_min', 'a_max'], 3), 'expand_dims': (['a', 'axis'], 2), 'squeeze': (['a', 'axis'], 1), 'reshape': (['a', 'newshape'], 2), 'concatenate': (['arrays', 'axis'], 1),
    'dot': (['a', 'b'], 2), 'linspace': (['start', 'stop', 'num', 'endpoint'], 2), 'eye': (['N', 'M', 'k'], 1), 'tri': (['N', 'M', 'k'], 1), 'argmax': (['a', 'axis'], 1),
    'argmin': (['a', 'axis'], 1), 'all': (['a', 'axis'], 1), 'any': (['a', 'axis'], 1), 'power': (['x1', 'x2'], 2), 'ravel': (['a'], 1), 'fliplr': (['m'], 1), 'flipud': (['m'], 1),
}
METHODS = ('sum', 'mean', 'squeeze', 'transpose', 'reshape', 'ravel')


def gen_form(g):
    from vlib import gen, ops
    f = g.pick(sorted(FORMS))
    names, need = FORMS[f]
    n = g.pick([1, 2, 2, 3])
    if f in ('swapaxes', 'rollaxis', 'rot90', 'fliplr', 'dot', 'tensordot'):
        n = max(n, 2)
    if f == 'diag':
        n = g.pick([1, 2])
    s = [g.int(1, 4) for _ in range(n)]
    if f == 'squeeze':
        s[g.int(0, n - 1)] = 1
    v = gen.values(g, s, g.pick(['generic', 'ties']))
    ax = lambda: g.int(-n, n - 1)
    give = g.int(need, len(names))
    p = {}
    if f in ('dot', 'tensordot'):
        k = g.int(0, min(2, n)) if f == 'tensordot' and give > 2 else (min(2, n) if f == 'tensordot' else 1)
        other = s[n - k:][:k] + [g.int(1, 3) for _ in range(g.int(0 if k else 1, 2))] if f == 'tensordot' else [s[-1], g.int(1, 4)]
        p['b'] = {'arr': ops.enc(gen.values(g, other))}
        p['axes'] = k
    elif f in ('roll', 'repeat'):
        p = {'shift': g.int(-5, 5)} if f == 'roll' else {'repeats': g.int(1, 3)}
        p['axis'] = g.pick([None, ax()])
    elif f == 'rollaxis':
        p = {'axis': g.int(-n, n - 1), 'start': g.int(0, n)}
    elif f == 'swapaxes':
        p = {'axis1': ax(), 'axis2': ax()}
    elif f == 'transpose':
        p = {'axes': {'tup': g.perm(n)}}
    elif f == 'tile':
        p = {'reps': g.pick([g.int(1, 3), {'tup': [g.int(1, 2) for _ in range(g.int(1, 3))]}])}
    elif f in ('diag', 'diagflat'):
        p = {'k': g.int(-2, 2)}
        if f == 'diag' and n == 2:
            p['k'] = g.int(1 - s[0], s[1] - 1)
    elif f == 'rot90':
        p = {'k': g.int(-5, 5)}
    elif f == 'sort':
        p = {'axis': g.pick([ax(), ax(), None]), 'kind': g.pick(['quicksort', 'mergesort', 'heapsort'])}
    elif f == 'clip':
        p = {'a_min': g.int(-100, 0) / 100.0, 'a_max': g.int(0, 100) / 100.0}
    elif f == 'expand_dims':
        p = {'axis': g.int(-n - 1, n)}
    elif f == 'squeeze':
        p = {'axis': s.index(1)}
    elif f == 'reshape':
        size = v.size
        p = {'newshape': {'tup': g.pick([[size], [-1, s[-1]], s[::-1], [1, -1]])}}
    elif f == 'concatenate':
        p = {'axis': ax(), 'twice': g.int(1, 3)}
    elif f == 'linspace':
        p = {'start': g.int(-200, 200) / 100.0, 'stop': g.int(-200, 200) / 100.0, 'num': g.int(1, 7), 'endpoint': bool(g.int(0, 1))}
    elif f in ('eye', 'tri'):
        p = {'N': g.int(1, 4), 'M': g.int(1, 4), 'k': g.int(-2, 2)}
    elif f == 'power':
        p = {'x2': float(g.int(0, 3))}
    elif 'axis' in names:
        p = {'axis': g.pick([ax(), ax(), None])}
    return {'kind': 'form', 'f': f, 'v': ops.enc(v), 'p': p, 'give': give, 'pos': give if f == 'power' else g.int(1, give), 'flip': g.int(0, 1), 'how': g.pick(['call', 'call', 'method'])}


def check_form(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib import ops
    from vlib.util import require, check_value, short
    f, p = case['f'], case['p']
    names, need = FORMS[f]
    v = ops.dec(case['v'])
    x = ch.array(v)

    def val(n, c):
        if n in p:
            q = p[n]
            if isinstance(q, dict) and 'tup' in q:
                return tuple(q['tup'])
            if isinstance(q, dict):
                return ch.array(ops.dec(q['arr'])) if c else ops.dec(q['arr'])
            return q
        if n == 'arrays':
            return [x if c else v] * p['twice']
        return x if c else v
    given = names[:case['give']]
    want = np.asarray(getattr(np, f)(*[val(n, False) for n in given]), dtype=np.float64)
    npos = case['pos']
    later = given[npos:]
    if case['flip']:
        later = later[::-1]
    kw = dict((n, val(n, True)) for n in later)
    pos = [val(n, True) for n in given[:npos]]
    if case['how'] == 'method' and f in METHODS and 'axes' not in kw:
        got = getattr(x, f)(*pos[1:], **kw) if 'newshape' not in kw else x.reshape(kw['newshape'])
        form = 'x.%s(%s, %s)' % (f, pos[1:], kw)
    else:
        got = getattr(ch, f)(*pos, **kw)
        form = 'ch.%s(..., %s, %s)' % (f, pos[1:], sorted(kw))
    got = got.r if hasattr(got, 'dterms') else np.asarray(got, dtype=np.float64)
    ctx.label('form:' + f)
    check_value(np.atleast_1d(got), np.atleast_1d(want), '%s on %s' % (form[:200], short(v)), rtol=1e-9, atol=1e-12)
    return len(given) > 1
