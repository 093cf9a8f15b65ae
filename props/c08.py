"""C08: copies and pickles are faithful and independent."""
import copy
from vlib import ops

RULE = ('A random differentiable DAG, with some values and derivatives queried and some inputs changed first, is copied: by copy() of an expression, by deepcopy, or by pickle in every protocol, '
        'as a single expression or together with some of its nodes and inputs in a tuple or dictionary (possibly a copy of a copy). Then inputs on either side are changed and values and derivatives on either side queried; '
        'each side is compared with its own NumPy model. One case in nine copies operations that prepare state when their operands or parameters change (on_changed, depends_on; Interp3D), before their first evaluation or with changes pending. Non-trivial: at least two operations and a change after copying.')
CASES = {'quick': 6500, 'thorough': 200000}
ASSUMPTIONS = ['points closer than 1e-3 to a kink are skipped']


def gen_prep(g):
    op = g.pick(['poly', 'lazy', 'interp'])
    num = lambda: g.int(-16, 16) / 8.0
    n = g.int(1, 4)

    def value(name):
        if name == 'x':
            return [[g.int(0, 32) / 16.0 + 1 / 64.0 for _ in range(3)] for _ in range(n)] if op == 'interp' else [num() for _ in range(n)]
        if name == 'image':
            return [num() for _ in range(27)]
        return [num() for _ in range(3)] if name == 'coef' else num()
    names = ['x', 'image'] if op == 'interp' else ['x', 's', 'coef', 'scale']
    diff = ['x'] if op == 'interp' else ['x', 's']

    def ev():
        t = g.weighted([(50, 'set'), (25, 'get'), (25, 'dr')])
        k = g.pick(names if t == 'set' else diff)
        return {'t': t, 'k': k, 'v': value(k) if t == 'set' else None, 'side': g.int(0, 1)}
    return {'kind': 'prep', 'op': op, 'p': {k: value(k) for k in names}, 'pre': [ev() for _ in range(g.weighted([(40, 0), (25, 1), (20, 2), (15, 4)]))],
            'post': [ev() for _ in range(g.int(0, 5))], 'how': g.pick(['copy', 'meth', 'deepcopy', 'pickle', 'pair']), 'proto': g.int(0, 5), 'times': g.weighted([(75, 1), (25, 2)]),
            'wrap': int(g.chance(40))}


def check_prep(case, ctx):
    import pickle
    import numpy as np
    import chumpy as ch
    from vlib import prepops
    from vlib.util import check_value, check_jac, require
    from chumpy.extras import Interp3D
    op = case['op']
    P = [dict(case['p'])]
    if op == 'interp':
        node = Interp3D(image=np.array(P[0]['image']).reshape(3, 3, 3), locations=ch.array(P[0]['x']))
    else:
        node = (prepops.Poly if op == 'poly' else prepops.Lazy)(x=ch.array(P[0]['x']), s=ch.Ch(P[0]['s']), coef=np.array(P[0]['coef']), scale=P[0]['scale'])
    top = 3. * node + 1. if case['wrap'] else node
    # nodes and the tops above them, per side
    N, T = [node], [top]
    attr = {'x': 'locations' if op == 'interp' else 'x', 's': 's'}

    def model(p):
        if op != 'interp':
            v, J = prepops.model(op, p)
        else:
            img, loc = np.array(p['image']).reshape(3, 3, 3), np.array(p['x'])
            gr = np.gradient(img)
            cell = np.floor(np.minimum(loc, 2)).astype(int)
            at = lambda a: a[cell[:, 0], cell[:, 1], cell[:, 2]]
            D = np.vstack([at(a) for a in gr]).T
            inside = np.minimum(loc, 2)
            v = at(img) + np.sum(D * (inside - cell), axis=1)
            D = np.where(loc > 2, 0., D)
            J = np.zeros((len(loc), loc.size))
            for i in range(len(loc)):
                J[i, 3 * i:3 * i + 3] = D[i]
            J = {'x': J}
        k = 3. if case['wrap'] else 1.
        return (3. * v + 1. if case['wrap'] else v), {q: k * j for q, j in J.items()}

    def query(side, k, what):
        v, J = model(P[side])
        if k is None:
            check_value(T[side].r, v, what + ': value', rtol=1e-9, atol=1e-9)
        else:
            check_jac(T[side].dr_wrt(getattr(N[side], attr[k])), J[k], what + ': derivative wrt ' + k)

    def do(side, e, what):
        if e['t'] == 'set':
            P[side][e['k']] = e['v']
            if e['k'] in attr:
                getattr(N[side], attr[e['k']]).x = np.array(e['v'])
            elif e['k'] == 'image':
                N[side].image = np.array(e['v']).reshape(3, 3, 3)
            else:
                setattr(N[side], e['k'], np.array(e['v']) if e['k'] == 'coef' else e['v'])
        else:
            query(side, e['k'] if e['t'] == 'dr' else None, what)

    for i, e in enumerate(case['pre']):
        do(0, e, '%s before copying, step %d' % (op, i))
    t, m = top, node
    for _ in range(case['times']):
        if case['how'] == 'pair':
            t, m = pickle.loads(pickle.dumps((t, m), protocol=case['proto']))
        else:
            t = {'copy': ch.copy, 'meth': lambda q: q.copy(), 'deepcopy': copy.deepcopy, 'pickle': lambda q: pickle.loads(pickle.dumps(q, protocol=case['proto']))}[case['how']](t)
            m = t
            if case['wrap']:
                m = [q for q in _below(t) if type(q) is type(node)]
                require(len(m) == 1, '%d operations of type %s in the copy', len(m), type(node).__name__)
                m = m[0]
    N.append(m)
    T.append(t)
    P.append(dict(P[0]))
    for i, e in enumerate(case['post']):
        do(e['side'], e, '%s after copying (%s), step %d, side %d' % (op, case['how'], i, e['side']))
    for side in (0, 1):
        query(side, None, '%s, end, side %d' % (op, side))
        for k in model(P[side])[1]:
            query(side, k, '%s, end, side %d' % (op, side))
    ctx.label('prep-' + op, case['how'])
    return bool(case['post'])


def _below(t):
    todo, out = [t], []
    while todo:
        q = todo.pop()
        if any(q is o for o in out):
            continue
        out.append(q)
        if q.dterms and type(q).__name__ != 'Ch':
            todo += [getattr(q, k) for k in q.dterms if hasattr(q, k)]
    return out


def generate(g, tier):
    from vlib import gen
    if g.chance(11):
        return gen_prep(g)
    d, made = gen.gen_dag(g, 'deriv', max_ops=7, min_ops=1, max_size=12)
    outs = [gen.best_out(g, d, made)]
    if g.chance(40):
        outs.append(g.pick(made))
    nodes, mp = gen.prune(d.nodes, outs)
    outs = [mp[o] for o in outs]
    leaves = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    inner = [i for i, n in enumerate(nodes) if n['o'] not in ('leaf', 'const')]

    def ev():
        t = g.weighted([(35, 'set'), (30, 'get'), (35, 'dr')])
        if t == 'set':
            l = g.pick(leaves)
            return {'t': 'set', 'n': l, 'v': ops.enc(gen.values(g, nodes[l]['v']['s'] or [1], g.pick(['generic', 'distinct']))), 'how': g.pick(['x', 'item', 'elem'])}
        if t == 'get':
            return {'t': 'get', 'n': g.pick(inner)}
        return {'t': 'dr', 'n': g.pick(inner), 'w': g.pick(leaves), 'rev': int(g.chance(30))}
    pre = [ev() for _ in range(g.int(0, 4))]
    post = []
    for _ in range(g.int(1, 8)):
        e = ev()
        e['side'] = g.int(0, 1)
        if e['t'] == 'set':
            e['v2'] = g.int(0, 1)
        post.append(e)
    how = g.pick(['tuple', 'tuple', 'dict', 'copy', 'meth', 'single', 'deepcopy'])
    return {'nodes': nodes, 'outs': outs, 'pre': pre, 'post': post, 'how': how, 'proto': g.int(0, 5), 'times': g.weighted([(75, 1), (20, 2), (5, 3)]),
            'extra': g.subset(inner, 0), 'label': int(g.chance(15))}


def dumps(obj, proto):
    import pickle
    try:
        return pickle.dumps(obj, protocol=proto)
    except AssertionError:
        # PyPy can't pickle two empty arrays in protocol 5 (pickle.dumps([np.zeros(0), np.zeros(0)], 5) fails)
        if proto < 5:
            raise
        return pickle.dumps(obj, protocol=4)


def check(case, ctx):
    import pickle
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_value, check_jac, fail
    if case.get('kind') == 'prep':
        return check_prep(case, ctx)
    models = [copy.deepcopy(case['nodes'])]
    built = [ops.ch_build(ch, models[0])]
    leaves = [i for i, n in enumerate(models[0]) if n['o'] == 'leaf']

    def safe(nodes, i):
        try:
            vals = ops.ref_eval(nodes, [i])
        except np.linalg.LinAlgError:
            return None
        return vals if ops.margin(nodes, vals, ops.needed(nodes, [i])) > 1e-3 else None

    def query(side, i, w, rev, where):
        nodes, B = models[side], built[side]
        if i not in B or (w is not None and w not in B):
            return
        vals = safe(nodes, i)
        if vals is None:
            return
        if w is None:
            check_value(B[i].r, vals[i], '%s: value of node %d (%s)' % (where, i, nodes[i]['o']), rtol=1e-7, atol=1e-8)
        else:
            J = B[i].dr_wrt(B[w], reverse_mode=True) if rev else B[i].dr_wrt(B[w])
            check_jac(J, ops.ref_jac(nodes, i, w), '%s: derivative of node %d (%s) wrt input %d' % (where, i, nodes[i]['o'], w))

    def do(side, e, where):
        if e['t'] == 'set':
            l = e['n']
            v = ops.dec(e['v'])
            if l not in built[side]:
                return
            x = built[side][l]
            if e['how'] == 'x':
                x.x = v.copy()
            elif e['how'] == 'item':
                x[...] = v
            else:
                old = np.array(ops.dec(models[side][l]['v']))
                x[0] = np.atleast_1d(v)[0]
                old[0] = np.atleast_1d(v)[0]
                v = old
            models[side][l]['v'] = ops.enc(v)
        else:
            query(side, e['n'], e.get('w'), e.get('rev'), where)

    for k, e in enumerate(case['pre']):
        do(0, e, 'before copying, step %d' % k)
    if case['label']:
        built[0][leaves[0]].label = 'first'
        built[0][case['outs'][0]].label = 'out'
    ids = sorted(set(case['outs'] + case['extra']) | set(leaves if case['how'] in ('tuple', 'dict', 'deepcopy') else []))
    out = case['outs'][0]
    src = built[0]
    for _ in range(case['times']):
        if case['how'] in ('tuple', 'dict', 'deepcopy'):
            obj = {i: src[i] for i in ids} if case['how'] == 'dict' else tuple(src[i] for i in ids)
            if case['how'] == 'deepcopy':
                got = copy.deepcopy(obj)
            else:
                got = pickle.loads(dumps(obj, case['proto']))
            new = got if isinstance(got, dict) else dict(zip(ids, got))
        else:
            if case['how'] == 'copy':
                c = ch.copy(src[out])
            elif case['how'] == 'meth':
                c = src[out].copy()
            else:
                c = pickle.loads(dumps(src[out], case['proto']))
            new = {out: c}
            # corresponding nodes: walk both graphs in parallel along the operand names
            where_is = {id(src[i]): i for i in src if hasattr(src[i], 'dterms')}
            seen, todo = {id(src[out]): c}, [(src[out], c)]
            while todo:
                a, b = todo.pop()
                require(type(a) is type(b), 'copied node has type %s instead of %s', type(b), type(a))
                if type(a) is ch.Ch:
                    continue
                require(sorted(a.dterms) == sorted(b.dterms), 'operands of the copy are %s instead of %s', b.dterms, a.dterms)
                for name in a.dterms:
                    x, y = getattr(a, name), getattr(b, name)
                    require(x is not y, 'the copy shares the node %s with the original', name)
                    if id(x) in seen:
                        require(seen[id(x)] is y, 'a node that was shared in the original is not shared in the copy')
                        continue
                    seen[id(x)] = y
                    if id(x) in where_is:
                        new[where_is[id(x)]] = y
                    todo.append((x, y))
        for i in new:
            require(new[i] is not src[i], 'node %d of the copy is the original object', i)
            require(getattr(new[i], 'label', None) == getattr(src[i], 'label', None), 'the label was not copied')
        src = new
    built.append(src)
    models.append(copy.deepcopy(models[0]))
    changed = False
    first = case['proto'] % 2
    for side in (first, 1 - first):
        if case['post'][0]['t'] != 'set':
            for o in case['outs']:
                query(side, o, None, 0, 'after copying, side %d' % side)
    for k, e in enumerate(case['post']):
        do(e['side'], e, 'after copying, step %d, side %d' % (k, e['side']))
        changed = changed or e['t'] == 'set'
    for side in (0, 1):
        for o in case['outs']:
            query(side, o, None, 0, 'end, side %d' % side)
            for w in leaves:
                query(side, o, w, 0, 'end, side %d' % side)
    ctx.label(case['how'], 'protocol-%d' % case['proto'])
    return changed and sum(1 for n in case['nodes'] if n['o'] not in ('leaf', 'const')) >= 2
