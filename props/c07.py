"""C07: rearranging and stacking only moves elements."""
import copy
from vlib import ops

RULE = ('Compositions of 1-5 rearranging and stacking operations over 1-3 inputs (and raw arrays), or nested stacks of eleven and more parts, followed by 0-6 changes of input values, input shapes, operands and parameters of the operations. '
        'The oracle pushes unique element numbers through the NumPy functions: values must be exactly the addressed elements and each Jacobian exactly the 0/1 matrix of copies, for every node, in forward and reverse mode. '
        'Arrays of more than 65536 elements are generated, too (derivatives, by their products with vectors). '
        'Non-trivial: two operations or more, or at least one accepted change.')
CASES = {'quick': 13000, 'thorough': 300000}
ASSUMPTIONS = ['Jacobians of sort are only compared when the sorted values are distinct']

FIXED = ('getitem', 'fliplr', 'flipud', 'squeeze', 'expand_dims')
ATTR = {'tile': {'reps': 'reps'}, 'repeat': {'n': 'repeats', 'axis': 'axis'}, 'roll': {'n': 'shift', 'axis': 'axis'}, 'rot90': {'k': 'k'}, 'diag': {'k': 'k'},
        'diagflat': {'k': 'k'}, 'transpose': {'axes': 'axes'}, 'rollaxis': {'axis': 'axis', 'start': 'start'}, 'swapaxes': {'x': 'axis1', 'y': 'axis2'},
        'sort': {'axis': 'axis'}, 'concatenate': {'axis': 'axis'}, 'reshape': {'shape': 'newshape'}}
OPERAND = {'tile': 'a', 'repeat': 'a', 'roll': 'a', 'rot90': 'a', 'diag': 'a', 'diagflat': 'a', 'transpose': 'a', 'rollaxis': 'a', 'swapaxes': 'a', 'sort': 'a',
           'atleast_1d': 'x', 'atleast_2d': 'x', 'atleast_3d': 'x', 'getitem': 'a'}
STACKS = ('concatenate', 'hstack', 'vstack', 'dstack', 'concatflat')


def track(nodes):
    """values and element numbers (0: filled in) of all nodes; also whether a sort met ties."""
    import numpy as np
    vals, ids, ties = {}, {}, False
    off = 1
    base = {}
    for i, n in enumerate(nodes):
        o, p = n['o'], n.get('p') or {}
        if o in ('leaf', 'const'):
            vals[i] = np.atleast_1d(ops.dec(n['v']))
            ids[i] = np.arange(off, off + vals[i].size).reshape(vals[i].shape)
            base[i] = off
            off += vals[i].size
        elif o == 'sort':
            x, k = vals[n['a'][0]], ids[n['a'][0]]
            ax = p.get('axis', -1)
            if ax is None:
                x, k, ax = x.ravel(), k.ravel(), -1
            order = np.argsort(x, axis=ax, kind='stable')
            vals[i] = np.take_along_axis(x, order, ax)
            ids[i] = np.take_along_axis(k, order, ax)
            if vals[i].shape[ax] > 1 and np.any(np.diff(vals[i], axis=ax) == 0):
                ties = True
        else:
            f = ops.OPS[o].ref
            vals[i] = np.atleast_1d(f([vals[j] for j in n['a']], p))
            ids[i] = np.atleast_1d(f([ids[j] for j in n['a']], p)).astype(int)
    return vals, ids, base, ties


def try_track(nodes):
    import numpy as np
    try:
        t = track(nodes)
    except Exception:
        return None
    if any(v.size == 0 or v.size > 150 or v.ndim > 6 for v in t[0].values()):
        return None
    return t


def compatible(nodes, old, new):
    """Operations that fix shapes when they are built must see the same operand shape."""
    for i, n in enumerate(nodes):
        if n['o'] in FIXED and old[n['a'][0]].shape != new[n['a'][0]].shape:
            return False
        if n['o'] == 'hstack' and any(old[j].ndim != new[j].ndim for j in n['a']):
            return False
    return True


def op_many(d, g):
    """A stack of eleven and more parts, then maybe a stack of that stack."""
    s = g.pick([[1], [1], [1, 2], [2, 1], [1, 1], [1, 1, 2]])
    o = g.pick(['concatenate', 'concatenate', 'concatenate', 'hstack', 'vstack', 'dstack', 'concatflat'])
    if len(s) == 3 and o != 'concatenate':
        s = [1, 2]
    ls = [d.leaf(s) for _ in range(g.int(2, 5))]
    args = [d.const(s) if g.chance(25) else g.pick(ls) for _ in range(g.int(11, 14))]
    args[g.int(0, 10)] = ls[0]
    ax = g.int(-len(s), len(s) - 1)
    made = [d.apply(o, args, {'axis': ax, 'tup': int(g.chance(40))} if o == 'concatenate' else {})]
    for _ in range(g.weighted([(20, 0), (50, 1), (30, 2)])):
        i = made[-1]
        if i is None:
            break
        v = d.vals[i]
        ax2 = (ax if g.chance(60) else ax - v.ndim if ax >= 0 else ax + v.ndim) if o == 'concatenate' else g.int(-v.ndim, v.ndim - 1)
        if g.chance(20):
            ax2 = g.int(-v.ndim, v.ndim - 1)
        t = list(v.shape)
        t[ax2] = g.int(1, 2)
        rest = [d.leaf(t) if g.chance(70) else d.const(t) for _ in range(g.int(1, 2))]
        both = [i] + rest if g.chance(50) else rest + [i]
        o2 = 'concatenate' if o in ('concatenate', 'concatflat') or g.chance(50) else o
        if o2 == 'dstack' and v.ndim != 3 or o2 == 'hstack' and v.ndim > 1 and ax2 % v.ndim != 1 or o2 == 'vstack' and (v.ndim < 2 or ax2 % v.ndim != 0) or o2 == 'dstack' and ax2 % v.ndim != 2:
            o2 = 'concatenate'
        made.append(d.apply(o2, both, {'axis': ax2, 'tup': int(g.chance(40))} if o2 == 'concatenate' else {}))
    return [i for i in made if i is not None]


def generate(g, tier):
    from vlib import gen, large
    if g.chance(1):
        return large.gen_large(g, (large.MOVE,))
    d = gen.Dag(g, 'deriv', 30 if g.chance(20) else 16, 4 if g.chance(15) else 3, vkind='distinct')
    for _ in range(g.int(1, 3)):
        d.leaf()
    made = []
    for _ in range(g.weighted([(35, 1), (30, 2), (20, 3), (10, 4), (5, 5)])):
        for _t in range(4):
            r = d.op_stack() if g.chance(28) else d.op_reorder()
            if r is not None and d.vals[r].size <= 100:
                made.append(r)
                break
    if g.chance(5):
        d = gen.Dag(g, 'deriv', 60, 3, vkind='distinct')
        made = op_many(d, g)
        if made and g.chance(30):
            r = d.op_reorder()
            if r is not None and d.vals[r].size <= 100:
                made.append(r)
    if not made:
        made = [d.apply('reshape', [0], {'shape': [-1], 'via': 'fn'})]
    for i in made:
        n = d.nodes[i]
        if n['o'] == 'repeat' and g.chance(30):
            v = d.vals[n['a'][0]]
            ax = n['p'].get('axis')
            n['p'] = dict(n['p'], n=[g.int(0, 2) for _ in range(v.size if ax is None else v.shape[ax])])
        if n['o'] == 'roll' and g.chance(15) and d.vals[n['a'][0]].ndim > 1:
            n['p'] = {'n': [g.int(-2, 2), g.int(-2, 2)], 'axis': [0, 1], 'lst': g.int(0, 1)}
    for n in d.nodes:
        if n['o'] == 'const' and not isinstance(n['v'], dict):
            n['v'] = {'s': [1], 'd': [float(n['v'])]}
    out = gen.best_out(g, d, made)
    nodes, mp = gen.prune(d.nodes, [out])
    t = try_track(nodes)
    if t is None:       # e.g. array repeats changed later shapes
        d = gen.Dag(g, 'deriv', 16, 3, vkind='distinct')
        l = d.leaf()
        o = d.apply('transpose', [l], {'axes': None, 'via': 'T'})
        nodes, mp = gen.prune(d.nodes, [o])
        out = o
        t = try_track(nodes)
    out = mp[out]
    leaves = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    inner = [i for i, n in enumerate(nodes) if n['o'] not in ('leaf', 'const')]
    steps = []
    cur = copy.deepcopy(nodes)
    for _ in range(g.weighted([(20, 0), (25, 1), (20, 2), (15, 3), (10, 4), (10, 6)])):
        k = g.weighted([(30, 'vals'), (25, 'shape'), (35, 'param'), (10, 'operand')])
        new = copy.deepcopy(cur)
        st = None
        if k == 'vals':
            l = g.pick(leaves)
            st = {'t': 'vals', 'n': l, 'v': ops.enc(gen.values(g, cur[l]['v']['s'] or [1], 'distinct')), 'how': g.pick(['x', 'item'])}
            new[l]['v'] = st['v']
        elif k == 'shape':
            vs = {}
            same = gen.shape(g, 16, 3)
            for l in leaves:
                s = cur[l]['v']['s'] or [1]
                s2 = [g.int(1, 4) if g.chance(60) else q for q in s]
                if len(s) == len(same) and g.chance(50):
                    s2 = same
                vs[str(l)] = ops.enc(gen.values(g, s2, 'distinct'))
                new[l]['v'] = vs[str(l)]
            st = {'t': 'shape', 'v': vs}
        elif k == 'param':
            c = [i for i in inner if cur[i]['o'] in ATTR and not (cur[i]['o'] == 'concatenate' and (any(i in (n.get('a') or []) and n['o'] in STACKS for n in cur) or any(cur[j]['o'] in STACKS for j in cur[i]['a'])))]
            if not c:
                continue
            i = g.pick(c)
            o = cur[i]['o']
            v = t[0][cur[i]['a'][0]]
            if o == 'concatenate':
                p = {'axis': g.int(-v.ndim, v.ndim - 1)}
            elif o == 'repeat' and g.chance(40):
                ax = g.pick([None] + list(range(v.ndim)))
                p = {'n': [g.int(0, 3) for _ in range(v.size if ax is None else v.shape[ax])], 'axis': ax}
            else:
                p = d.reorder_params(o, v)
            if p is None:
                continue
            p = {q: w for q, w in p.items() if q in ATTR[o]}
            if o == 'rollaxis' and 'start' not in p:
                p['start'] = cur[i]['p'].get('start') or 0
            if o == 'transpose' and p['axes'] is None and g.chance(50):
                p['axes'] = g.perm(v.ndim)
            st = {'t': 'param', 'n': i, 'p': p}
            new[i]['p'] = dict(new[i].get('p') or {}, **p)
        else:
            c = [i for i in inner if cur[i]['o'] in OPERAND]
            if not c:
                continue
            i = g.pick(c)
            c2 = [j for j in range(i) if j != cur[i]['a'][0] and cur[j]['o'] != 'const']
            if not c2:
                continue
            st = {'t': 'operand', 'n': i, 'to': g.pick(c2)}
            new[i]['a'] = [st['to']]
        t2 = try_track(new)
        if t2 is None or not compatible(new, t[0], t2[0]):
            continue
        if k == 'operand' and cur[i]['o'] in FIXED and t[0][cur[i]['a'][0]].shape != t[0][st['to']].shape:
            continue
        st['q'] = g.subset(inner, 1) if g.chance(70) else []
        st['mode'] = g.pick(['fwd', 'fwd', 'rev'])
        steps.append(st)
        cur, t = new, t2
    return {'nodes': nodes, 'out': out, 'steps': steps, 'q0': g.subset(inner, 0), 'order': g.int(0, 1)}


def check(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_jac, dense, short
    if 'kind' in case:
        from vlib import large
        return large.check_large(case, ctx)
    nodes = copy.deepcopy(case['nodes'])
    t = try_track(nodes)
    if t is None:
        return False
    B = ops.ch_build(ch, nodes)
    leaves = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']

    def verify(i, where, mode):
        vals, ids, base, ties = t
        what = '%s: node %d (%s)' % (where, i, nodes[i]['o'])
        todo = ['v', 'j'] if case['order'] else ['j', 'v']
        for k in todo:
            if k == 'v':
                r = B[i].r
                require(r.dtype == np.float64 and r.shape == vals[i].shape and np.array_equal(r, vals[i]), '%s is %s, expected %s', what, short(r, 30), short(vals[i], 30))
            elif not ties:
                for l in leaves:
                    n = vals[l].size
                    want = np.zeros((ids[i].size, n))
                    f = ids[i].ravel() - base[l]
                    m = (f >= 0) & (f < n) & (ids[i].ravel() > 0)
                    want[np.flatnonzero(m), f[m]] = 1
                    J = B[i].dr_wrt(B[l], reverse_mode=True) if mode == 'rev' else B[i].dr_wrt(B[l])
                    if J is None:
                        require(not want.any(), '%s: derivative wrt input %d is None, expected %s', what, l, short(want, 40))
                        continue
                    J = dense(J, want.shape[0], want.shape[1], what)
                    require(np.array_equal(J, want), '%s: derivative wrt input %d is %s, expected %s', what, l, short(J, 40), short(want, 40))

    for i in case['q0']:
        verify(i, 'start', 'fwd')
    done = 0
    for si, s in enumerate(case['steps']):
        new = copy.deepcopy(nodes)
        if s['t'] == 'vals':
            new[s['n']]['v'] = s['v']
        elif s['t'] == 'shape':
            for l, v in s['v'].items():
                new[int(l)]['v'] = v
        elif s['t'] == 'param':
            new[s['n']]['p'] = dict(new[s['n']].get('p') or {}, **s['p'])
        else:
            new[s['n']]['a'] = [s['to']]
        t2 = try_track(new)
        if t2 is None or not compatible(new, t[0], t2[0]):
            continue        # only while shrinking
        if s['t'] == 'vals':
            if s['how'] == 'item':
                B[s['n']][...] = ops.dec(s['v'])
            else:
                B[s['n']].x = ops.dec(s['v'])
        elif s['t'] == 'shape':
            for l, v in s['v'].items():
                B[int(l)].x = ops.dec(v)
        elif s['t'] == 'param':
            for k, v in s['p'].items():
                if k == 'reps':
                    v = ops._reps(new[s['n']]['p'])
                elif isinstance(v, list):
                    v = tuple(v)
                setattr(B[s['n']], ATTR[nodes[s['n']]['o']][k], v)
        else:
            setattr(B[s['n']], OPERAND[nodes[s['n']]['o']], B[s['to']])
        ctx.label(s['t'])
        nodes, t = new, t2
        done += 1
        for i in s['q']:
            verify(i, 'step %d' % si, s['mode'])
    for i, n in enumerate(nodes):
        if n['o'] not in ('leaf', 'const'):
            verify(i, 'end', 'fwd')
            ctx.label('op-' + n['o'])
    return done > 0 or sum(1 for n in nodes if n['o'] not in ('leaf', 'const')) > 1
