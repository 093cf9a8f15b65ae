"""C03: no answer is ever stale, over any history of changes and queries."""
import copy
from vlib import ops

RULE = ('A random DAG is built and then driven by a random history of 4-16 steps: changing inputs (x=, element/slice/mask assignment, '
        'through reshaped or transposed views, set(), call syntax, shape changes), changing operands and parameters of nodes, '
        'adding and dropping parents, and querying values and derivatives of arbitrary nodes by forward or reverse mode. Every answer is '
        'compared with a NumPy model holding the current inputs; some graphs have up to 1500 nodes side by side or 150 on top of each other. Non-trivial: a change after a query of a dependent node, followed by another query.')
CASES = {'quick': 10000, 'thorough': 300000}
ASSUMPTIONS = ['queries at points closer than 1e-3 to a kink or pole of the current graph are skipped']

REDUCE = ('sum', 'mean', 'amax', 'amin', 'max', 'min')


def poly_dag(g):
    """A graph whose operations accept any input shape, so that inputs may change shape."""
    from vlib import gen
    d = gen.Dag(g, 'deriv', 24, 3)
    nd = g.weighted([(30, 1), (40, 2), (30, 3)])
    shp = gen.shape(g, 12, nd, nd)
    n = g.int(1, 2)
    leaves = [d.leaf(shp) for _ in range(n)]
    same = list(leaves)      # nodes that always share the leaves' shape
    allm = []
    for _ in range(g.int(2, 6)):
        t = g.weighted([(30, 'un'), (25, 'bin'), (10, 'red'), (30, 're'), (14, 'cat'), (6, 'dot')])
        r = None
        i = g.pick(same[-3:])
        src = g.pick(same + allm) if g.chance(60) else i
        if t == 'un':
            o = g.pick(['sin', 'cos', 'arctan', 'square', 'negative', 'absolute', 'nan_to_num'])
            r = d.apply(o, [i])
            if r is not None:
                same.append(r)
        elif t == 'bin':
            if g.chance(50):
                j = d.const()
            else:
                j = g.pick(same)
            o = g.pick(['add', 'subtract', 'multiply', 'maximum', 'minimum'])
            p = {'via': 'op'} if o not in ('maximum', 'minimum') else {}
            r = d.apply(o, [i, j] if g.chance(60) else [j, i], p)
            if r is not None:
                same.append(r)
        elif t == 'red':
            o = g.pick(['sum', 'mean', 'amax', 'amin', 'cumsum', 'SumOfSquares'])
            p = {}
            if o in ('sum', 'mean', 'amax', 'amin'):
                p = {'axis': g.pick([None] + list(range(-nd, nd)))}
            r = d.apply(o, [i], p)
        elif t == 're':
            o = g.pick(['tile', 'repeat', 'roll', 'sort', 'transpose', 'reshape', 'atleast_2d', 'atleast_3d', 'rollaxis', 'swapaxes'])
            nd2 = d.vals[i].ndim
            p = {'tile': lambda: {'reps': g.pick([2, [2], [1, 2]])}, 'repeat': lambda: {'n': g.int(1, 3), 'axis': g.pick([None, 0, -1])},
                 'roll': lambda: {'n': g.int(-2, 3), 'axis': g.pick([None, 0, -1])}, 'sort': lambda: {'axis': g.pick([-1, 0])},
                 'transpose': lambda: {'axes': None, 'via': 'T'}, 'reshape': lambda: {'shape': [-1], 'via': g.pick(['ravel', 'meth', 'fn'])},
                 'rollaxis': lambda: {'axis': nd2 - 1, 'start': 0}, 'swapaxes': lambda: {'x': 0, 'y': -1}}.get(o, lambda: {})()
            r = d.apply(o, [i], p)
        elif t == 'cat':
            k = g.int(1, 2)
            r = d.apply('concatenate', [i] + [g.pick(same) for _ in range(k)], {'axis': g.pick([0, -1])})
        else:
            r = d.apply('tensordot' if g.chance(0) else 'dot', [d.apply('reshape', [i], {'shape': [-1], 'via': 'ravel'}),
                                                               d.apply('reshape', [g.pick(same)], {'shape': [-1], 'via': 'ravel'})], {'via': 'op'})
        if r is not None and r not in same:
            allm.append(r)
    # join a few results smoothly
    made = [m for m in same if m not in leaves] + allm
    if not made:
        made = [d.apply('sin', [leaves[0]])]
    fin = []
    for m in made[-3:]:
        s = d.apply('SumOfSquares' if g.chance(50) else 'sum', [m], {})
        if s is not None:
            fin.append(s)
    if len(fin) >= 2:
        r = d.apply('multiply', fin[:2], {'via': 'op'})
        if r is not None:
            made.append(r)
    return d, made, leaves


def generate(g, tier):
    from vlib import gen, large
    if g.chance(1) and g.chance(40):
        return large.gen_many(g)
    poly = g.chance(35)
    if poly:
        d, made, leaves = poly_dag(g)
        outs = [m for m in made if m is not None][-4:]
    else:
        d, made = gen.gen_dag(g, 'deriv', max_ops=7, min_ops=2, max_size=12)
        outs = [gen.best_out(g, d, made)]
        if g.chance(50):
            outs.append(g.pick(made))
    nodes, mp = gen.prune(d.nodes, outs)
    outs = sorted(set(mp[o] for o in outs))
    leaves = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    chn = [i for i, n in enumerate(nodes) if n['o'] != 'const']
    inner = [i for i in chn if nodes[i]['o'] != 'leaf']
    shapes = {i: list(v.shape) for i, v in ((mp[o], d.vals[o]) for o in mp) if not isinstance(v, (int, float))}
    steps = []
    for _ in range(g.int(4, 16)):
        t = g.weighted([(34, 'set'), (30, 'get'), (36, 'dr'), (8, 'shape' if poly else 'redef'), (7, 'param'), (5, 'extra'), (2, 'drop'), (4, 'lop')])
        if t == 'set':
            l = g.pick(leaves)
            how = g.pick(['x', 'all', 'key', 'key', 'view', 'set', 'call', 'setlabel', 'elem'])
            st = {'t': 'set', 'n': l, 'how': how}
            s = shapes[l]
            if how in ('key', 'elem', 'view'):
                s2 = s
                if how == 'view':
                    st['v1'] = g.pick(['ravel', 'T', 'flip'])
                    s2 = {'ravel': [gen.size_of(s)], 'T': s[::-1], 'flip': s}[st['v1']]
                k = gen.index_key(g, s2, allow_adv=(how != 'elem'))
                import numpy as np
                sub = np.empty(s2)[ops.key_of(k)].shape
                st['key'] = k
                st['v'] = ops.enc(gen.values(g, list(sub), g.pick(['generic', 'distinct'])))
                # repeated indices with distinct values: NumPy leaves the winner unspecified in general
                pos = np.arange(int(np.prod(s2))).reshape(s2)[ops.key_of(k)].ravel()
                if len(set(pos.tolist())) != len(pos):
                    st['v'] = ops.enc(np.full(sub, g.int(-20, 20) / 8.0))
                if g.chance(20):
                    st['v'] = g.int(-20, 20) / 8.0
            else:
                st['v'] = ops.enc(gen.values(g, s, g.pick(['generic', 'distinct'])))
            steps.append(st)
        elif t == 'shape':
            nd = len(shapes[leaves[0]])
            s = gen.shape(g, 12, nd, nd)
            if g.chance(50):       # the same number of elements, arranged differently
                old = shapes[leaves[0]]
                s = [old[k] for k in g.perm(nd)]
                if g.chance(50):
                    s, m = [], gen.size_of(old)
                    for _ in range(nd - 1):
                        s.append(g.pick([k for k in range(1, m + 1) if m % k == 0]))
                        m //= s[-1]
                    s.append(m)
            steps.append({'t': 'shape', 'v': [ops.enc(gen.values(g, s, g.pick(['generic', 'distinct']))) for _ in leaves],
                          'how': g.pick(['x', 'set'])})
            for l in leaves:
                shapes[l] = s
        elif t == 'get':
            steps.append({'t': 'get', 'n': g.pick(outs) if g.chance(50) else g.pick(chn)})
        elif t in ('dr', 'lop'):
            n = g.pick(outs) if g.chance(55) else g.pick(inner or outs)
            steps.append({'t': t, 'n': n, 'w': g.pick(leaves), 'rev': int(g.chance(25))})
        elif t == 'redef':
            n = g.pick(inner)
            o = nodes[n]['o']
            if o not in ops.TERM_NAMES or o in ops._CMP:
                continue
            k = g.int(0, len(ops.TERM_NAMES[o]) - 1)
            old = nodes[n]['a'][k]
            if old not in shapes:
                continue
            c = [i for i in chn if i < n and shapes[i] == shapes[old] and i != old]
            if not c:
                continue
            steps.append({'t': 'redef', 'n': n, 'k': k, 'to': g.pick(c)})
        elif t == 'param':
            c = [i for i in inner if nodes[i]['o'] in ('clip', 'roll', 'MatVecMult') + REDUCE]
            if not c:
                continue
            n = g.pick(c)
            o = nodes[n]['o']
            if o == 'clip':
                lo = g.pick([-1.13, -0.61, 0.17])
                steps.append({'t': 'param', 'n': n, 'p': {'lo': lo} if g.chance(50) else {'hi': lo + 2.7}})
            elif o in REDUCE:
                nd2 = len(shapes[nodes[n]['a'][0]]) if nodes[n]['a'][0] in shapes else 1
                steps.append({'t': 'param', 'n': n, 'p': {'axis': g.pick(list(range(-nd2, nd2)) + [None])}})
            elif o == 'roll':
                steps.append({'t': 'param', 'n': n, 'p': {'n': g.int(-3, 3)}})
            else:
                m = ops.dec(nodes[n]['p']['m'])
                steps.append({'t': 'param', 'n': n, 'p': {'m': ops.enc(gen.values(g, list(m.shape), 'generic')), 'sparse': int(g.chance(50))}})
        elif t == 'extra':
            steps.append({'t': 'extra', 'n': g.pick(chn), 'q': g.int(0, 2), 'w': g.pick(leaves)})
        else:
            steps.append({'t': 'drop'})
    return {'nodes': nodes, 'outs': outs, 'steps': steps}


PNAME = {('clip', 'lo'): 'a_min', ('clip', 'hi'): 'a_max', ('roll', 'n'): 'shift', ('MatVecMult', 'm'): 'mtx'}
PNAME.update({(o, 'axis'): 'axis' for o in REDUCE})


def fits(nodes, i, p):
    """Whether the node may take the parameter: everything using it accepts the new shape."""
    import numpy as np
    try:
        vals = ops.ref_eval(nodes, [i])
        new = np.atleast_1d(ops.OPS[nodes[i]['o']].ref([vals[j] for j in nodes[i]['a']], dict(nodes[i].get('p') or {}, **p)))
    except Exception:
        return False
    if new.shape == vals[i].shape:
        return True
    users = [n for n in nodes if i in n.get('a', ())]
    return all(n['o'] == 'SumOfSquares' or (n['o'] in ('sum', 'mean') and (n.get('p') or {}).get('axis') is None) for n in users)


def check(case, ctx):
    import numpy as np
    import scipy.sparse as sp
    import chumpy as ch
    from vlib import util
    from vlib.util import check_jac, check_value, dense, require
    if 'kind' in case:
        from vlib import large
        return large.check_many(case, ctx)
    nodes = copy.deepcopy(case['nodes'])
    built = ops.ch_build(ch, nodes)
    extras = []
    queried, changed_after, nt = set(), False, False
    margins = {}

    def safe(i):
        idx = ops.needed(nodes, [i])
        try:
            vals = ops.ref_eval(nodes, [i])
        except np.linalg.LinAlgError:
            return False, None
        return ops.margin(nodes, vals, idx) > 1e-3, vals

    def query(i, w, kind, where):
        ok, vals = safe(i)
        if not ok:
            ctx.label('unsafe-skipped')
            return False
        if kind == 'get':
            check_value(built[i].r, vals[i], '%s: value of node %d (%s)' % (where, i, nodes[i]['o']), rtol=1e-7, atol=1e-8)
        else:
            want = ops.ref_jac(nodes, i, w)
            if kind == 'lop':
                lhs = np.array([np.cos(np.arange(want.shape[0]))])
                J = built[i].lop(built[w], lhs)
                want = lhs.dot(want)
                if J is not None and not sp.issparse(J) and np.size(J) == 1 and want.size == 1:
                    J = np.reshape(np.asarray(J, dtype=np.float64), (1, 1))
            elif kind == 'rev':
                J = built[i].dr_wrt(built[w], reverse_mode=True)
            else:
                J = built[i].dr_wrt(built[w])
            check_jac(J, want, '%s: derivative of node %d (%s) wrt input %d [%s]' % (where, i, nodes[i]['o'], w, kind))
        return True

    for si, s in enumerate(case['steps']):
        where = 'step %d' % si
        t = s['t']
        if t in ('set', 'shape', 'redef', 'param') and queried:
            changed_after = True
        ctx.label(t if t != 'set' else 'set-' + s['how'])
        if t == 'set':
            l = s['n']
            leaf = built[l]
            cur = np.array(ops.dec(nodes[l]['v']), dtype=np.float64)
            how = s['how']
            v = ops.dec(s['v'])
            if how in ('key', 'elem'):
                k = ops.key_of(s['key'])
                leaf[k] = v
                cur[k] = v
            elif how == 'view':
                k = ops.key_of(s['key'])
                if s['v1'] == 'ravel':
                    view, mv = leaf.ravel(), cur.reshape(-1)
                elif s['v1'] == 'T':
                    view, mv = leaf.T, cur.T
                else:
                    view, mv = leaf[::-1], cur[::-1]
                view[k] = v
                mv[k] = v
            else:
                v = np.array(v)
                if how == 'x':
                    leaf.x = v.copy()
                elif how == 'all':
                    leaf[:] = v
                elif how == 'set':
                    leaf.set(x=v.copy())
                elif how == 'call':
                    r = leaf(x=v.copy())
                    check_value(r, v, where + ': value returned by a call', rtol=0, atol=0)
                else:
                    leaf.set(x=v.copy(), label='q')
                cur = v
            nodes[l]['v'] = ops.enc(cur)
        elif t == 'shape':
            for l, v in zip([i for i, n in enumerate(nodes) if n['o'] == 'leaf'], s['v']):
                if s['how'] == 'x':
                    built[l].x = ops.dec(v)
                else:
                    built[l].set(x=ops.dec(v))
                nodes[l]['v'] = v
        elif t == 'redef':
            # (Python itself may evaluate a > b as b < a, which swaps the operands)
            if nodes[s['n']]['o'] in ops.TERM_NAMES and nodes[s['n']]['o'] not in ops._CMP:
                name = ops.TERM_NAMES[nodes[s['n']]['o']][s['k']]
            else:
                continue
            setattr(built[s['n']], name, built[s['to']])
            nodes[s['n']]['a'][s['k']] = s['to']
        elif t == 'param':
            n = nodes[s['n']]
            if n['o'] in REDUCE and not fits(nodes, s['n'], s['p']):
                continue
            for k, v in s['p'].items():
                if k == 'sparse':
                    continue
                val = v
                if k == 'm':
                    val = ops.dec(v)
                    if s['p'].get('sparse'):
                        import scipy.sparse as sp
                        val = sp.csc_matrix(val)
                setattr(built[s['n']], PNAME[(n['o'], k)], val)
            n['p'] = dict(n.get('p') or {}, **s['p'])
            if n['o'] == 'clip' and n['p']['lo'] >= n['p']['hi']:
                n['p']['hi'] = n['p']['lo'] + 1.0
                built[s['n']].a_max = n['p']['hi']
        elif t == 'get':
            if query(s['n'], None, 'get', where):
                nt = nt or changed_after
                queried.add(s['n'])
        elif t in ('dr', 'lop'):
            if query(s['n'], s['w'], 'lop' if t == 'lop' else ('rev' if s['rev'] else 'dr'), where):
                nt = nt or changed_after
                queried.add(s['n'])
        elif t == 'extra':
            if not safe(s['n'])[0]:
                continue
            e = ch.sin(built[s['n']]) if s['q'] != 1 else built[s['n']] * 2.0
            if s['q'] >= 1:
                _ = e.r
            if s['q'] == 2:
                _ = e.dr_wrt(built[s['w']])
            extras.append(e)
            e = None
        elif t == 'drop':
            del extras[:]
            util.real_collect()
    for o in case['outs']:
        query(o, None, 'get', 'end')
        for w in [i for i in ops.needed(nodes, [o]) if nodes[i]['o'] == 'leaf']:
            query(o, w, 'dr', 'end')
    return nt
