"""C20: dropped expressions are released."""
from vlib import ops, views

RULE = ('Several random expressions over long-lived inputs are built, queried (values, forward and reverse derivatives, left products, derivatives with respect to selections, views and intermediates), changed, copied, pickled, '
        'walked, printed, replaced in, deduplicated, minimised, and then dropped, in a random interleaving; some sub-expressions stay referenced. After a garbage collection weak references to every dropped node that no kept expression uses, and to '
        'every dropped selection used only as a variable of differentiation, must be dead, while kept ones still work and follow a change of the inputs. '
        'Non-trivial: at least three nodes were dropped after at least two queries.')
CASES = {'quick': 2000, 'thorough': 40000}
ASSUMPTIONS = ['reclaimable means gone after a full garbage collection (reference cycles may delay it)',
               'a part that was replaced may be held until the expression is evaluated again']

ACTS = ['r', 'dr', 'dr', 'rev', 'lop', 'selwrt', 'viewwrt', 'inter', 'set', 'copy', 'pickle', 'walk', 'str', 'replace', 'dedup', 'min', 'group', 'replace_old']


def generate(g, tier):
    from vlib import gen
    graphs = []
    for _ in range(g.int(1, 3)):
        d, made = gen.gen_dag(g, 'deriv', max_ops=6, min_ops=2, max_size=12)
        o = gen.best_out(g, d, made)
        nodes, mp = gen.prune(d.nodes, [o])
        acts = []
        ch = [i for i, n in enumerate(nodes) if n['o'] not in ('const', 'leaf')]
        lv = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
        for _ in range(g.int(1, 7)):
            a = {'a': g.pick(ACTS), 'n': len(nodes) - 1 if g.chance(60) else g.pick(ch), 'w': g.pick(lv)}
            if a['a'] == 'selwrt':
                a['key'] = gen.index_key(g, nodes[a['w']]['v']['s'] or [1], allow_adv=False)
            if a['a'] == 'viewwrt':
                a['view'] = views.gen_chain(g, nodes[a['w']]['v']['s'] or [1], g.int(1, 2))
            if a['a'] == 'inter':
                a['m'] = g.pick(ch)
            acts.append(a)
        keep = g.subset(ch[:-1], 0) if g.chance(45) else []
        graphs.append({'nodes': nodes, 'acts': acts, 'keep': keep[:2]})
    return {'graphs': graphs}


def _use(gr, leaves, refs, kept, temps, counts):
    """Everything strong stays in this frame."""
    import weakref
    import pickle
    import io
    import numpy as np
    import chumpy as ch
    nodes = gr['nodes']
    built = ops.ch_build(ch, nodes, leaves)
    for i, n in enumerate(nodes):
        if n['o'] not in ('leaf', 'const'):
            refs[i] = weakref.ref(built[i])
    root = built[len(nodes) - 1]
    for a in gr['acts']:
        y, x = built[a['n']], built[a['w']]
        t = a['a']
        counts[0] += 1
        if t == 'r':
            y.r
        elif t == 'dr':
            y.dr_wrt(x)
        elif t == 'rev':
            y.dr_wrt(x, reverse_mode=True)
        elif t == 'lop':
            y.lop(x, np.ones((1, y.size)))
        elif t == 'selwrt':
            s = x[ops.key_of(a['key'])]
            y.dr_wrt(s)
            y.dr_wrt(s)
            temps.append((weakref.ref(s), 'a selection used to differentiate node %d' % a['n']))
        elif t == 'viewwrt':
            s = views.build(ch, x, a['view'])
            y.dr_wrt(s)
            if s is not x:
                temps.append((weakref.ref(s), 'a view used to differentiate node %d' % a['n']))
        elif t == 'inter':
            y.dr_wrt(built[a['m']])
        elif t == 'set':
            x.x = np.array(x.r) * 1.015625
            root.r
        elif t == 'copy':
            c = y.copy()
            c.r
            for q in c.tree_iterator():
                temps.append((weakref.ref(q), 'a node of a copy'))
            q = None
        elif t == 'pickle':
            has_lambda = any(n['o'] == 'lambda' for n in nodes)
            if not has_lambda:
                c = pickle.loads(pickle.dumps(y))
                temps.append((weakref.ref(c), 'an unpickled expression'))
        elif t == 'walk':
            k = [q for q in y.tree_iterator()]
            counts[1] += len(k)
        elif t == 'str':
            str(y), repr(y)
            y.print_labeled_residuals(where_to_print=io.StringIO())
        elif t in ('replace', 'replace_old'):
            c = ch.Ch(np.array(x.r)) if t == 'replace' else x * 1.0
            z = y + ch.sum(x)
            z.dr_wrt(x)
            z.replace(x, c)
            z.dr_wrt(c)
            z.replace(c, x)
            z.dr_wrt(x)
            temps.append((weakref.ref(c), 'a part that was replaced'))
            temps.append((weakref.ref(z), 'an expression built on a kept one'))
        elif t == 'dedup':
            q, q2 = y * 2.0, y * 2.0
            temps += [(weakref.ref(q), 'a duplicate'), (weakref.ref(q2), 'a duplicate')]
            z = q + q2
            q = q2 = None
            z.r
            z.remove_redundancy()
            z.dr_wrt(x)
            temps.append((weakref.ref(z), 'a deduplicated expression'))
        elif t == 'min':
            before = np.array(x.r)
            z = x - np.array(x.r) * 0.5
            e = ch.SumOfSquares(x * 0.25)
            temps.append((weakref.ref(z), 'a minimised expression'))
            temps.append((weakref.ref(e), 'a part of a minimised objective'))
            ch.minimize({'z': z, 'e': e}, x0=[x], method='dogleg', options={'maxiter': 3, 'disp': 0})
            x.x = before
        elif t == 'group':
            l = ch.ChLambda(lambda u: u * 2.0 + 1.0)
            l.u = y
            l.dr_wrt(x)
            l.u = x
            l.r
            temps.append((weakref.ref(l), 'a deferred expression'))
    for i in gr['keep']:
        kept[i] = built[i]


def check(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, real_collect, check_value, check_jac
    state = []
    counts = [0, 0]
    for gi, gr in enumerate(case['graphs']):
        nodes = gr['nodes']
        leaves = {i: ops.make_leaf(ch, ops.dec(n['v']), n.get('via')) for i, n in enumerate(nodes) if n['o'] == 'leaf'}
        refs, kept, temps = {}, {}, []
        _use(gr, leaves, refs, kept, temps, counts)
        state.append((gr, leaves, refs, kept, temps))
    _scrub(60)
    # a few rounds: weak-reference tables are cleaned up one collection late
    for _ in range(3):
        real_collect()
        if not any(_live(s) for s in state):
            break
    dropped = 0
    for gr, leaves, refs, kept, temps in state:
        live = _live((gr, leaves, refs, kept, temps))
        if live:
            # keep trying before concluding
            for _ in range(3):
                _scrub(120)
                real_collect()
            live = _live((gr, leaves, refs, kept, temps))
        require(not live, 'still alive after being dropped: %s', '; '.join(live[:6]))
        dropped += len(refs) - len(ops.needed(gr['nodes'], list(kept))) + len(temps)
        # what was kept still works
        nodes = [dict(n) for n in gr['nodes']]
        for i in leaves:
            v = np.array(leaves[i].r) * (1 + 2.0 ** -7)
            leaves[i].x = v
            nodes[i]['v'] = ops.enc(v)
        for i, y in kept.items():
            with np.errstate(all='ignore'):
                base = ops.ref_eval(nodes, [i])
                if ops.margin(nodes, base, ops.needed(nodes, [i])) < 1e-3:
                    continue
            check_value(y.r, base[i], 'kept node %d' % i)
    ctx.label(*[a['a'] for gr in case['graphs'] for a in gr['acts']])
    if any(gr['keep'] for gr in case['graphs']):
        ctx.label('kept-part')
    return dropped >= 3 and counts[0] >= 2


def _scrub(n):
    """Overwrite stale stack slots, so that nothing is kept alive by accident."""
    return 0 if n == 0 else 1 + _scrub(n - 1)


def _live(s):
    gr, leaves, refs, kept, temps = s
    keep = set(ops.needed(gr['nodes'], list(kept)))
    out = ['node %d (%s)' % (i, gr['nodes'][i]['o']) for i, r in refs.items() if i not in keep and r() is not None]
    return out + [w for r, w in temps if r() is not None]
