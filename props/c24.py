"""C24: work is shared and nothing is computed in vain."""
from vlib import ops

RULE = ('A random DAG with heavily shared sub-expressions (chains in which each expression uses the one before several times, diamonds, repeated operands, deferred functions, stacks) over 1-4 inputs is built and every node reachable from it is instrumented from outside to record each computation of its value and of its local derivatives. '
        'A random history of input changes and of value and forward derivative queries is run. A dependency model decides which values may be computed: each at most once after a change of something the node depends on, none otherwise; in one forward derivative query each local derivative is computed at most once; '
        'a repeated query of an expression nobody uses computes nothing. Values and derivatives are compared with the reference. Non-trivial: a change after a query, followed by a query, in a graph where some node has two or more users.')
CASES = {'quick': 6000, 'thorough': 250000}
ASSUMPTIONS = ['derivatives of an expression used by exactly one other expression are not kept between queries (documented trade-off)', 'points away from kinks for the derivative comparisons']


# operations that come alone, without further expressions using them
SIMPLE = set(['exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'sqrt', 'square', 'reciprocal', 'negative', 'absolute', 'add', 'subtract', 'multiply', 'divide', 'power', 'sum', 'mean', 'dot', 'maximum', 'minimum', 'SumOfSquares', 'clip', 'lambda'])


def generate(g, tier):
    from vlib import gen
    if g.chance(40):
        # towers: every level uses the level below several times
        d = gen.Dag(g, 'deriv', 12, 2)
        shp = gen.shape(g, 6, 2)
        lv = [d.leaf(shp) for _ in range(g.int(1, 3))]
        cur = list(lv)
        for _ in range(g.int(3, 14)):
            o = g.pick(['add', 'multiply', 'subtract', 'sin', 'maximum', 'concat', 'lambda'])
            a, b = cur[-1], g.pick(cur[-3:])
            if o == 'sin':
                r = d.apply(g.pick(['sin', 'arctan', 'cos']), [a])
            elif o in ('concat', 'lambda'):
                r = d.apply('arctan', [d.apply('add', [a, b], {'via': 'op'})])
            else:
                r = d.apply(o, [a, b], {'via': 'op'} if o != 'maximum' else {})
            if r is not None and float(abs(d.vals[r]).max()) > 50.0:
                r = d.apply('arctan', [r])
            if r is not None:
                cur.append(r)
        out = cur[-1]
        if out in lv:
            out = d.apply('sin', [out])
        nodes, mp = gen.prune(d.nodes, [out])
    else:
        d, made = gen.gen_dag(g, 'deriv', max_ops=9, min_ops=2, max_size=12)
        outs = [gen.best_out(g, d, made)]
        if g.chance(50):
            outs.append(g.pick(made))
        nodes, mp = gen.prune(d.nodes, outs)
    ch = [i for i, n in enumerate(nodes) if n['o'] != 'const']
    lv = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    inner = [i for i in ch if nodes[i]['o'] != 'leaf'] or ch
    steps = []
    for _ in range(g.int(3, 10)):
        t = g.weighted([(30, 'get'), (34, 'dr'), (28, 'set'), (8, 'same')])
        s = {'t': t, 'n': len(nodes) - 1 if g.chance(55) else g.pick(inner), 'w': g.pick(lv)}
        if t in ('set', 'same'):
            s['n'] = g.pick(lv)
            s['f'] = g.pick([1.03125, 0.96875, 1.0625]) if not g.chance(6) else g.pick([float('nan'), float('inf'), 0.0])
            s['how'] = g.pick(['x', 'item', 'elem'])
        steps.append(s)
    return {'nodes': nodes, 'steps': steps}


def children(n):
    return [c for c in [getattr(n, t) for t in n.dterms if hasattr(n, t)] if hasattr(c, 'dterms')]


def check(case, ctx):
    import numpy as np
    import chumpy as ch
    from vlib.util import require, check_value, check_jac
    nodes = [dict(n) for n in case['nodes']]
    built = ops.ch_build(ch, nodes)
    LOG = []
    allobj, valid, users = {}, {}, {}

    def instrument(n):
        r0, d0 = n.compute_r, n.compute_dr_wrt

        def compute_r():
            LOG.append(('r', id(n)))
            return r0()

        def compute_dr_wrt(wrt):
            res = d0(wrt)
            if res is not None:
                LOG.append(('dr', id(n), id(wrt)))
            return res
        object.__setattr__(n, 'compute_r', compute_r)
        object.__setattr__(n, 'compute_dr_wrt', compute_dr_wrt)
    # operations that compute through private expressions of their own are left alone, like those above which they are
    OWN = ('Pinv', 'Interp3D', 'SvdU', 'SvdV', 'ChGroup')
    # a deferred function re-binds the handles of its result when it is evaluated: values are compared, the work is not counted
    BIND = ('ChLambda', 'ChHandle')

    def survey():
        """All objects of the graph as it is now (deferred functions bind their arguments when they are first evaluated)."""
        seen, todo = {}, [b for b in built.values() if hasattr(b, 'dterms')]
        while todo:
            n = todo.pop()
            if id(n) not in seen:
                seen[id(n)] = n
                todo += children(n)
        users.clear()
        for k, n in seen.items():
            if k not in allobj:
                allobj[k] = n
                instrument(n)
                valid[k] = None      # building may have asked for values (shapes); from here on everything is counted
            for c in set(id(c) for c in children(n)):
                users.setdefault(c, set()).add(k)
    survey()
    private = any(type(n).__name__ in OWN for n in allobj.values())
    binding = any(type(n).__name__ in BIND for n in allobj.values())
    name = {id(b): 'node %d (%s)' % (i, nodes[i]['o']) for i, b in built.items() if hasattr(b, 'dterms')}

    def above(k):
        seen, todo = set(), [k]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += users.get(x, ())
        return seen

    def flush(where, forward):
        count = {}
        for e in LOG:
            k = e[1]
            if binding:
                continue
            who = name.get(k, type(allobj[k]).__name__)
            if e[0] == 'r':
                require(valid[k] is not True, '%s: the value of %s is computed again although nothing it depends on changed', where, who)
                valid[k] = True
            elif forward:
                count[e[1:]] = count.get(e[1:], 0) + 1
                require(count[e[1:]] <= 1, '%s: the derivative of %s with respect to one operand is computed several times in one query', where, who)
        n = 0 if binding else len(LOG)
        del LOG[:]
        return n

    def usable(i):
        with np.errstate(all='ignore'):
            try:
                base = ops.ref_eval(nodes)
            except np.linalg.LinAlgError:
                return None
            return base if ops.margin(nodes, base, ops.needed(nodes, [i])) > 1e-3 and np.all(np.isfinite(base[i])) else None
    shared = any(len(u) > 1 for u in users.values())
    queried = changed = nt = False
    fresh = {}
    for si, s in enumerate(case['steps']):
        t, i = s['t'], s['n']
        where = 'step %d (%s of node %d)' % (si, t, i)
        y = built[i]
        survey()
        ctx.label(t)
        if t in ('set', 'same'):
            v = np.atleast_1d(ops.dec(nodes[i]['v'])).astype(float)
            odd = t == 'set' and not np.all(np.isfinite(v))
            if odd:
                v = np.atleast_1d(ops.dec(case['nodes'][i]['v'])).astype(float)
            if t == 'set':
                if s['how'] == 'elem':
                    v = v.copy()
                    v.ravel()[0] *= s['f']
                else:
                    v = v * s['f']
            if s['how'] == 'x':
                y.x = v.copy()
            elif s['how'] == 'item' or odd:
                y[...] = v
            else:
                y[(0,) * v.ndim] = v.ravel()[0]
            nodes[i]['v'] = ops.enc(v)
            for k in above(id(y)):
                valid[k] = False
            fresh.clear()
            require(binding or not LOG or not any(valid[e[1]] is True for e in LOG if e[0] == 'r'), '%s: changing an input computes values', where)
            del LOG[:]
            changed = changed or queried
        elif t == 'get':
            base = usable(i)
            if base is None:
                # the work is shared wherever we are
                try:
                    y.r
                except Exception:
                    for k in valid:
                        valid[k] = False
                    del LOG[:]
                    continue
                ctx.label('odd-value')
            else:
                check_value(y.r, base[i], where)
            flush(where, False)
            y.r
            require(flush(where, False) == 0, '%s: a repeated query computes something', where)
            nt, queried = nt or changed, True
        else:
            base = usable(i)
            if base is None or i == s['w'] or private:
                continue
            x = built[s['w']]
            J = y.dr_wrt(x)
            n = flush(where, True)
            if (i, s['w']) in fresh and not users.get(id(y)) and nodes[i]['o'] in SIMPLE:
                require(n == 0, '%s: a repeated derivative query computes something although nothing changed', where)
                ctx.label('derivative-kept')
            fresh[(i, s['w'])] = True
            check_jac(J, ops.ref_jac(nodes, i, s['w'], base), where)
            del LOG[:]
            nt, queried = nt or changed, True
    return nt and shared
