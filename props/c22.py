"""C22: inspection reports the true graph and changes nothing."""
from vlib import ops

RULE = ('A random DAG (shared sub-expressions, repeated operands, constants, deferred functions, stacks) is built with the DEBUG or VERBOSE switches of the library off, on, or switched during the run; nodes get labels; a random sequence of value and derivative '
        'queries, input changes and inspections (walking by iterator and by visitor function, residual report with various precisions, text forms, tree drawing, profiling) is run with standard output captured. Each walk must yield every node reachable '
        'through the operands exactly once and nothing else; the report must list exactly the labelled parts with their current sums of squares and end with the total; the drawing must contain exactly the edges of the graph; and after each step values and derivatives must equal '
        'the reference for the same inputs. In 3 % of the cases a minimisation is run with the diagnostics on and off and must give the same. Non-trivial: at least three operations, one inspection, and one query after it.')
CASES = {'quick': 4500, 'thorough': 150000}
ASSUMPTIONS = ['the external programs used for drawing (dot, the web browser) are replaced by stand-ins that record what they are given',
               'points away from kinks']

SIMPLE = set(['exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'sqrt', 'square', 'reciprocal', 'negative', 'absolute', 'add', 'subtract', 'multiply', 'divide', 'power', 'sum', 'mean', 'dot',
              'maximum', 'minimum', 'SumOfSquares', 'clip', 'amax', 'amin', 'cumsum', 'inv', 'MatVecMult', 'NanDivide', 'transpose', 'tile', 'repeat', 'roll', 'swapaxes', 'rollaxis', 'diag', 'sort',
              'floor', 'ceil', 'sign', 'greater', 'less', 'equal', 'getitem', 'cross', 'rot90', 'diagflat', 'lambda', 'atleast_1d', 'atleast_2d', 'atleast_3d'])
# operations that replace nested applications of themselves by one
MERGED = set(['reshape', 'concatenate', 'hstack', 'vstack', 'dstack', 'concatflat', 'squeeze', 'expand_dims', 'tensordot'])
LABELS = ['data', 'prior', 'x', 'smooth term', 'e1', 'e1', '']


def gen_debug_min(g):
    n = g.int(1, 4)
    return {'kind': 'debugmin', 'x': [g.int(-16, 16) / 8.0 for _ in range(n)], 'a': [g.int(-8, 8) / 8.0 + 2.125 for _ in range(n)], 'b': [g.int(-16, 16) / 8.0 for _ in range(n)],
            'form': g.pick(['expr', 'list', 'dict']), 'dense': g.int(0, 1), 'sel': g.int(0, 1), 'flag': g.pick(['DEBUG', 'DEBUG', 'VERBOSE']), 'built': g.int(0, 1), 'exists': g.int(0, 1)}


def run_debug_min(case, ctx):
    """A minimisation gives the same with the diagnostics on (the profile goes to a scratch folder)."""
    import os
    import json
    import shutil
    import tempfile
    import numpy as np
    import chumpy as ch
    import chumpy.ch as core
    from chumpy.monitor import DrWrtProfiler
    from vlib.util import require
    old = DrWrtProfiler.base_path
    tmp = tempfile.mkdtemp(prefix='verif_c22_')
    got = []
    try:
        DrWrtProfiler.base_path = os.path.join(tmp, 'profiles')
        if case['exists']:
            os.mkdir(DrWrtProfiler.base_path)
        for on in (False, True):
            core.DEBUG = core.VERBOSE = False
            if on and case['built']:
                setattr(core, case['flag'], True)
            x = ch.array(case['x'])
            f = ch.array(case['a']) * x + ch.sin(x) * 0.25 + np.array(case['b'])
            h = ch.concatenate([x, x[::-1]]) * 0.125
            obj = {'expr': ch.concatenate([f, h]), 'list': [f, h], 'dict': {'f': f, 'h': h}}[case['form']]
            if on:
                setattr(core, case['flag'], True)
            before = sum(float(np.sum(q.r ** 2)) for q in (f, h))
            ch.minimize(obj, [x[:1]] if case['sel'] else [x], method='dogleg', options={'disp': False, 'treat_as_dense': bool(case['dense'])})
            after = sum(float(np.sum(q.r ** 2)) for q in (f, h))
            require(after <= before, 'diagnostics %s: the sum of squares went from %r to %r', on, before, after)
            got.append((np.array(x.r), np.array(f.r)))
            if on and case['flag'] == 'DEBUG':
                names = sorted(os.listdir(DrWrtProfiler.base_path))
                require(any(q.startswith('root') for q in names) and any(q.startswith('profile') for q in names), 'no profile was written: %s', names)
                for q in names:
                    with open(os.path.join(DrWrtProfiler.base_path, q)) as fh:
                        json.load(fh)
    finally:
        DrWrtProfiler.base_path = old
        shutil.rmtree(tmp)
    for p, q in zip(*got):
        require(np.allclose(p, q, rtol=1e-9, atol=1e-9), 'minimising with %s on gives %s, without %s', case['flag'], q, p)
    ctx.label('minimise-' + case['flag'])
    return True


def generate(g, tier):
    from vlib import gen
    if g.chance(3):
        return gen_debug_min(g)
    d, made = gen.gen_dag(g, 'deriv', max_ops=8, min_ops=2, max_size=12)
    nodes, mp = gen.prune(d.nodes, [gen.best_out(g, d, made)])
    ch = [i for i, n in enumerate(nodes) if n['o'] != 'const']
    lv = [i for i, n in enumerate(nodes) if n['o'] == 'leaf']
    steps = []
    for _ in range(g.int(2, 9)):
        t = g.weighted([(14, 'r'), (14, 'dr'), (6, 'rev'), (10, 'set'), (12, 'walk'), (12, 'visit'), (18, 'report'), (6, 'text'), (8, 'label'), (5, 'verbose'), (6, 'debug'), (6, 'draw'), (3, 'drawwrt'), (4, 'drawcache'), (5, 'profile'), (4, 'children'), (6, 'uses')])
        s = {'t': t, 'n': len(nodes) - 1 if g.chance(65) else g.pick(ch), 'w': g.pick(lv)}
        if t == 'set':
            s['f'] = g.pick([1.03125, 0.96875])
            s['n'] = g.pick(lv)
        elif t == 'label':
            s['l'] = g.pick(LABELS)
        elif t == 'report':
            s['d'] = g.pick([None, 0, 1, 3, 8])
            s['nl'] = g.int(0, 3)
            s['to'] = g.int(0, 2)
        elif t in ('verbose', 'debug'):
            s['on'] = g.int(0, 1)
        elif t == 'draw':
            s['lim'] = g.pick([None, 0.0, 1e-6])
        elif t == 'visit':
            s['form'] = g.int(0, 2)
        elif t == 'uses':
            s['w'] = g.pick(ch)
        steps.append(s)
    labels = {str(i): g.pick(LABELS) for i in g.subset(ch) if g.chance(60)}
    return {'nodes': nodes, 'labels': labels, 'steps': steps, 'start': g.pick(['', '', 'DEBUG', 'VERBOSE'])}


def children(n):
    return [getattr(n, t) for t in n.dterms if hasattr(n, t)]


def closure(y):
    """Everything reachable through operands, by identity."""
    seen, todo = {}, [y]
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen[id(n)] = n
        todo += [c for c in children(n) if hasattr(c, 'dterms')]
    return seen


def check(case, ctx):
    import chumpy as ch
    import chumpy.ch as core
    import io
    import sys
    import subprocess
    import webbrowser
    old = core.DEBUG, core.VERBOSE, sys.stdout, subprocess.Popen, webbrowser.open, webbrowser.open_new, webbrowser.open_new_tab
    try:
        sys.stdout = io.StringIO()
        if case.get('kind') == 'debugmin':
            return run_debug_min(case, ctx)
        core.DEBUG, core.VERBOSE = case['start'] == 'DEBUG', case['start'] == 'VERBOSE'
        return run(case, ctx)
    finally:
        core.DEBUG, core.VERBOSE, sys.stdout, subprocess.Popen, webbrowser.open, webbrowser.open_new, webbrowser.open_new_tab = old


def run(case, ctx):
    import io
    import os
    import re
    import math
    import shutil
    import tempfile
    import subprocess
    import webbrowser
    import numpy as np
    import chumpy as ch
    import chumpy.ch as core
    from chumpy.utils import dfs_do_func_on_graph
    from vlib.util import require, check_value, check_jac, fail
    nodes = [dict(n) for n in case['nodes']]
    built = ops.ch_build(ch, nodes)
    labels = {}
    for k, l in case['labels'].items():
        built[int(k)].label = l
        labels[int(k)] = l
    drawn = []

    class Recorder(object):
        returncode, pid, stdout, stderr, stdin = 0, 0, None, None, None

        def __init__(self, args, *a, **k):
            self.args = cmd = args.split() if isinstance(args, str) else list(args)
            with open(cmd[-1]) as f:
                drawn.append(f.read())
            o = cmd[cmd.index('-o') + 1]
            if os.path.exists(o):
                os.remove(o)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def wait(self, timeout=None):
            return 0
        poll = wait

        def communicate(self, input=None, timeout=None):
            return b'', b''

        def kill(self):
            pass
    subprocess.Popen = Recorder
    webbrowser.open = webbrowser.open_new = webbrowser.open_new_tab = lambda *a, **k: True
    inspected = after = False

    def usable(i):
        with np.errstate(all='ignore'):
            base = ops.ref_eval(nodes, [i])
            return base if ops.margin(nodes, base, ops.needed(nodes, [i])) > 1e-3 else None

    def direct(i):
        """Built nodes that are certainly part of the graph of node i, with the leaves it uses."""
        need, todo, out = set(), [i], set()
        while todo:
            k = todo.pop()
            if k in need or nodes[k]['o'] == 'const':
                continue
            need.add(k)
            out.add(k)
            n = nodes[k]
            a = n.get('a', [])
            if n['o'] == 'lambda' and n['p']['f'] == 'unused':
                a = a[:1]
            if n['o'] in SIMPLE:
                todo += a
            else:
                # operands that might be merged away: only look through to what is certain
                todo += [m for m in a if nodes[m]['o'] == 'leaf' or nodes[m]['o'] in SIMPLE]
        return out

    for s in case['steps']:
        t, i = s['t'], s['n']
        y = built[i]
        what = '%s of node %d (%s)' % (t, i, nodes[i]['o'])
        if t == 'label':
            y.label = s['l']
            labels[i] = s['l']
        elif t == 'verbose':
            core.VERBOSE = bool(s['on'])
        elif t == 'debug':
            core.DEBUG = bool(s['on'])
        elif t == 'set':
            v = np.atleast_1d(ops.dec(nodes[i]['v'])) * s['f']
            y.x = v
            nodes[i]['v'] = ops.enc(v)
        elif t == 'r':
            base = usable(i)
            if base is not None:
                check_value(y.r, base[i], what)
                after = after or inspected
        elif t in ('dr', 'rev'):
            base = usable(i)
            if base is not None and i != s['w']:
                check_jac(y.dr_wrt(built[s['w']], reverse_mode=t == 'rev'), ops.ref_jac(nodes, i, s['w'], ops.ref_eval(nodes)), what)
                after = after or inspected
        elif t in ('walk', 'visit', 'children'):
            if t == 'walk':
                got = [n for n in y.tree_iterator()]
            elif t == 'visit':
                got = []
                if s['form'] == 0:
                    dfs_do_func_on_graph(y, got.append)
                else:
                    def visitor(n, tag, k=0):
                        require(tag == 'T' and k == (7 if s['form'] == 2 else 0), '%s: the visitor is not called with the given arguments', what)
                        got.append(n)
                    dfs_do_func_on_graph(y, visitor, 'T', **({'k': 7} if s['form'] == 2 else {}))
            else:
                got = []
                y.loop_children_do(got.append)
                uniq = {}
                for n in got:
                    uniq[id(n)] = n
                got = list(uniq.values())
            ids = [id(n) for n in got]
            require(len(set(ids)) == len(ids), '%s visits a node more than once', what)
            want = closure(y)
            require(set(ids) == set(want), '%s visits %d nodes, the expression consists of %d', what, len(ids), len(want))
            # by the program that was generated: nothing is missing, no foreign input is there
            for k in direct(i):
                require(id(built[k]) in want, '%s misses node %d (%s)', what, k, nodes[k]['o'])
            need = set(ops.needed(nodes, [i]))
            for k, n in enumerate(nodes):
                if n['o'] != 'const' and k not in need:
                    require(id(built[k]) not in set(ids), '%s visits node %d (%s), which is not part of the expression', what, k, n['o'])
            inspected = True
        elif t == 'report':
            if usable(i) is None:
                continue
            out = io.StringIO()
            kw = {'where_to_print': out} if s.get('to', 1) else {}
            if s['d'] is not None:
                kw['num_decimals'] = s['d']
            if s['nl'] == 0:
                kw['print_newline'] = False
            import sys
            real = sys.stderr       # (the default)
            sys.stderr = sys.stderr if kw.get('where_to_print') else out
            try:
                y.print_labeled_residuals(**kw)
            finally:
                sys.stderr = real
            fmt = '%.' + str(2 if s['d'] is None else s['d']) + 'e'
            text = out.getvalue()
            expect = {}
            for n in closure(y).values():
                if hasattr(n, 'label'):
                    expect.setdefault(n.label, []).append(float(np.sum(np.array(n.r) ** 2)))
            mine = {}
            for k in direct(i):
                if k in labels:
                    mine.setdefault(labels[k], []).append(float(np.sum(np.asarray(ops.ref_eval(nodes, [k])[k]) ** 2)))
            parts = text.split(' | ')
            tail = parts.pop()
            total = float(np.sum(np.array(y.r) ** 2))
            if s['nl'] == 0:
                require(tail == '', '%s ends with %r', what, tail)
            else:
                require(tail.endswith('\n') and near(tail[:-1], total, fmt), '%s ends with %r, the total is %r', what, tail, total)
            seen = {}
            for p in parts:
                l, _, v = p.rpartition(': ')
                seen.setdefault(l, []).append(v)
            require(set(seen) == set(expect), '%s lists %s, labelled are %s', what, sorted(seen), sorted(expect))
            for l in expect:
                for v in expect[l]:
                    require(any(near(z, v, fmt) for z in seen[l]), '%s: %r shown as %s, its sum of squares is %r', what, l, seen[l], v)
                for z in seen[l]:
                    require(any(near(z, v, fmt) for v in expect[l]), '%s: %r shown as %s, its sum of squares is %s', what, l, z, expect[l])
            for l in mine:
                require(l in seen, '%s does not list %r', what, l)
                for v in mine[l]:
                    require(any(near(z, v, fmt) for z in seen[l]), '%s: %r shown as %s, its sum of squares is %r', what, l, seen[l], v)
            inspected = True
        elif t == 'uses':
            w = built[s['w']]
            below = id(w) in closure(y) and (w is not y or type(y) is ch.Ch)
            require(bool(y.is_dr_wrt(w)) == below, '%s: node %d is said %sto be used', what, s['w'], '' if not below else 'not ')
            require(y.is_ch_baseclass() == (nodes[i]['o'] == 'leaf'), '%s: is_ch_baseclass', what)
            require(y.short_name == labels.get(i, type(y).__name__), '%s: short name %r', what, y.short_name)
            inspected = True
        elif t == 'text':
            base = usable(i)
            if base is not None:
                require(str(y) == str(y.r), 'text of node %d is %r', i, str(y))
                repr(y)
                inspected = True
        elif t in ('draw', 'drawwrt', 'drawcache'):
            was = core.DEBUG
            core.DEBUG = True
            del drawn[:]
            try:
                if t == 'draw':
                    y.show_tree(**({} if s['lim'] is None else {'cachelim': s['lim']}))
                elif t == 'drawwrt':
                    y.show_tree_wrt(built[s['w']])
                else:
                    # writes to a folder below the current one
                    here, tmp = os.getcwd(), tempfile.mkdtemp(prefix='verif_c22_')
                    os.chdir(tmp)
                    try:
                        y.show_tree_cache('picture', *([built[s['w']]] if s['w'] % 2 else []))
                    finally:
                        os.chdir(here)
                        shutil.rmtree(tmp)
            finally:
                core.DEBUG = was
            require(len(drawn) == 1, '%s draws %d pictures', what, len(drawn))
            got = set(re.findall(r'(\w+) -> (\w+);', drawn[0]))
            want = set()
            for n in closure(y).values():
                for c in children(n):
                    if hasattr(c, 'dterms'):
                        want.add((id(n), id(c)))
            require(len(got) == len(want), '%s shows %d edges, the expression has %d', what, len(got), len(want))
            for l in set(labels[k] for k in direct(i) if k in labels and (t != 'drawcache' or k != i)): # (that one only describes what is below)
                if len(direct(i)) > 1:
                    require(l in drawn[0], '%s does not show the label %r', what, l)
            inspected = True
        elif t == 'profile':
            from chumpy.monitor import DrWrtProfiler
            tmp = tempfile.mkdtemp(prefix='verif_c22_')
            try:
                class Root(object):
                    obj = y
                p = DrWrtProfiler(Root, base_path=tmp)
                p.record(y)
                p.record(built[s['w']])
                p.harvest()
                import json
                with open(p.path) as f:
                    h = json.load(f)
                require(len(h) == 2 and h[0]['id'] == str(id(y)), '%s: records %r', what, h)
            finally:
                shutil.rmtree(tmp)
                for n in closure(y).values():
                    if hasattr(n, 'visited'):
                        n.visited = False
            inspected = True
        ctx.label(t)
    # the end state answers like the reference
    i = len(nodes) - 1
    base = usable(i)
    if base is not None and nodes[i]['o'] != 'leaf':
        check_value(built[i].r, base[i], 'value at the end')
        for k, n in enumerate(nodes):
            if n['o'] == 'leaf':
                check_jac(built[i].dr_wrt(built[k]), ops.ref_jac(nodes, i, k, base), 'derivative at the end with respect to input %d' % k)
                break
        after = after or inspected
    return inspected and after and sum(1 for n in nodes if n['o'] not in ('leaf', 'const')) >= 3


def near(text, v, fmt):
    """text is v printed with this format, up to rounding in the last place."""
    try:
        z = float(text)
    except ValueError:
        return False
    if text != fmt % z:
        return False
    d = int(fmt[2:-1])
    return abs(z - v) <= 1.01 * 0.5 * 10.0 ** -d * 10.0 ** _exp10(max(abs(z), abs(v))) + 1e-9 * abs(v) + 1e-12


def _exp10(v):
    import math
    return math.floor(math.log10(v)) if v > 0 else 0
