"""Writes DESIGN.md from the text here, the rules in props/ and the planted bugs in seeded/ (run after changing any of them)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'tools'))
sys.dont_write_bytecode = True
import props_src

HEAD = '''# Verification of mattloper/chumpy by property-based testing

Generated by tools/design_src.py.  properties.jsonl states the properties, MANIFEST.json registers a check for each, known_findings.json
lists the defects found in chumpy (repaired ones with their commit, and the one that is not).

## What decides a property

chumpy is a library for building arithmetic expressions over arrays, lazily evaluated and differentiated, with a cache in every node.  Its promises
are universal: over programs (graphs of operations), inputs (values, shapes, index expressions), histories (changes and queries in any order) and,
for the minimisers, problems and settings.  Every check therefore has the same form:

    generate a case  ->  run it on the real library and on an independent oracle  ->  compare  ->  shrink and confirm a difference

* **Oracle.** chumpy mirrors NumPy, so the reference is a NumPy program: each generated operation has an entry in vlib/ops.py saying how it is
  written in chumpy (in several spellings) and which NumPy expression it stands for.  Derivatives come from complex-step differentiation
  of that NumPy program (exact to rounding, no step size to tune), never from the library's own rules.  Rearrangements are decided exactly by pushing element numbers
  through NumPy.  SVD, whose vectors have free signs, uses sign-aligned central differences and the defining equations.  Histories are compared with a model that holds only
  the current inputs and re-evaluates the NumPy program, so any staleness is a difference.  Minimisers are judged by invariants over the recorded run and by closed-form optima.
* **Generation.** Hypothesis (CPython 3.12, python3-vt) draws structured cases with a small generator language (vlib/gen.py): typed expression DAGs with shared sub-expressions, repeated operands,
  raw operands, broadcasting, all spellings, special values; index expressions; chains of views; histories; minimisation problems (vlib/prob.py).  A case is plain JSON.
* **Execution.** The library needs NumPy 1.x under PyPy 3.9 (/opt/pypyvenv), where Hypothesis is not installed; so generation and shrinking happen in CPython and cases are sent as JSON lines to PyPy
  workers (vlib/worker.py) that import chumpy straight from /repo's working tree (pure Python, nothing to build, no byte code written).  8 shards run in parallel.
  A worker runs up to 1500 cases in one process, so effects of one case on another (shared class-level caches) are visible too.
* **No false alarms.** A difference counts only if it is reproduced by a fresh process; a difference that needs the preceding cases is confirmed and minimised as a sequence of cases.  Points closer than 1e-3 to a kink
  of the generated function are recognised by the NumPy evaluation and skipped for derivatives; tolerances follow the conditioning (a bound accumulated over the NumPy evaluation), not a fixed number.
  A hang is recognised by a deterministic budget of executed lines in a fresh process, not by the clock.  A harness error (exit 2) is kept apart from a violation (exit 1).
  Checks look only at public behaviour (`.r`, `dr_wrt`, `lop`, indexing, assignment, `minimize`, callbacks, calls received by user-defined operations, weak references); C22 (graph walk, drawing) and C24 (calls of `compute_r`/`compute_dr_wrt`, the extension interface of
  the library) observe documented extension points.  No hooks were needed in /repo.
* **Replay.** A failure is shrunk by Hypothesis (45 s quick, 180 s thorough) and written to evidence/replay/*.json; `python3-vt run.py --replay FILE` runs it again without any generator.
* **Determinism.** VERIF_SEED (default 1) and the shard number fix all choices.  VERIF_SCALE and VERIF_SHARDS change the number of cases and shards; CHUMPY_REPO and VERIF_EVIDENCE point experiments elsewhere.
* **Cost.** Quick: 10 to 90 s per property on 8 cores.  Thorough: the same search with 20 to 100 times the cases and a limit of three hours; the evidence says how many were reached.

What this cannot show: absence of errors outside the generator's bounds (arrays of more than a few hundred elements, graphs of more than about a dozen operations, histories of more than about 16 steps), and anything
that needs the external programs of the drawing functions.

All 24 properties are claimed; none is listed as not applicable.

'''

WHY = {
 'C01': 'Oracle: the NumPy function applied to the operand values chumpy reports, node by node (so an error is located where it arises), exact for operations with one rounding per element. Reach: combinations of axis options, operand kinds, broadcasting and special values that no fixed test lists.',
 'C02': 'Oracle: complex-step derivative of the independent NumPy program. Reach: Jacobians tied to shapes (1 x n, stacks), axes, repeated operands, extreme magnitudes.',
 'C03': 'Oracle: NumPy re-evaluation with the current inputs after every step. Reach: a cache that survives needs a certain query before a certain change on a certain graph; histories find these orders, and the shrinker cuts them to two or three steps.',
 'C04': 'Oracle: the routes against each other and against complex-step. Reach: mixtures of routes on one graph in any order (one route may poison the cache another uses), multipliers with special structure (zeros, single rows, sparse formats).',
 'C05': 'Oracle: NumPy indexing of an array of element numbers. Reach: all kinds of index expression, chains of them, and sources that change size afterwards.',
 'C06': 'Oracle: NumPy views of one array, compared bit for bit. Reach: chains of views, aliasing of the arrays given to the library, non-finite contents, dtype changes.',
 'C07': 'Oracle: unique element numbers pushed through the NumPy functions; equality is exact. Reach: shape- and parameter-keyed caches shared between nodes.',
 'C08': 'Oracle: one NumPy model per side. Reach: graphs with sharing, cached state at the time of copying, and what happens on either side later.',
 'C09': 'Oracle: a NumPy model of the rebuilt graph; for operations with private sub-expressions, the same chumpy expression built anew. Reach: old parts in several places, in parameters, cached before.',
 'C10': 'Oracle: the NumPy model, unchanged by the operation; object identity of planted duplicates. Reach: near-duplicates (exchanged operands, equal inputs, other parameters).',
 'C11': 'Oracle: numpy.linalg, closed forms by complex step, defining equations, scaling relations by powers of two (exact). Reach: wide/tall/1x1/stacked matrices, expression operands, badly scaled but well-conditioned ones.',
 'C12': 'Oracle: the wrapped Python function applied to NumPy arrays bound at that moment. Reach: binding histories, shared functions, nesting, unbound and unused arguments.',
 'C13': 'Oracle: an event model (set of changed names since the last notification) and NumPy. Reach: which name is forgotten or invented depends on the order of changes and queries; class families exercise class set-up.',
 'C14': 'Oracle: invariants over the recorded run, and NumPy least squares for linear problems. Reach: undefined regions, flat and rank-deficient problems, selections, every limit.',
 'C15': 'Oracle: NumPy objective, gradient and curvature at the point asked for. Reach: points in any order as a method may choose them (line searches revisit points).',
 'C16': 'Oracle: metamorphic (presentations agree) and the closed-form optimum.',
 'C17': 'Oracle: byte snapshots. Reach: aliasing that shows only after a later change.',
 'C18': 'Oracle: path analysis of the generated program decides absence, complex-step decides presence.',
 'C19': 'Oracle: independent scalar references. Reach: special points are drawn deliberately, and mixed with ordinary ones in one array.',
 'C20': 'Oracle: weak references after a full collection. Reach: any query route could leave a strong reference.',
 'C21': 'Oracle: NumPy with the same arguments (same exception type on rejection, same stream of random numbers).',
 'C22': 'Oracle: the generated program itself (its nodes, edges and labelled parts). Drawing programs and the browser are replaced by recorders.',
 'C23': 'Oracle: a NumPy program over the current inputs; what it cannot answer must raise. Faults are injected at a chosen call of a user-defined operation, callback or residual.',
 'C24': 'Oracle: a dependency model counting permitted computations. Reach: an invalidation that is too broad or a cache that misses shows only as extra work, which no value-based test sees.',
}

FALSE = '''## Alarms on the unchanged tree

Each alarm was traced to chumpy or to the check.

*Defects of chumpy*: 62 were repaired, one `fix:` commit each (known_findings.json lists them with the failing input; the suite of 39 tests passes, unedited, after each).  One is recorded and not repaired:
`var`/`std` do not subtract the mean (C01, id var-std-not-centred); the existing test test_sum_mean_std_var fixes the present behaviour of `std`, so a correct version breaks the suite.  The check compares `var`/`std` with the uncentred
formula only as the listed finding and reports anything else.

*Errors of the checks*, corrected in the check or the statement:
- a left product with a 1x1 result may be a plain number or 0-d array; it is compared as 1x1 (C04).
- nested concatenates and reshapes are merged by the library on construction; such nodes are not used as independent variables (C04) or replaced (C09), and are not expected among walked nodes (C22).
- a derivative that is identically zero (x - x, x / x) may be reported as absent or as zeros (C18).
- an exponent or power that overflows is replaced by zero by documented design (C01 and C19 leave it out).
- a query after a failed derivative may raise or answer for expressions that have no value (C23).
- the derivative of an expression with exactly one user is not kept between queries; this is the library's stated trade-off (C13, C24 statements say "no other expression uses").
- `concatenate` may hold a replaced part until it is evaluated again (C20).
- deferred functions, groups and operations with private expressions are excepted from counting in C24; their inner nodes are rebuilt on binding.

## Blind spots found while growing, and what closed them

- NumPy 2, which runs the generator, refuses cross products of 2-element vectors; the reference is now our own formula (C01, C02).
- options were always spelled out: now also left to their defaults, given by position and by keyword (C01 calling forms, C21 testing helpers), and `term_order` may be partial (C13).
- arrays were small: C01, C02, C06, C07 include arrays above 65536 elements (index width), C03 fans, chains and combs of up to 1500 nodes (visit limits, depth).
- values in C24 histories were finite: now NaN and infinities too ("not computed yet" must not be told by the value).
- every matrix given to svd had full rank: C11 includes rank-deficient ones (singular values, and what is unique of the vectors).
- C12 groups used all their arguments; C22 reports always named their stream.

## Behaviour left out, and why

cumsum along an axis and with tuple axes has no derivative (raises); `Term` declarations cannot be used on this tree; `linalg.tensorinv` is named but absent; trust-exact is refused by chumpy; `show_tree_cache` needs an
interactive display; reverse mode, `replace` and `is_dr_wrt` take time exponential in the depth of diamonds by design, so C24 counts work for forward mode only.
'''


def main():
    out = [HEAD, '## Properties\n']
    for p in props_src.P:
        m = importlib.import_module('props.' + p['id'].lower())
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append('*Generated and checked.* %s\n' % m.RULE)
        out.append('*%s*\n' % WHY[p['id']] if False else WHY[p['id']] + '\n')
        out.append('*Bounds.* %d cases quick, up to %d thorough. %s\n' % (m.CASES['quick'], m.CASES['thorough'], ' '.join('Assumed: %s.' % a for a in m.ASSUMPTIONS)))
        out.append('*Anchors.* %s\n' % '; '.join('%s (%s)' % (a['where'], a['name']) for a in p['anchors']['mechanism']))
    out.append(FALSE)
    out.append('''## Planted bugs

Each was written from the property and the code, confirmed to pass the 39 tests and to break its demonstration, and is kept under seeded/.  "caught": quick check of the property reports it; "after": it was missed at first and the check was strengthened as noted.

| bug | property | needs | result |
|---|---|---|---|''')
    with open(os.path.join(V, 'tools', 'results.json')) as f:
        res = json.load(f)
    for b in sorted(os.listdir(os.path.join(V, 'seeded'))):
        with open(os.path.join(V, 'seeded', b, 'meta.json')) as f:
            d = json.load(f)
        out.append('| %s | %s | %s | %s |' % (b, d['property'], d['needs'].replace('|', '/').replace('\n', ' '), res.get(b, 'caught')))
    out.append('\n' + res['_notes'])
    with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out).rstrip() + '\n')


main()
