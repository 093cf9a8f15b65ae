"""Writes known_findings.json: open findings (listed by the input that fails) and the repaired ones."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [
    {'property': 'C01', 'id': 'var-std-not-centred',
     'what': 'var(a, axis) returns mean(a**2) and std(a, axis) its square root (the mean is not subtracted), for every array a whose mean is not zero; '
             'a correct std fails the existing test test_sum_mean_std_var, so it is recorded and not repaired',
     'input': "ch.var(ch.array([1., 3.])).r == [5.] (NumPy: 1.0); ch.std likewise"},
]
FIXED = {  # subject of the fix commit -> (property, what failed)
    'mean over all axes must': ('C02', 'ch.mean(x) over all axes: Jacobian was ones, not ones/size'),
    'support plain numbers and arrays divided': ('C01', '2.0 / ch.array([1.,2.]) raised TypeError under Python 3'),
    'elementwise and clip Jacobians': ('C02', 'ch.sin(x).dr_wrt(x) for x of shape (1, n) had the wrong shape'),
    'the Jacobian of sort': ('C02', 'ch.sort(x).dr_wrt(x) was the identity'),
    'the zeros diag and diagflat': ('C07', 'ch.diag(v).dr_wrt(v): off-diagonal zeros depended on element 0'),
    'derivative of tile': ('C07', 'ch.tile(x, 2).dr_wrt(x) raised TypeError'),
    'repeat and roll must not': ('C03', 'ch.roll(x, 1).dr_wrt(x) after x changed its shape kept the old Jacobian'),
    'reverse mode must not compare': ('C04', 'dr_wrt(x, reverse_mode=True) raised on dense Jacobians'),
    'hstack of 1-d': ('C01', 'ch.hstack([a, b]) of 1-d arrays raised'),
    'maximum/minimum Jacobians': ('C02', 'ch.maximum(a, b).dr_wrt(b) with operands beyond 1e16 was wrong'),
    'import the hstack': ('C15', "minimize(method='Newton-CG' or 'trust-ncg') raised NameError"),
    'derivative of cross': ('C02', 'ch.cross(a, b).dr_wrt(a) for 1-d, broadcast or identical operands was wrong'),
    'concatenate must forget': ('C03', 'derivative of ch.concatenate after an operand was replaced or changed shape was stale'),
    'set() with several': ('C03', 'node.set(a=..., b=...) twice in a row did not invalidate cached values'),
    'remove_redundancy must keep': ('C10', 'after remove_redundancy changes of inputs were not noticed, and equal inputs were merged'),
    'assignment through views:': ('C06', 'x.ravel()[k] = 1.0 and assignment over nan/inf elements through views'),
    'dogleg must shrink': ('C14', 'a trial step giving nan made dogleg loop forever'),
    'dogleg over several': ('C14', 'free variables x[:2], x[2:] of one array: residuals evaluated at stale points'),
    'derivatives of dot when': ('C02', 'ch.dot(a, b) with b.ndim > 2: wrong Jacobian columns'),
    'Interp3D is constant': ('C19', 'Interp3D derivative outside the image was not zero'),
    'element assignment must not write': ('C06', 'x[k] = v wrote into the array x was made from, into other inputs made from it, and into results read earlier'),
    'assignment through views broadcasts': ('C06', 'x.T[...] = value of shape (1, 1), more dimensions than the target, raised'),
    'copying expressions that use': ('C08', 'pickling or copying x * x raised KeyError'),
    'replace a part by a function': ('C09', 'y.replace(u, f(u)) with u used several times built a cycle'),
    'ChGroup must not count': ('C12', 'derivative through a ChGroup was doubled when its inputs are expressions'),
    'dogleg may meet a point': ('C14', 'minimize(x**2 - 1) from x = 0 raised AssertionError because the Jacobian vanishes'),
    'linear operator Jacobians': ('C13', 'derivatives through an operation returning a LinearOperator: sums of three branches, reverse mode and lop raised or were wrong'),
    'element assignment must not truncate': ('C06', 'x.x = int array; x[0] = 0.5 stored 0'),
    'ChLambda and ChGroup': ('C12', 'creating one deferred expression added its argument names to the class and changed others'),
    'make_dense and make_sparse': ('C04', 'make_dense/make_sparse ignored for cached Jacobians; failed for absent ones'),
    'a scalar derivative stands': ('C13', 'an operation returning the number 1 as derivative of a vector gave a 1x1 Jacobian'),
    'sums of sparse and scalar': ('C02', 'x[0:1] used twice along sparse and scalar paths raised NotImplementedError'),
    'count a sub-expression': ('C02', '(s + s).dr_wrt(x) with s = ch.sin(x) was counted twice'),
    'moment of a 1-d': ('C19', 'ch.extras.moment of a 1-d array raised or gave the wrong shape'),
    'reverse mode through a node': ('C04', 'reverse mode of ChLambda(lambda x: x) over a vector gave a 1x1 Jacobian'),
    'reverse mode with respect to a selection': ('C04', 'ch.sin(ch.sin(x)).dr_wrt(x[:2], reverse_mode=True) was None'),
    'derivative with respect to a selection of a selection': ('C05', '(x*2).dr_wrt(x[::2][1:]) raised AttributeError'),
    'NanDivide has a zero': ('C19', 'NanDivide with an infinite quotient had a nan or infinite derivative where the value is replaced by zero'),
    'derivative of a power of zero': ('C19', '(x ** p).dr_wrt(p) with x = 0 was nan'),
    'print_labeled_residuals uses': ('C22', 'print_labeled_residuals(num_decimals=4) printed the parts with 2 decimals'),
    'DEBUG can be turned on': ('C22', 'turning chumpy.ch.DEBUG on made derivatives of existing expressions raise AttributeError'),
    'assert_string_equal and': ('C21', "chumpy.testing.assert_string_equal('a', 'a') and assert_no_warnings(f) raised"),
    'mgrid and ogrid': ('C21', 'ch.mgrid[0:2, 0:3] raised TypeError'),
    'show_tree and show_tree_wrt write': ('C22', 'show_tree() raised TypeError under Python 3'),
    'an operation derived from another': ('C13', 'positional arguments of a subclass with its own terms were assigned to the names of its base class'),
    'remember set up classes': ('C13', 'a class defined after another one was dropped could get the wrong operands'),
    'show_tree_wrt counts': ('C22', 'show_tree_wrt(x) with a cached sparse Jacobian raised ValueError'),
    'the order of terms may be': ('C13', 'positional arguments of a class whose base class redeclares parameters were assigned to the names of the base of its base'),
    'max/min along an axis': ('C02', 'ch.amax(ch.rot90(x, -1), axis=0).dr_wrt(x) with x of shape (1, 2) selected the wrong element'),
    'default parameters are not reported': ('C24', 'ch.sum(x) with its default axis evaluated twice: its value was computed again although nothing changed (the default axis was assigned in on_changed, and then reported as a change)'),
    'cross with axes': ('C02', 'ch.cross(a, b, axisc=0).dr_wrt(a) had its rows in the wrong order, and with axisa/axisb/axis or 2-element vectors it raised'),
    'accept the axes of transpose': ('C07', 'x.transpose(1, 0) raised IndexError'),
    'derivative of roll by': ('C07', 'ch.roll(x, [1, 2], axis=[0, 1]).dr_wrt(x) raised TypeError: unhashable'),
    'derivative of concatenate with axis=None': ('C07', 'ch.concatenate((a, b), axis=None).dr_wrt(a) raised'),
    'derivative of clip when': ('C02', 'ch.clip(x, np.zeros((2, 3)), 1).dr_wrt(x) with x of shape (3,) had 3 rows for 6 elements'),
    'Jacobians of empty arrays': ('C02', 'ch.sin(x).dr_wrt(x) with x empty had shape (1, 0), and the derivative of a dot over an empty axis raised'),
    'name the reserved keywords': ('C13', "class with dterms = 'r': NameError in place of the explanation"),
    'derivative of Select with': ('C05', 'ch.Select(a=x, idxs=[0, 1]).dr_wrt(x) raised, as with negative positions, masks or 2-d arrays of positions'),
    'classes derived from one with a partial positional order': ('C13', 'class B(ch.Ch): dterms = "a", "b"; term_order = "b",; class D(B): pass; D(x) took x as a'),
    'create the folder for profiles': ('C22', 'with chumpy.ch.DEBUG on, ch.minimize(..., method="dogleg") raised FileNotFoundError unless a folder named profiles existed'),
    'drawing of a tree with its caches': ('C22', 'y.show_tree_cache(label) raised NameError (Concatenate), KeyError (nodes made before DEBUG was on) or FileNotFoundError'),
    'a derivative given as a number': ('C02', 'ch.atleast_2d(x).dr_wrt(x) with x empty had shape (1, 1)'),
}


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE).stdout.decode().splitlines()
    fixed, used = [], set()
    for l in log:
        h, s = l.split(' ', 1)
        if not s.startswith('fix:'):
            continue
        k = [k for k in FIXED if s[5:].startswith(k)]
        assert len(k) == 1, (s, k)
        used.add(k[0])
        fixed.append('fixed: property=%s %s %s' % (FIXED[k[0]][0], h, FIXED[k[0]][1]))
    assert used == set(FIXED), set(FIXED) - used
    with open(os.path.join(V, 'known_findings.json'), 'w') as f:
        json.dump({'findings': OPEN, 'fixed': fixed}, f, indent=1)
        f.write('\n')


main()
