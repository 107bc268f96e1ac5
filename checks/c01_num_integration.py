"""C01: numerical integration of sampled functions."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C01', needs=('cpp-numintegrator',),
    rule='Integrand and grid arrays (2..4000 points; explicit small lists or seeded large ones), '
         'method, spacing flag, thread count and parallel flag are generated. Non-trivial: at '
         'least 3 points and an integrand that is not constant.',
    assumptions=['arrays are C-contiguous doubles with at least two points, which the interface '
                 'enforces (contiguity) or every caller respects (length)'])


def setup():
    global np, cni, g
    import numpy as np
    from num_integrator import cni
    from vplib import gen as g


chk.setup = setup


def ref_trapz(y, x, equal):
    y = [float(v) for v in y]
    if equal:
        from math import fsum
        return (fsum(y[1:-1]) + 0.5 * (y[0] + y[-1])) * (x[1] - x[0])
    from math import fsum
    return fsum((x[i] - x[i - 1]) * 0.5 * (y[i] + y[i - 1]) for i in range(1, len(y)))


def ref_simpson(y, x, equal):
    from math import fsum
    n = len(y)
    if not equal or n % 2 == 0:
        return ref_trapz(y, x, equal)
    h = x[1] - x[0]
    w = [1.0] + [4.0 if i % 2 else 2.0 for i in range(1, n - 1)] + [1.0]
    return h / 3.0 * fsum(a * b for a, b in zip(w, (float(v) for v in y)))


REF = {'trapz': ref_trapz, 'simpson': ref_simpson}


def _call(method, equal, y, x, threads, par):
    return cni.integrate(method, equal, y, x, threads, par)


def case_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'y': gen.vec(st, 2, 9, -50.0, 50.0, big=4000),
        'x0': gen.floats(st, -5.0, 5.0),
        'h': gen.logfloat(st, 1e-4, 10.0),
        'gaps': gen.seeds(st),
        'equal_grid': st.booleans(), 'equal_flag': st.booleans(),
        'reverse': st.booleans(),
        'method': st.sampled_from(['trapz', 'simpson', 'simpson']),
        'threads': st.integers(1, 8), 'par': st.booleans(),
    })


def build(case):
    y = g.arr(case['y'])
    n = y.size
    if case['equal_grid']:
        x = case['x0'] + case['h'] * np.arange(n)
    else:
        x = case['x0'] + case['h'] * np.concatenate(
            ([0.0], np.cumsum(g.rng(case['gaps']).uniform(0.05, 2.0, n - 1))))
    if case['reverse']:
        x = np.ascontiguousarray(x[::-1])
    return y, x


@chk.prop('quadrature', case_strategy, quick=6000, thorough=30000, shards=6)
def quadrature(case, ctx):
    """The result is the documented quadrature rule, for every flag and thread count."""
    y, x = build(case)
    # on a grid that is not equally spaced the equally-spaced rules do not apply
    equal = case['equal_flag'] and case['equal_grid']
    ycopy, xcopy = y.copy(), x.copy()
    got = _call(case['method'], equal, y, x, case['threads'], case['par'])
    exp = REF[case['method']](y, x, equal)
    scale = float(np.sum(np.abs(y)) * np.max(np.abs(np.diff(x)))) + 1e-300
    # an equally spaced grid is only known up to the rounding of its points
    tol = 1e-12 * scale + (1e-15 * np.max(np.abs(x)) * np.sum(np.abs(y)) if equal else 0.0)
    assert abs(got - exp) <= tol, \
        f"{case['method']} equal={equal} n={y.size}: got {got!r}, expected {exp!r}"
    assert np.array_equal(y, ycopy) and np.array_equal(x, xcopy), 'the inputs were changed'
    ctx.label(f"{case['method']}/{'equal' if equal else 'uneven'}/"
              f"{'odd' if y.size % 2 else 'even'}")
    ctx.label('parallel' if case['par'] else 'serial')
    ctx.nontrivial(y.size >= 3 and np.ptp(y) > 0)
    # the number of threads and the parallel switch never change the value
    for threads, par in ((1, False), (case['threads'], not case['par'])):
        other = _call(case['method'], equal, y, x, threads, par)
        assert abs(other - got) <= 1e-12 * scale, \
            f'threads={threads} parallel={par}: {other!r} != {got!r}'


def poly_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'coef': st.lists(gen.floats(st, -4.0, 4.0), min_size=1, max_size=4),
        'a': gen.floats(st, -2.0, 2.0), 'width': gen.floats(st, 0.1, 4.0),
        'half': st.integers(1, 400), 'threads': st.integers(1, 8), 'par': st.booleans(),
        'split': st.integers(0, 10**6)})


@chk.prop('exactness', poly_strategy, quick=1500, thorough=8000)
def exactness(case, ctx):
    """Simpson is exact for cubics, the trapezoid rule for linear functions; both are
    additive over sub-intervals and change sign with the direction of integration."""
    n = 2 * case['half'] + 1
    a, b = case['a'], case['a'] + case['width']
    x = np.linspace(a, b, n)
    p = np.polynomial.Polynomial(case['coef'])
    P = p.integ()
    exp = float(P(b) - P(a))
    mag = float(np.max(np.abs(p(x)))) * case['width'] + 1e-12
    got = _call('simpson', True, p(x), x, case['threads'], case['par'])
    assert abs(got - exp) <= 1e-9 * mag, f'simpson of a cubic: {got!r}, expected {exp!r}'
    lin = np.polynomial.Polynomial(case['coef'][:2])
    L = lin.integ()
    expl = float(L(b) - L(a))
    magl = float(np.max(np.abs(lin(x)))) * case['width'] + 1e-12
    for equal in (True, False):
        gotl = _call('trapz', equal, lin(x), x, case['threads'], case['par'])
        assert abs(gotl - expl) <= 1e-9 * magl, f'trapz of a line: {gotl!r}, expected {expl!r}'
        rev = _call('trapz', equal, np.ascontiguousarray(lin(x)[::-1]),
                    np.ascontiguousarray(x[::-1]), case['threads'], case['par'])
        assert abs(rev + gotl) <= 1e-9 * magl, 'reversing the grid does not change the sign'
    y = p(x)
    k = 1 + case['split'] % (n - 2)
    if n >= 5 and 1 <= k <= n - 2:
        whole = _call('trapz', False, y, x, 1, False)
        parts = _call('trapz', False, y[:k + 1].copy(), x[:k + 1].copy(), 2, True) \
            + _call('trapz', False, y[k:].copy(), x[k:].copy(), 3, False)
        assert abs(whole - parts) <= 1e-9 * mag, f'not additive: {whole!r} != {parts!r}'
    ctx.label(f'degree{len(case["coef"]) - 1}')
    ctx.nontrivial(any(c != 0 for c in case['coef'][1:]))


def sched_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'n': st.integers(500, 20000), 'seed': gen.seeds(st), 'equal': st.booleans(),
        'method': st.sampled_from(['trapz', 'simpson']), 'threads': st.integers(2, 8)})


@chk.prop('schedules', sched_strategy, quick=80, thorough=500, shards=2)
def schedules(case, ctx):
    """However the threads take turns, the parallel result is that of the documented rule:
    each case is run many times."""
    r = g.rng(case['seed'])
    n = case['n']
    x = np.linspace(-1.0, 2.0, n) if case['equal'] else np.cumsum(r.uniform(0.05, 2.0, n)) / n
    y = r.uniform(-1, 1, n)
    exp = REF[case['method']](y, x, case['equal'])
    scale = float(np.sum(np.abs(y)) * np.max(np.abs(np.diff(x))))
    for k in range(60):
        got = _call(case['method'], case['equal'], y, x, case['threads'], True)
        assert abs(got - exp) <= 1e-12 * scale + 1e-15 * np.max(np.abs(x)) * np.sum(np.abs(y)), \
            f'run {k} with {case["threads"]} threads: {got!r} != {exp!r}'
    ctx.label(f"{case['threads']} threads")
    ctx.nontrivial()


if __name__ == '__main__':
    sys.exit(chk.main())
