"""C03: numerical derivatives of sampled functions."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C03', needs=('fornberg-num-deriv',),
    rule='Strictly monotonic grids (dyadic points, uniform or not, either direction), accuracy '
         '1..20, derivative order 0..7, arbitrary or polynomial samples, method and its options '
         'are generated. Non-trivial: the reference derivative is not identically zero.',
    assumptions=['grids have at least accuracy+1 distinct points; derivative order at most 7 '
                 '(compiled-in size of the weight table)'])


def setup():
    global np, fnd, ND, g, Fraction
    from fractions import Fraction
    import numpy as np
    from myfnd import fnd
    from num_deriv import NumericalDifferentiator as ND
    from vplib import gen as g


chk.setup = setup


def grid_strategy(st, min_n, max_n):
    return st.fixed_dictionaries({
        'steps': st.one_of(
            st.lists(st.integers(1, 24), min_size=min_n - 1, max_size=max_n - 1),
            st.tuples(st.integers(1, 24), st.integers(min_n - 1, max_n - 1)).map(
                lambda t: [t[0]] * t[1])),
        'start': st.integers(-200, 200), 'rev': st.booleans()})


def make_grid(c):
    """Integers 64*x of a strictly monotonic grid (the grid itself is exact in doubles)."""
    pts = [c['start']]
    for s in c['steps']:
        pts.append(pts[-1] + s)
    return pts[::-1] if c['rev'] else pts


def lagrange_weights(nodes, x0, order):
    """Exact weights of the order-th derivative at x0 of the interpolating polynomial."""
    n = len(nodes)
    out = []
    for j in range(n):
        # coefficients in powers of (x - x0) of the j-th Lagrange basis polynomial
        poly, den = [1], 1
        for k in range(n):
            if k == j:
                continue
            a = nodes[k] - x0
            den *= nodes[j] - nodes[k]
            new = [0] * (len(poly) + 1)
            for i, c in enumerate(poly):
                new[i + 1] += c
                new[i] -= a * c
            poly = new
        f = 1
        for i in range(2, order + 1):
            f *= i
        out.append(Fraction(poly[order] * f, den) if order < len(poly) else Fraction(0))
    return out


def fornberg_strategy(st):
    from vplib import gen
    return st.integers(1, 20).flatmap(lambda acc: st.fixed_dictionaries({
        'acc': st.just(acc), 'order': st.integers(0, 7),
        'grid': grid_strategy(st, acc + 1, acc + 14),
        'useed': gen.seeds(st), 'where': st.integers(0, 10**6)}))


@chk.prop('fornberg', fornberg_strategy, quick=2400, thorough=20000, shards=6)
def fornberg(case, ctx):
    """du[i] is the derivative of the polynomial through acc+1 neighbouring points."""
    pts = make_grid(case['grid'])
    n, acc, order = len(pts), case['acc'], case['order']
    x = np.array(pts) / 64.0
    u = np.round(g.rng(case['useed']).uniform(-8, 8, n), 3)
    guard = np.full(n + 8, 3.5)
    du = guard[4:4 + n]
    keep = u.copy()
    fnd.fornberg_grid_derivative(order, acc, x, u, du)
    assert np.all(guard[:4] == 3.5) and np.all(guard[4 + n:] == 3.5), 'wrote past the output'
    assert np.array_equal(u, keep), 'the input was changed'
    assert np.all(np.isfinite(du)), f'non-finite derivatives: {du}'
    idx = {0, n - 1, case['where'] % n, n // 2, min(acc // 2 + 1, n - 1), max(n - 2 - acc // 2, 0)}
    for i in sorted(idx):
        best = None
        # centred stencil (both neighbours of the centre when acc is odd), shifted at the edges
        for left in {acc // 2, (acc + 1) // 2}:
            lo = min(max(i - left, 0), n - acc - 1)
            w = lagrange_weights(pts[lo:lo + acc + 1], pts[i], order)
            w = [float(v * Fraction(64)**order) for v in w]
            terms = [a * float(b) for a, b in zip(w, u[lo:lo + acc + 1])]
            exp, scale = sum(terms), sum(abs(t) for t in terms)
            err = abs(du[i] - exp) / (scale + 1e-300) if scale else abs(du[i])
            best = err if best is None else min(best, err)
            if scale:
                ctx.nontrivial(order > 0)
        assert best <= 1e-11, (
            f'order {order}, accuracy {acc}, point {i} of {n}: {du[i]!r} is off by {best:.3g} '
            f'(relative to the size of the stencil terms)')
    ctx.label(f'acc{"even" if acc % 2 == 0 else "odd"}')
    ctx.label(f'order{order}')
    ctx.label('uniform' if len(set(case['grid']['steps'])) == 1 else 'non-uniform')


def poly_strategy(st):
    from vplib import gen
    return st.integers(1, 8).flatmap(lambda acc: st.fixed_dictionaries({
        'acc': st.just(acc), 'order': st.integers(1, 4),
        'n': st.integers(acc + 1, 60), 'gaps': gen.seeds(st), 'uniform': st.booleans(),
        'coef': st.lists(st.integers(-5, 5), min_size=1, max_size=acc + 1),
        'shift': st.floats(-3, 3, allow_nan=False)}))


@chk.prop('polynomials', poly_strategy, quick=2400, thorough=10000, shards=3)
def polynomials(case, ctx):
    """Exact for polynomials up to the accuracy order; through the public differentiator."""
    n, acc, order = case['n'], case['acc'], case['order']
    gaps = np.ones(n - 1) if case['uniform'] else g.rng(case['gaps']).uniform(0.4, 1.6, n - 1)
    x = np.concatenate(([0.0], np.cumsum(gaps)))
    x = case['shift'] + x * (2.0 / x[-1])
    p = np.polynomial.Polynomial(case['coef'])
    y = p(x - case['shift'])
    res, info = ND(order, differentiation_method='fornberg').differentiate(
        x, y, interpolation_order=acc)
    assert len(res) == order + 1, f'{len(res)} results for derivatives up to order {order}'
    assert isinstance(info, str)
    g.close(res[0], y, 0, 0, 'zeroth derivative')
    h = np.min(np.diff(x))
    for k in range(1, order + 1):
        exp = p.deriv(k)(x - case['shift'])
        noise = 1e-14 * 8.0**acc * np.max(np.abs(y)) / h**k + 1e-12
        if noise > 1e-2 * (1.0 + np.max(np.abs(exp))):
            ctx.label('too noisy')
            continue
        g.close(res[k], exp * np.ones(n), 1e-9, noise, f'derivative of order {k}, accuracy {acc}')
        ctx.nontrivial(bool(np.any(exp != 0)))
    ctx.label(f'acc{acc}')


def method_strategy(st, methods=('gradient', 'fornberg')):
    from vplib import gen
    return st.fixed_dictionaries({
        'n': st.integers(6, 80), 'gaps': gen.seeds(st), 'uniform': st.booleans(),
        'shape': st.sampled_from(['random', 'random', 'symmetric', 'ends', 'one', 'halves']),
        'start': st.sampled_from([0.0, 0.0, -3.0, 7.5]), 'rev': st.booleans(),
        'y': gen.seeds(st), 'kind': st.sampled_from(['quadratic', 'random', 'linear']),
        'coef': st.lists(gen.floats(st, -4, 4), min_size=3, max_size=3),
        'method': st.sampled_from(methods),
        'order': st.integers(1, 4), 'edge': st.integers(1, 2),
        'stencil': st.sampled_from(['forward', 'backward', 'center', 'center2']),
        'interp': st.booleans(), 'factor': st.integers(1, 13)})


@chk.prop('stencils', lambda st: method_strategy(st, ('stencil_functions',)), quick=240,
          thorough=1200, shards=6)
@chk.prop('differentiator', method_strategy, quick=3000, thorough=12000, shards=3)
def differentiator(case, ctx):
    """Every method: one value per point, right formulas, with or without interpolation."""
    n, order, method = case['n'], case['order'], case['method']
    uniform = case['uniform'] or (method == 'stencil_functions' and case['stencil'] == 'center2')
    gaps = np.ones(n - 1) if uniform else g.rng(case['gaps']).uniform(0.3, 1.7, n - 1)
    shape, k = case.get('shape', 'random'), case['gaps'] % max(1, n - 3) + 1
    if uniform or shape == 'random':
        pass
    elif shape == 'symmetric':
        gaps = (gaps + gaps[::-1]) / 2
    elif shape == 'ends':               # first and last steps agree
        gaps[:2] = gaps[-2:] = gaps[0]
    elif shape == 'one':                # a single step that differs
        gaps = np.where(np.arange(n - 1) == k, 2.0, 1.0)
    else:
        gaps = np.where(np.arange(n - 1) < k, 1.0, 0.5)
    if not uniform and shape != 'random':
        gaps = np.round(gaps * 256) / 256     # steps that agree, agree in the grid as well
        ctx.label('grid ' + shape)
    x = np.concatenate(([0.0], np.cumsum(gaps))) * 0.125 + case.get('start', 0.0)
    if case.get('rev'):
        x = np.ascontiguousarray(x[::-1])
    a, b, c = case['coef']
    y = {'quadratic': a + b * x + c * x**2, 'linear': a + b * x,
         'random': g.rng(case['y']).uniform(-3, 3, n)}[case['kind']]
    kw = {'gradient': {'edge_order': case['edge']},
          'stencil_functions': {'my_order': 2 if case['stencil'] == 'center2' else 1,
                                'my_differencing_type': case['stencil'].rstrip('2')},
          'fornberg': {'interpolation_order': 4}}[method]
    obj = ND(order, differentiation_method=method, perform_interpolation=case['interp'],
             interpolation_factor=case['factor'])
    xk, yk = x.copy(), y.copy()
    res, info = obj.differentiate(x, y, **kw)
    assert np.array_equal(x, xk) and np.array_equal(y, yk), 'the inputs were changed'
    assert len(res) == order + 1 and isinstance(info, str)
    for k, r in enumerate(res):
        if method != 'fornberg' and k > 1:
            assert r is None, f'{method} claims to provide derivative {k}'
        else:
            assert r.shape == (n,), f'derivative {k}: {r.shape[0]} values for {n} points'
    g.close(res[0], y, 1e-12, 1e-12, 'zeroth derivative')
    d = res[1]
    dx, dy = np.diff(x), np.diff(y)
    s = dy / dx
    tol = 1e-9 * (1.0 + np.max(np.abs(s)))
    if method == 'gradient':
        exp = (dx[:-1] * s[1:] + dx[1:] * s[:-1]) / (dx[:-1] + dx[1:])
        g.close(d[1:-1], exp, 1e-9, tol, 'gradient, interior')
        if case['interp'] and case['factor'] > 1 or case['edge'] == 1:
            ends = (s[0], s[-1])
        else:
            ends = (s[0] - (s[1] - s[0]) * dx[0] / (dx[0] + dx[1]),
                    s[-1] + (s[-1] - s[-2]) * dx[-1] / (dx[-1] + dx[-2]))
        g.close(d[[0, -1]], np.array(ends), 1e-8, tol, 'gradient, edges')
    elif method == 'stencil_functions':
        if not case['interp'] or case['factor'] == 1:
            if case['stencil'] == 'forward':
                g.close(d[:-1], s, 1e-9, tol, 'forward difference')
            elif case['stencil'] == 'backward':
                g.close(d[1:], s, 1e-9, tol, 'backward difference')
            elif case['stencil'] == 'center':
                g.close(d[1:-1], (y[2:] - y[:-2]) / (x[2:] - x[:-2]), 1e-9, tol, 'central')
            else:
                exp = (-y[4:] + 8 * y[3:-1] - 8 * y[1:-3] + y[:-4]) / (12 * (x[1] - x[0]))
                g.close(d[2:-2], exp, 1e-8, tol, 'five-point difference')
        elif case['kind'] == 'linear':
            g.close(d[1:-1], np.full(n - 2, b), 1e-7, 1e-7, 'stencil of a line, interpolated')
        elif case['stencil'] == 'forward':
            g.close(d[:-1], s, 1e-6, 1e-6 * (1 + np.max(np.abs(s))), 'forward, interpolated')
    else:
        if case['kind'] == 'linear':
            g.close(d, np.full(n, b), 1e-7, 1e-7, 'fornberg of a line')
        if not case['interp'] or case['factor'] == 1:
            if case['kind'] == 'quadratic':
                g.close(d, b + 2 * c * x, 1e-7, 1e-7, 'fornberg of a parabola')
    ctx.label(f"{method}/{'interp' if case['interp'] else 'plain'}/{case['kind']}")
    ctx.nontrivial(bool(np.ptp(y) > 0))


if __name__ == '__main__':
    sys.exit(chk.main())
