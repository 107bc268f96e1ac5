"""C09: Hough functions solve Laplace's tidal equation; their companions are consistent."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C09', needs=('cpp-numintegrator',),
    rule='Modes (spin parameter, degree, azimuthal order), numbers of grid points, definitions and '
         'eigenvalue estimates are generated. Non-trivial: a rotating case (nonzero spin parameter) '
         'or, for normalisations, a grid of 3 or more points.',
    assumptions=['|spin parameter| <= 6 but not within 0.04 of 1, eigenvalues below 1000 and 120 or more grid points, so '
                 'that the collocation is converged'])


def setup():
    global np, g, HF, HNorm, HFHandler, C, sys, Cheby
    import sys
    import numpy as np
    from numpy.polynomial import chebyshev as C
    from cheby_transform import ChebyTransform as Cheby
    from hough_function import HF, HNorm
    from vplib import gen as g


chk.setup = setup


def spectrum(nu, m, parity, n):
    """Eigenvalues of Laplace's tidal equation in a basis of spherical harmonics.

    With v = grad(phi) + k x grad(psi), the divergence and curl of v + i nu mu (k x v) = grad(p)
    and div(v) = -lambda p give an eigenvalue problem for 1/lambda that is regular for all nu."""
    ls = np.arange(max(abs(m), 1), max(abs(m), 1) + n)
    lam = ls * (ls + 1.0)

    def j(l):
        return np.sqrt((l * l - m * m) / (4.0 * l * l - 1.0))
    b = np.zeros((n, n))
    for i, l in enumerate(ls):
        if i + 1 < n:
            b[i + 1, i] = (-lam[i] - l) * j(l + 1.0)
        if i > 0:
            b[i - 1, i] = (-lam[i] + l + 1) * j(float(l))
    q = lam + nu * m
    if np.abs(q).min() < 1e-3:
        return None
    mat = (np.diag(q) - nu**2 * b @ np.diag(1.0 / q) @ b) / lam[None, :] / lam[:, None]
    keep = (ls - m) % 2 == parity
    w = np.linalg.eigvals(mat[np.ix_(keep, keep)])
    w = w[np.abs(w.imag) < 1e-10].real
    return np.sort(1.0 / w[w > 1e-9])


def pick(case):
    """(estimate of the eigenvalue or None, expected eigenvalue) for a case."""
    nu, m, l = case['nu'], case['m'], case['l']
    if 0.96 < abs(nu) < 1.04:    # the equation turns singular at the poles: needs finer grids
        return 'skip', None
    a, b = (spectrum(nu, m, (l - m) % 2, n) for n in (90, 120))
    if a is None or b is None:
        return 'skip', None
    b = b[b < 1000.0]
    if case['rank'] is None and abs(nu) < 0.96:
        target = l * (l + 1.0)
        lmbd = None
    else:
        r = (case['rank'] or 0)
        if r >= len(b):
            return 'skip', None
        target = lmbd = float(b[r]) * (1.0 + case['off'])
    if not len(b):
        return 'skip', None
    d = np.abs(b - target)
    k = int(np.argmin(d))
    # an eigenvalue near 0 (the constant function) or an equally near one would be ambiguous
    rest = np.delete(d, k)
    if (len(rest) and rest.min() < d[k] * 1.001 + 1e-3) or target <= 1.01 * d[k]:
        return 'skip', None
    if len(a) <= k or abs(a[k] / b[k] - 1.0) > 1e-8:
        return 'skip', None
    return lmbd, float(b[k])


def case_strategy(st):
    from vplib import gen
    nu = st.one_of(st.sampled_from([0.0, 0.5, -0.3, 2.0, -3.0]), gen.floats(st, -0.95, 0.95),
                   gen.floats(st, -6.0, 6.0))
    lm = st.integers(-4, 4).flatmap(lambda m: st.integers(0 if m else 1, 4).map(
        lambda k: (abs(m) + k, m)))
    return st.builds(
        lambda nu, lm, npts, d, rank, off, form, cplx: {
            'nu': nu, 'l': lm[0], 'm': lm[1], 'npts': npts, 'definition': d, 'rank': rank,
            'off': off, 'form': form, 'cplx': cplx},
        nu, lm, st.integers(120, 221),
        st.sampled_from(['prat', 'lee_saio_equivalent', 'townsend', 'Townsend']),
        st.one_of(st.none(), st.integers(0, 3)), gen.floats(st, -0.02, 0.02),
        st.sampled_from(['float', 'neg', 'list', 'neglist']), st.booleans())


def make(case):
    lmbd, want = pick(case)
    if lmbd == 'skip':
        return None, None
    kw = {}
    if lmbd is not None:
        neg = case['form'].startswith('neg')
        kw['lmbd'] = -lmbd if neg else lmbd
        kw['lmbd_adjust'] = not neg
        if case['form'].endswith('list'):
            kw['lmbd'] = [kw['lmbd']] * 3
            kw['use_complex'] = True
    h = HF(nu=case['nu'], l=case['l'], m=case['m'], npts=case['npts'],
           definition=case['definition'], **kw)
    h()
    return h, want


def dpoly(mu, f, pf):
    """(f', f'') of f = s^pf x polynomial, by Chebyshev interpolation."""
    s = np.sqrt(1.0 - mu**2)
    c = C.chebfit(mu, f / s**pf, len(mu) - 1)
    p, d1, d2 = (C.chebval(mu, C.chebder(c, k)) for k in (0, 1, 2))
    if not pf:
        return d1, d2
    return s * d1 - mu / s * p, s * d2 - 2 * mu / s * d1 - (1 / s + mu**2 / s**3) * p


@chk.prop('tidal_equation', case_strategy, quick=900, thorough=6000, shards=6)
def tidal_equation(case, ctx):
    """hr solves Laplace's tidal equation for the wanted eigenvalue, and the theta and phi
    functions, all derivatives and combinations follow from it on the whole grid."""
    h, want = make(case)
    if h is None:
        ctx.label('skipped: ambiguous or unresolved estimate')
        return
    nu, m, l = case['nu'], case['m'], case['l']
    n = case['npts'] // 2 * 2          # an even number of points, as documented
    mu, hr = h.mu_range, h.hr_range
    s = np.sqrt(1.0 - mu**2)
    g.close(mu, -np.cos((np.arange(n) + 0.5) * np.pi / n), rtol=1e-9, atol=1e-12, msg='mu grid')
    g.close(np.cos(h.thetas_range), mu, rtol=1e-9, atol=1e-12, msg='theta grid')
    lam = h._eigenvalue
    assert abs(-lam / want - 1.0) < 1e-6, f'eigenvalue {-lam}, expected {want}'
    assert abs(np.abs(hr).max() - 1.0) < 1e-12, 'hr is not normalised to a maximum of 1'
    assert hr[n // 2] >= 0.0, 'sign convention of hr'
    par = (-1.0)**(l - m)
    g.close(hr[::-1], par * hr, rtol=0, atol=1e-12, msg='parity of hr')
    d = 1.0 - nu**2 * mu**2
    pf = m % 2
    hp1, hp2 = dpoly(mu, hr, pf)
    # the value of the collocated operator: weights remove the factors 1/d
    res = (d * s**2 * hp2 - 2 * mu * (1 - nu**2) * hp1
           + (nu * m * (1 + nu**2 * mu**2) - m**2 * d / s**2) * hr - lam * d**2 * hr)
    assert np.abs(res).max() < 1e-6 * max(1.0, np.abs(lam * d**2 * hr).max()), (
        f"hr does not solve Laplace's tidal equation (residual {np.abs(res).max():.2e})")

    def same(name, got, exp, w=1.0, tol=2e-6):
        got, exp = got * w, exp * w
        err, ref = np.abs(got - exp).max(), np.abs(exp).max()
        assert got.shape == (n,) and err <= tol * max(ref, np.abs(hp1).max() * 1e-3, 1e-3), (
            f'{name}: deviates by {err:.3e} (values up to {ref:.3e})')
    same('hrp', h.hrp_range, hp1)
    same('hrpp', h.hrpp_range, hp2, w=s**2)
    same('hrp theta', h.hrp_range_theta, -s * hp1)
    same('hrpp theta', h.hrpp_range_theta, s**2 * hp2 - mu * hp1)
    kind = case['definition'].lower()
    sign, sf = (1.0 if kind == 'prat' else -1.0), (s if kind == 'townsend' else 1.0)
    # with the s^-1 singularity taken out these are s^pf x a rational function of mu
    gt, gp = -(s**2 * hp1 + m * nu * mu * hr), sign * (nu * mu * s**2 * hp1 + m * hr)
    ht, hp = gt / d / s * sf, gp / d / s * sf
    same('ht', h.ht_range, ht, w=d)
    same('hp', h.hp_range, hp, w=d)
    for name, got, gott, q, f in (('htp', h.htp_range, h.htp_range_theta, gt, ht),
                                  ('hpp', h.hpp_range, h.hpp_range_theta, gp, hp)):
        dq, _ = dpoly(mu, q, pf)
        full = (dq / d + 2 * nu**2 * mu * q / d**2) / s * sf
        if kind != 'townsend':
            full = full + mu / s**2 * f
        same(name, got, full, w=d**2 * s**2, tol=1e-5)
        same(name + ' theta', gott, -s * full, w=d**2 * s**2, tol=1e-5)
    ht, hp = h.ht_range, h.hp_range
    # the azimuthal order has the opposite sign in these, as documented
    g.close(h.hr_range_m, -float(m) * hr, rtol=1e-12, atol=0, msg='m hr')
    g.close(h.theta_phi_hough_tilde, -m * ht - mu * hp, rtol=1e-9,
            atol=1e-9 * np.abs(ht).max() + 1e-12, msg='theta-phi combination')
    g.close(h.phi_phi_hough_tilde, (mu * ht + m * hp) / s, rtol=1e-9,
            atol=1e-9 * (np.abs(ht) / s).max() + 1e-12, msg='phi-phi combination')
    if nu == 0.0:
        from scipy.special import lpmv
        ll = int(round((-1 + np.sqrt(1 - 4 * lam)) / 2))
        p = lpmv(abs(m), ll, mu)
        p = p / np.abs(p).max()
        assert min(np.abs(hr - p).max(), np.abs(hr + p).max()) < 1e-6, (
            'without rotation hr is not the associated Legendre function')
    ctx.label(kind + ('' if abs(nu) < 1 else '/subinertial'))
    ctx.nontrivial(nu != 0.0)


@chk.prop('mirror', case_strategy, quick=300, thorough=2000, shards=3)
def mirror(case, ctx):
    """(nu, m) -> (-nu, -m) keeps hr and ht and negates hp; the grid size only refines."""
    h, want = make(case)
    if h is None:
        return
    o, _ = make({**case, 'nu': -case['nu'], 'm': -case['m']})
    if o is None:
        return
    for name, sg in (('hr', 1), ('ht', 1), ('hp', -1), ('hrp', 1), ('htp', 1), ('hpp', -1)):
        a, b = getattr(h, name + '_range'), getattr(o, name + '_range')
        d = (1.0 - case['nu']**2 * h.mu_range**2)**2 * (1 - h.mu_range**2)
        err = np.abs((a - sg * b) * d).max()
        assert err <= 1e-6 * max(1e-3, np.abs(a * d).max()), f'{name}: {err:.2e} under the mirror'
    assert abs(h._eigenvalue / o._eigenvalue - 1.0) < 1e-8
    ctx.nontrivial(case['nu'] != 0.0)


def cheb_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'npts': st.one_of(st.integers(4, 30), st.integers(30, 160)), 'seed': gen.seeds(st),
        'parity': st.integers(0, 1), 'pf': st.integers(0, 1), 'deg': st.integers(0, 24),
        'second': st.booleans()})


@chk.prop('chebyshev', cheb_strategy, quick=1500, thorough=10000, shards=2)
def chebyshev(case, ctx):
    """Derivatives, differential operators and their eigenfunctions on the collocation grid are
    exact for the functions of the given parity that the grid resolves."""
    t = Cheby(case['npts'])
    half = case['npts'] // 2
    mu = np.asarray(t.mu)
    g.close(np.sort(mu), np.sort(np.cos(np.pi / (2 * half) * (np.arange(half) + 0.5))),
            rtol=1e-12, atol=1e-13, msg='grid')
    r = g.rng(case['seed'])
    par, pf = case['parity'], case['pf']
    top = min(case['deg'], half - 1)               # the polynomial has terms of one parity only
    c = np.zeros(2 * half)
    c[par:2 * top + par + 1:2] = r.normal(size=top + 1)
    s = np.sqrt(1 - mu**2)
    p, p1, p2 = (C.chebval(mu, C.chebder(c, k)) for k in (0, 1, 2))
    if pf:
        f, f1 = s * p, s * p1 - mu / s * p
        f2 = s * p2 - 2 * mu / s * p1 - (1 / s + mu**2 / s**3) * p
    else:
        f, f1, f2 = p, p1, p2
    eps = 1e-14 * half * max(1.0, np.abs(f).max())
    e1, e2 = eps * half / s, eps * half**2 / s**2 + eps * half / s**3
    for name, got, exp, err in (('first derivative', t.diff1(f, par, pf), f1, e1),
                                ('second derivative', t.diff2(f, par, pf), f2, e2)):
        bad = np.abs(got - exp) > err + 1e-10 * np.abs(exp)
        assert got.shape == exp.shape and not bad.any(), (
            f'{name} at mu={mu[bad][0]}: {got[bad][0]}, expected {exp[bad][0]}')
    a0, a1, a2 = r.normal(size=(3, half))
    if not case['second']:
        got = t.apply(f, a0, a1, None, par, pf)
        exp, err = a0 * f + a1 * f1, np.abs(a1) * e1
    else:
        got = t.apply(f, a0, a1, a2, par, pf)
        exp, err = a0 * f + a1 * f1 + a2 * f2, np.abs(a1) * e1 + np.abs(a2) * e2
    bad = np.abs(got - exp) > err + eps + 1e-10 * (np.abs(a0 * f) + np.abs(a1 * f1)
                                                   + np.abs(a2 * f2))
    assert not bad.any(), f'operator: {got[bad][:1]}, expected {exp[bad][:1]}'
    # the eigenfunctions of the operator of Legendre are the Legendre functions
    if half >= 4:
        m = pf
        vals, vecs = t.solve_eig(-m**2 / s**2, -2 * mu, s**2, par, pf)
        order = np.argsort(-vals.real)
        for k in range(min(3, half // 2)):
            deg = par + pf + 2 * k
            i = order[k]
            assert abs(vals[i] + deg * (deg + 1)) < 1e-7, (
                f'eigenvalue {vals[i]}, expected {-deg * (deg + 1)}')
            x = vecs[:, i]
            y = t.apply(x, -m**2 / s**2, -2 * mu, s**2, par, pf)
            assert np.abs(y - vals[i] * x).max() < 1e-7, 'not an eigenfunction'
    ctx.label(f'{"odd" if case["npts"] % 2 else "even"} number')
    ctx.nontrivial(top >= 2)


def norm_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'n': st.integers(2, 300), 'seed': gen.seeds(st), 'grid': st.sampled_from(
            ['uniform', 'chebyshev', 'random']), 'scale': gen.logfloat(st, 1e-6, 1e6, signed=True),
        'case': st.sampled_from(['lee2012', 'LEE2012', 'Lee2012', 'prat2019', 'PRAT2019', 'other']),
        'parallel': st.booleans(), 'threads': st.integers(1, 4)})


@chk.prop('normalisation', norm_strategy, quick=3000, thorough=20000, shards=3)
def normalisation(case, ctx):
    """lee2012: the integral of |hr|^2 over the sphere becomes 1; prat2019: the maximum becomes 1."""
    r = g.rng(case['seed'])
    n = case['n']
    if case['grid'] == 'uniform':
        mu = np.linspace(-1, 1, n)
    elif case['grid'] == 'chebyshev':
        mu = -np.cos((np.arange(n) + 0.5) * np.pi / n)
    else:
        mu = np.sort(r.uniform(-1, 1, n))
    hr = r.normal(size=n) * case['scale']
    if case['case'] == 'other':
        try:
            HNorm.get_norm_factor('unknown_name', mu, hr)
        except SystemExit:
            return
        raise AssertionError('an unknown normalisation was accepted')
    fac = HNorm.get_norm_factor(case['case'], mu, hr, case['threads'], case['parallel'])
    if case['case'].lower() == 'lee2012':
        f = (fac * hr)**2
        val = 2 * np.pi * float(np.sum(0.5 * (f[1:] + f[:-1]) * np.diff(mu)))
    else:
        val = np.abs(fac * hr).max()
    assert fac > 0 and abs(val - 1.0) < 1e-9, f'{case["case"]}: normalised to {val}, not 1'
    ctx.label(case['case'].lower() + '/' + case['grid'])
    ctx.nontrivial(n > 2)


if __name__ == '__main__':
    sys.exit(chk.main())
