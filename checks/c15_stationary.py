"""C15: stationary solutions of resonant triads."""

import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C15', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv'),
    rule='Triads (frequencies, driving rates of one sign for the parent and the other for the '
         'children, rotation, coupling coefficient, surface perturbations, disc integrals, Hough '
         'functions) and observers are generated. Non-trivial: the triad passed its pre-check.',
    assumptions=['angular frequencies in the co-rotating frame are positive',
                 'no exact resonance (detuning not zero)'])


def setup():
    global TMS, FH, np, SN
    from types import SimpleNamespace as SN
    import numpy as np
    from aesolver.frequency_handling import FH
    from aesolver.stationary_solving import ThreeModeStationary as TMS


chk.setup = setup


def strategy(st):
    from vplib import gen
    f3 = lambda lo, hi: st.tuples(*[gen.floats(st, lo, hi)] * 3)
    pos = gen.logfloat(st, 0.05, 20.0)
    return st.fixed_dictionaries({
        'gam': st.tuples(pos, pos, pos), 'direct': st.booleans(),
        'w': st.tuples(gen.logfloat(st, 0.2, 5.0), gen.logfloat(st, 0.2, 5.0)),
        'det': gen.logfloat(st, 1e-5, 0.05, signed=True),
        'eta': gen.logfloat(st, 1e-2, 1e5, signed=True), 'rot': gen.floats(st, -1.0, 1.0),
        'm': st.tuples(*[st.integers(-3, 3)] * 3), 'tk': f3(-2, 2), 'ek': f3(-2, 2),
        'lum': f3(-50, 50), 'xir': f3(-50, 50),
        'hough': st.tuples(*[st.tuples(*[gen.floats(st, -1, 1)] * 4)] * 3),
        'npt': st.integers(5, 60), 'spin': st.one_of(st.none(), gen.floats(st, 0.0, 3.1415)),
        'peri': st.one_of(st.none(), gen.floats(st, -7.0, 7.0), st.just(math.pi / 2)),
        'pass': st.sampled_from([True, True, True, False]), 'with_solver': st.booleans(),
        'hyper': st.booleans(), 'unit': st.sampled_from(['HZ', 'RAD_PER_SEC', 'CYC_PER_DAY']),
        'inert': st.booleans()})


def rel(got, exp, tol, what):
    got, exp = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
    assert got.shape == exp.shape, f'{what}: shape {got.shape}, not {exp.shape}'
    assert (np.abs(got - exp) <= tol * np.abs(exp) + 1e-300).all(), f'{what}: {got}, not {exp}'


@chk.prop('fixed point', strategy, quick=9000, thorough=60000, shards=6)
def fixed_point(case, ctx):
    """The reported amplitudes and phase make all amplitude equations stationary."""
    sg = -1.0 if case['direct'] else 1.0
    gam = sg * 1e-3 * np.array([case['gam'][0], -case['gam'][1], -case['gam'][2]])
    if abs(gam.sum()) < 1e-3 * np.abs(gam).sum():
        ctx.label('sum of rates about zero: not judged')
        return
    w2, w3 = case['w']
    w1 = (w2 + w3) * (1.0 + case['det'])
    w = np.array([w1, w2, w3])                 # in rad/s; the dictionaries want Hz
    two = 2.0 * math.pi
    ad = []
    for x, m in zip(w, case['m']):
        f = x / two + (m * case['rot'] / two if case['inert'] else 0.0)
        ad.append({'freq': np.array([complex(f)]), 'm': m, 'freq_units': b'HZ',
                   'freq_frame': b'INERTIAL' if case['inert'] else b'COROT', 'G': 1.0,
                   'M_star': 1.0, 'R_star': 1.0, 'Omega_rot_dim': np.array([case['rot']])})
    nad = [{**a, 'freq': a['freq'] + 1j * x / two} for a, x in zip(ad, gam)]
    fh = FH(*ad, my_freq_units=case['unit'])
    fh.set_mode_nonadiabatic_info(*nad)
    # angular unit asked for, per rad/s
    u = {'HZ': 1.0, 'RAD_PER_SEC': 1.0, 'CYC_PER_DAY': 86400.0}[case['unit']]
    w, gam = w * u, gam * u
    det = w[0] - w[1] - w[2]
    mu = np.linspace(-1.0, 1.0, case['npt'])
    polys = [np.polynomial.Polynomial(p) for p in case['hough']]
    coupler = SN(eta_lee_coupling_coefficient=case['eta'], _mu_values=mu)
    for i in range(3):
        setattr(coupler, f'_hr_mode_{i + 1}', polys[i](mu))
        setattr(coupler, f'_m_mode_{i + 1}', case['m'][i])
    tk, ek, lum, xir = (np.array(case[k]) for k in ('tk', 'ek', 'lum', 'xir'))
    solver = SN(_coupler=coupler, _lag_var_surf_lum=lum, _xir_terms_norm=xir,
                _tk_disc_integrals=tk, _ek_disc_integrals=ek)
    out = TMS(precheck_satisfied=case['pass'], freq_handler=fh, hyperbolic=case['hyper'],
              solver_object=solver if case['pass'] or case['with_solver'] else None,
              spin_inclination=case['spin'], periastron_arg=case['peri'])()
    q = det / gam.sum()
    sl = 1e-9 / abs(case['det']) + 1e-10        # loss of digits in the detuning
    rel(out['linear driving rates'], gam, 1e-8, 'driving rates')
    rel(out['gamma'], gam.sum(), 1e-8, 'gamma')
    rel(out['detunings'], det, sl, 'detuning')
    rel(out['q factor'], q, sl + 1e-8, 'q')
    qc = det / (gam[1] + gam[2])
    rel(out['critical q factor'], qc, sl, 'critical q')
    assert out['hyperbolic'] is case['hyper']
    assert out['linearly stable'] is case['pass']
    amps = np.asarray(out['equilibrium amplitudes'])
    flux = np.asarray(out['surface flux variations'])
    if not case['pass']:
        assert amps.shape == (3,) and not amps.any() and flux.shape == (3,) and not flux.any()
        for key in ('critical parent amplitude', 'stationary relative phase',
                    'stationary relative luminosity phase'):
            assert out[key] is None, f'{key} of a refused triad: {out[key]}'
        ctx.label('refused')
        return
    eta = abs(case['eta'])
    assert (amps > 0).all(), f'amplitudes {amps}'
    P = out['stationary relative phase']
    rel(math.tan(P) * q, -1.0, 10 * sl + 1e-7, 'phase (tan P * q)')
    # the sign of sin P and the direction of time are conventions: take those that fit
    s = -np.sign(gam[0]) / math.sqrt(1.0 + q * q)
    c = q * s
    a1, a2, a3 = amps
    res = np.array([
        gam[0] * a1 + 2 * w[0] * eta * a2 * a3 * s, gam[1] * a2 - 2 * w[1] * eta * a1 * a3 * s,
        gam[2] * a3 - 2 * w[2] * eta * a1 * a2 * s,
        det + 2 * eta * c * (w[0] * a2 * a3 / a1 - w[1] * a1 * a3 / a2 - w[2] * a1 * a2 / a3)])
    # without cancellation: all terms of the last equation
    sc = np.array([*np.abs(gam * amps), abs(det) + np.abs(c / s * gam).sum()])
    assert (np.abs(res) <= (10 * sl + 1e-7) * sc).all(), \
        f'amplitudes {amps}: derivatives {res} (terms {sc}), gammas {gam}, omegas {w}'
    # threshold of the parent for the growth of the children
    ac = out['critical parent amplitude']

    def growth(a):
        M = np.array([[gam[1] + 0.5j * det, 2j * w[1] * eta * a],
                      [-2j * w[2] * eta * a, gam[2] - 0.5j * det]])
        return np.linalg.eigvals(M).real
    if not case['direct']:
        lo, hi = growth(ac * (1 - 1e-3)).max(), growth(ac * (1 + 1e-3)).max()
        assert lo < 0 < hi, f'critical amplitude {ac}: growth of children {lo} below, {hi} above'
    # what the observer sees
    x = None if case['spin'] is None else math.cos(case['spin'])
    for i in range(3):
        h = 1.0 if x is None else float(polys[i](x))
        z = abs(tk[i] * lum[i] - ek[i] * xir[i])
        tol = 1e-9 * amps[i] * (abs(tk[i] * lum[i]) + abs(ek[i] * xir[i]) + z) * 10
        assert abs(flux[i] - amps[i] * z * h) <= tol, \
            f'flux variation of mode {i + 1}: {flux[i]}, not {amps[i] * z * h}'
    L = out['stationary relative luminosity phase']
    exp = P
    if case['peri'] is not None:
        exp = P + (case['m'][0] - case['m'][1] - case['m'][2]) * (math.pi / 2 - case['peri'])
    d = (L - exp) / two
    assert abs(d - round(d)) < 1e-9, f'luminosity phase {L}, not {exp} (modulo 2 pi)'
    ctx.label('direct' if case['direct'] else 'parametric')
    ctx.nontrivial()


if __name__ == '__main__':
    sys.exit(chk.main())
