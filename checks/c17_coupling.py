"""C17: quadratic coupling coefficients of three modes of a rotating star."""

import contextlib
import io
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C17', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv'),
    rule='Consistent stellar structures (polynomial density, hydrostatic pressure), modes with '
         'polynomial radial functions, degrees up to 3, all azimuthal orders, rotation rates, '
         'conjugations, grids and input forms. Non-trivial: the selection rules hold, so that the '
         'coefficient is not zero.',
    assumptions=['the first grid point is the center, the last one the surface, as in GYRE output',
                 'mode energies are positive'])

G, M_SUN, R_SUN = 6.6743e-8, 1.98847e33, 6.957e10


def setup():
    global QCCR, FH, HF, np, g, ND
    import numpy as np
    from aesolver.coupling_coefficients import QCCR
    from aesolver.frequency_handling import FH
    from hough_function import HF
    from num_deriv import NumericalDifferentiator as ND
    from vplib import gen as g


chk.setup = setup


# ---------------------------------------------------------------- structure and modes
def model(case, n=None):
    """A star with density rho_c (1 - k x^2) in hydrostatic equilibrium."""
    n = n or case['n']
    big_m, big_r, k = case['M'] * M_SUN, case['R'] * R_SUN, case['k']
    x = np.linspace(0.0, 1.0, n)
    if case['grid'] == 'edges':
        x = 0.5 * (1.0 - np.cos(np.pi * x))
    elif case['grid'] == 'random':
        x[1:-1] += g.rng(case['seed'] + n).uniform(-0.4, 0.4, n - 2) / (n - 1.0)
    rc = big_m / (4.0 * np.pi * big_r**3 * (1.0 / 3.0 - k / 5.0))
    pol = np.polynomial.Polynomial
    rho = rc * (1.0 - k * x**2)
    integ = (pol([0, 1.0 / 3.0, 0, -k / 5.0]) * pol([1.0, 0, -k])).integ()
    p = 4.0 * np.pi * G * rc**2 * big_r**2 * (integ(1.0) - integ(x) + case['pext'])
    q = 4.0 * np.pi * rc * big_r**3 / 3.0 * (1.0 - 0.6 * k * x**2)      # M_r / x^3
    s = dict(n=n, x=x, M_star=big_m, R_star=big_r, G=G, rho=rho, P=p, M_r=q * x**3)
    s['Gamma_1'] = case['g1'] + case['dg'] * x
    s['c_1'] = big_m / q
    s['U'] = 4.0 * np.pi * rho * big_r**3 / q
    s['V_2'] = G * q * rho / (p * big_r)
    s['As'] = 2.0 * k * x**2 / (1.0 - k * x**2) - s['V_2'] * x**2 / s['Gamma_1']
    s['brunt_N2'] = s['As'] * G * q / big_r**3
    s['gamma_1_adDer'] = case['adder'] * np.cos(3.0 * x) / rc
    r = x * big_r
    drho = -2.0 * k * rc * x / big_r
    s['dgravpot'] = G * q * x / big_r**2
    s['dgravpot2'] = 4.0 * np.pi * G * rho - 2.0 * G * q / big_r**3
    # d/dr of the above; d(M_r/x^3)/dx = -0.4 k x 4 pi rc R^3
    s['dgravpot3'] = 4.0 * np.pi * G * drho + 2.0 * G / big_r**4 * 0.4 * k * x * 4 * np.pi * rc * \
        big_r**3
    s['drho'], s['r'] = drho, r
    return s


def mode_dict(case, s, mo, form):
    """What is read from a GYRE detail file."""
    def cplx(v):
        v = np.asarray(v, dtype=float)
        if form == 'real':
            return v.copy()
        out = np.zeros(v.shape, dtype=[('re', 'f8'), ('im', 'f8')])
        out['re'] = v
        return out
    x, n = s['x'], s['n']
    d = {a: s[a].copy() if isinstance(s[a], np.ndarray) else s[a] for a in
         ('n', 'x', 'M_star', 'R_star', 'G', 'rho', 'P', 'M_r', 'c_1', 'U', 'V_2', 'As',
          'Gamma_1')}
    d.update(L_star=3.8e33, T=np.linspace(1e7, 1e4, n), l=mo['l'], m=mo['m'])
    dyn = math.sqrt(G * s['M_star'] / s['R_star']**3)
    d['Omega_rot'] = np.full(n, case['rot'])
    d['y_1'], d['y_2'] = (cplx(np.polynomial.Polynomial(mo[a])(x)) for a in ('y1', 'y2'))
    for a in ('xi_r', 'xi_h', 'eul_phi', 'deul_phi', 'lag_L', 'lag_L_dim'):
        d[a] = cplx(np.zeros(n))
    lam = np.full(n, mo['l'] * (mo['l'] + 1.0) * mo['lam'])
    d['lambda'] = lam + 0j if case['lam_complex'] else lam
    d['freq'] = np.array([complex(mo['w'] * dyn / (2.0 * math.pi))])
    d['freq_units'], d['freq_frame'] = b'HZ', b'COROT_I'
    return d


def profile(case, s):
    """The MESA profile, which runs from the surface inwards."""
    return {'radius': (s['r'] / R_SUN)[::-1].copy(), 'brunt_N2': s['brunt_N2'][::-1].copy(),
            'gamma_1_adDer': s['gamma_1_adDer'][::-1].copy(), 'star_age': 1.0e8,
            'model': 'x', 'num_zones': s['n']}


def poly_profile(case, s):
    return {'r': s['r'].copy(), 'mr': s['M_r'].copy(), 'rho': s['rho'].copy(), 'p': s['P'].copy(),
            'brunt_n2': s['brunt_N2'].copy(), 'c1': s['c_1'].copy(), 'v2': s['V_2'].copy(),
            'as': s['As'].copy(), 'u': s['U'].copy(), 'G': G, 'n_poly': 1.0,
            'z': 3.0 * s['x'], 'theta': s['rho'] / s['rho'].max(), 'dtheta': -s['dgravpot'],
            'Gamma_1': 5.0 / 3.0, 'n': s['n'],
            'dgravpot': s['dgravpot'].copy(), 'dgravpot2': s['dgravpot2'].copy(),
            'dgravpot3': s['dgravpot3'].copy(), 'drho': s['drho'].copy(), 'p0': s['P'].max(),
            'rho0': s['rho'].max(), 'surfgrav': s['dgravpot'].copy(), 'v': s['V_2'] * s['x']**2,
            'dp': -s['dgravpot'] * s['rho'],
            **{a: np.zeros(s['n']) for a in ('drho2', 'drho3', 'dp2', 'dp3')}}


class Unjudged(Exception):
    """Fast rotation, for which the Hough function of a mode can be ambiguous."""


def unless_fast(func):
    def wrapped(case, ctx):
        try:
            func(case, ctx)
        except Unjudged:
            ctx.label('fast rotation: not judged')
    wrapped.__name__, wrapped.__doc__ = func.__name__, func.__doc__
    return wrapped


def build(case, **over):
    """The object under test (and its frequencies and structure)."""
    s = model(case)
    modes = case['modes']
    forms = case['forms']
    # modes may have been computed on grids that are shorter than the longest one
    grids = [model(case, case['n'] - k) if k else s for k in case.get('shorter', (0, 0, 0))]
    dicts = [mode_dict(case, t, mo, f) for t, mo, f in zip(grids, modes, forms)]
    fh = FH(*dicts, my_freq_units='HZ')
    if (np.abs(fh.spin_factors) > 0.95).any():     # beyond, other eigenvalues come close
        raise Unjudged
    kw = {'npoints': 2 * case['npt'], 'conj_cc': conj_arg(case),
          'use_symbolic_derivatives': case['symbolic'], 'nr_omp_threads': case['threads'],
          'use_parallel': False,
          'use_brunt_def': case['brunt']}
    ls, ms = [mo['l'] for mo in modes], [mo['m'] for mo in modes]
    if case['poly'] != 'no':
        for d in dicts:
            for a in ('rho', 'P', 'M_r', 'c_1', 'U', 'V_2', 'As', 'T', 'L_star'):
                del d[a]
        info = poly_profile(case, model(case, case['n_prof']) if case['n_prof'] else s)
        kw.update(polytropic=True, analytic_polytrope=case['poly'] == 'analytic')
    else:
        sp = model(case, case['n_prof']) if case['n_prof'] else s
        info = profile(case, sp)
    kw.update(over)
    q = QCCR(*dicts, info, fh, ls, ms, **kw)
    return q, fh, s


def conj_arg(case):
    c = case['conj']
    return tuple(c) if isinstance(c, (list, tuple)) else c


# ---------------------------------------------------------------- reference
def trapz_w(x):
    """Weights of the trapezoidal rule."""
    w = np.zeros_like(x)
    w[1:] += np.diff(x) / 2.0
    w[:-1] += np.diff(x) / 2.0
    return w


def reference(case, fh, s, upto=None):
    """Third-order perturbation of the energy of the displaced fluid, minus one half of it.

    Modes are xi = [xi_r, xi_theta, xi_phi] exp(i (omega t - m phi)) with xi_phi = i w Hphi.
    Returns the four terms and the sum of the magnitudes of what adds up to each, for modes
    normalised to an energy of G M^2 / R, in units of that energy, and the normalising factors.
    """
    cut = slice(1, -1)
    sp = model(case, case['n_prof']) if case['n_prof'] else s
    if case['poly'] != 'no' and case['n_prof']:      # the structure is interpolated onto the grid
        s = dict(s, **{a: np.interp(s['x'], sp['x'], v) for a, v in sp.items()
                       if a not in ('x', 'Gamma_1', 'r') and isinstance(v, np.ndarray)})
        if case['poly'] == 'numeric':
            s['dgravpot'][1:] = G * s['M_r'][1:] / s['r'][1:]**2
            if case['symbolic']:
                gp, r = s['dgravpot'][1:], s['r'][1:]
                drho = s['rho'][1:] * (-s['rho'][1:] * gp / (s['Gamma_1'] * s['P'])[1:]
                                       - s['brunt_N2'][1:] / gp)
                s['dgravpot2'][1:] = 4.0 * np.pi * G * s['rho'][1:] - 2.0 * gp / r
                s['dgravpot3'][1:] = 4.0 * np.pi * G * drho + 2.0 / r * (
                    gp / r - s['dgravpot2'][1:])
    x, rad = s['x'][cut], s['R_star']
    if not case['brunt'] and case['symbolic'] and case['poly'] != 'analytic':
        # the gradient of the density is computed numerically
        nd = ND(order_derivative=1, differentiation_method='gradient')
        gp, gp2, r = s['dgravpot'][cut], s['dgravpot2'][cut], s['r'][cut]
        drho = nd.differentiate(r, s['rho'][cut])[0][1]
        s = dict(s, dgravpot3=s['dgravpot3'].copy())
        s['dgravpot3'][cut] = 4.0 * np.pi * G * drho + 2.0 / r * (gp / r - gp2)
    rho, p, g1 = s['rho'][cut], s['P'][cut], s['Gamma_1'][cut]
    c1, vg, a_s = s['c_1'][cut], (s['V_2'] * s['x']**2 / s['Gamma_1'])[cut], s['As'][cut]
    conj = conj_arg(case)
    if conj is True or not conj:
        conj = (True, False, False)
    wx = trapz_w(x)
    tens, disp, div, norms, resid, scales, big = [], [], [], [], [], [], []
    for i, mo in enumerate(case['modes']):
        om2 = fh.dimless_corot_omegas[i]**2
        lam = mo['l'] * (mo['l'] + 1.0) * mo['lam']
        pref = math.sqrt(4.0 * math.pi) * x**(mo['l'] - 2.0)
        z1, z2 = (pref * np.polynomial.Polynomial(mo[a])(x) for a in ('y1', 'y2'))
        w = z2 / (c1 * om2)
        if case['symbolic']:
            d1 = (vg - 2.0) * z1 + (lam / (c1 * om2) - vg) * z2
            four_pi_rho = 4.0 * np.pi * rho * rad**3 / s['M_star']     # U / c_1, if not interpolated
            d2 = ((1.0 - a_s / (c1 * om2)) * z1
                  + (a_s - s['U'][cut] - 1.0 + c1 * four_pi_rho) * w)
        else:
            nd = ND(order_derivative=1, differentiation_method='gradient')
            d1, d2 = (nd.differentiate(x, v)[0][1] for v in (x * z1, x * w))
        h = HF(nu=fh.spin_factors[i], l=mo['l'], m=mo['m'], npts=2 * case['npt'], lmbd=lam,
               lmbd_adjust=True, definition='lee_saio_equivalent')
        h()
        mu = h.mu_range
        sn = np.sqrt(1.0 - mu**2)
        wm = trapz_w(mu)
        nh = 1.0 / math.sqrt(2.0 * math.pi * (wm * h.hr_range**2).sum())
        hr, ht, hp, hr_t, ht_t, hp_t = (nh * v for v in (
            h.hr_range, h.ht_range, h.hp_range, h.hrp_range_theta, h.htp_range_theta,
            h.hpp_range_theta))
        # energy omega b, b = 2 omega <xi, xi> - <xi, 2 i Omega x xi>, in the units of the code
        omega, rot = fh.corot_mode_omegas[i], fh.surf_rot_angular_freq
        ang = [2.0 * math.pi * (wm * v).sum() for v in (hr**2, ht**2, hp**2, mu * ht * hp)]
        radz, radw = ((wx * x**2 * rho * (x * v)**2).sum() for v in (z1, w))
        parts = [2.0 * omega * (ang[0] * radz + (ang[1] + ang[2]) * radw),
                 -4.0 * rot * ang[3] * radw]
        energy = 2.0 * math.pi * omega * sum(parts) * rad**5
        resid.append(abs(sum(parts)) / sum(map(abs, parts)))
        if not energy > 0.0:
            return None
        nf = math.sqrt(G * s['M_star']**2 / (rad * energy))
        norms.append(nf)
        z1, w, d1, d2, dv = (nf * v for v in (z1, w, d1, d2, vg * (z1 - z2)))
        m = float(mo['m'])
        if conj[i]:
            m, hp, hp_t = -m, -hp, -hp_t
        o = np.outer
        t = np.empty((3, 3, x.size, mu.size), dtype=complex)   # t[j, i]: gradient j of xi_i
        t[0, 0], t[0, 1], t[0, 2] = o(d1, hr), o(d2, ht), 1j * o(d2, hp)
        t[1, 0], t[1, 1] = o(z1, hr_t) - o(w, ht), o(z1, hr) + o(w, ht_t)
        t[1, 2] = 1j * o(w, hp_t)
        t[2, 0] = -1j * (o(z1, m * hr / sn) + o(w, hp))
        t[2, 1] = -1j * o(w, (m * ht + mu * hp) / sn)
        t[2, 2] = o(z1, hr) + o(w, (mu * ht + m * hp) / sn)
        tens.append(t)
        bound = [o(d1, hr), o(d2, ht), o(d2, hp), o(z1, hr_t), o(w, ht), o(z1, hr), o(w, ht_t),
                 o(w, hp_t), o(z1, m * hr / sn), o(w, hp), o(w, m * ht / sn), o(w, mu * hp / sn),
                 o(w, mu * ht / sn), o(w, m * hp / sn)]
        scales.append(np.max(np.abs(bound), axis=0))
        disp.append((o(x * z1, hr), o(x * w, ht), 1j * o(x * w, hp)))
        div.append(o(dv, hr))
        big.append(o(vg * (np.abs(z1) + np.abs(z2) * nf), np.abs(hr)))
    wgt = wx.copy()
    if upto is not None:
        wgt = np.zeros_like(wx)
        wgt[:upto] = trapz_w(x[:upto])
    vol = 2.0 * math.pi * np.outer(wgt * x**2 * rad**3, wm)
    a, b, c = tens
    pair = [np.einsum('jixy,ijxy->xy', u, v) for u, v in ((a, b), (a, c), (b, c))]
    triple = (np.einsum('jixy,kjxy,ikxy->xy', a, b, c), np.einsum('jixy,kjxy,ikxy->xy', a, c, b))
    col = np.newaxis
    der = s['gamma_1_adDer'][cut] * rho if case['poly'] == 'no' else 0.0
    if case['n_prof'] and case['poly'] == 'no':
        der = rho * np.interp(s['x'], sp['x'], sp['gamma_1_adDer'])[cut]
    f1 = (p * (g1 - 1.0))[:, col]
    f2 = (p * ((g1 - 1.0)**2 + der))[:, col]
    xa, xb, xc = disp
    if case['symbolic'] or case['poly'] == 'analytic':
        gp, gp2, gp3 = s['dgravpot'][cut], s['dgravpot2'][cut], s['dgravpot3'][cut]
        if case['n_prof'] and case['poly'] == 'no' and case['brunt']:
            # the density gradient follows from the interpolated buoyancy frequency
            n2 = np.interp(s['x'], sp['x'], sp['brunt_N2'])[cut]
            drho = rho * (-rho * gp / (g1 * p) - n2 / gp)
            r = s['r'][cut]
            gp3 = 4.0 * np.pi * G * drho + 2.0 / r * (gp / r - gp2)
    else:
        nd = ND(order_derivative=1, differentiation_method='gradient')
        r = s['r'][cut]
        gp = s['dgravpot'][cut]
        gp2 = nd.differentiate(r, gp)[0][1]
        gp3 = nd.differentiate(r, gp2)[0][1]
    r = s['r'][cut]
    mixed = (gp2 / r - gp / r**2)[:, col]
    hor = [sum(u[q] * v[q] for q in (1, 2)) for u, v in ((xb, xc), (xa, xc), (xa, xb))]
    grav = [gp3[:, col] * xa[0] * xb[0] * xc[0]] + [mixed * u[0] * h for u, h in
                                                  zip((xa, xb, xc), hor)]
    grav = [rad**3 * rho[:, col] * v for v in grav]
    terms = [[f1 * div[2] * pair[0], f1 * div[1] * pair[1], f1 * div[0] * pair[2]],
             [f2 * div[0] * div[1] * div[2]], [p[:, col] * v for v in triple], grav]
    out, mag = [], []
    e = G * s['M_star']**2 / rad
    for i, ts in enumerate(terms):
        sign = -1.0 if i == 3 else 1.0
        val = sign * 0.5 * sum((vol * v).sum() for v in ts)
        out.append(val / e)
        mag.append(0.5 * sum(np.abs(vol * v).sum() for v in ts) / e)
    mag[3] += 4.0 * (np.abs(vol * rad**3) * (rho * gp / r**2)[:, col] * np.prod(
        [sum(map(np.abs, v)) for v in disp], axis=0)).sum() / e
    # rounding errors scale with what cancels in the gradients and divergences
    cubed = np.prod(scales, axis=0)
    mag[1] += (np.abs(vol * f2) * np.prod(big, axis=0)).sum() / e
    mag[0] += sum((np.abs(vol * f1) * big[q] * scales[q - 1] * scales[q - 2]).sum()
                  for q in range(3)) / e
    mag[2] += (np.abs(vol * p[:, col]) * cubed).sum() / e
    return np.array(out), np.array(mag), np.array(norms), min(resid)


# ---------------------------------------------------------------- properties
def modes_st(st, rotating=True):
    from vplib import gen
    poly = st.lists(gen.floats(st, -3.0, 3.0), min_size=1, max_size=4).filter(
        lambda v: max(map(abs, v)) > 1e-2)
    one = st.fixed_dictionaries({
        'l': st.integers(1, 3), 'mi': st.integers(-3, 3), 'w': gen.logfloat(st, 0.3, 6.0),
        'y1': poly, 'y2': poly, 'lam': st.floats(0.8, 1.2)})
    return st.tuples(one, one, one)


def finish(case, st_none=None):
    """Azimuthal orders within the degrees; most sets obey the selection rule."""
    case = dict(case)
    conj = conj_arg(case)
    if conj is True or not conj:
        conj = (True, False, False)
    sg = [-1 if c else 1 for c in conj]
    mos = [dict(mo) for mo in case['modes']]
    for mo in mos:
        mo['m'] = max(-mo['l'], min(mo['l'], mo['mi']))
    if case['rule']:
        target = -sg[0] * (sg[1] * mos[1]['m'] + sg[2] * mos[2]['m'])
        mos[0]['m'] = target
        mos[0]['l'] = max(abs(target), mos[0]['l'])
        if sum(mo['l'] - abs(mo['m']) for mo in mos) % 2:
            mos[0]['l'] += 1 if mos[0]['l'] < 4 else -1
            mos[0]['l'] = max(mos[0]['l'], abs(target), 1)
    case['modes'] = mos
    return case


def strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'n': st.integers(6, 30), 'npt': st.integers(10, 30), 'seed': st.integers(0, 10**6),
        'grid': st.sampled_from(['uniform', 'edges', 'random']), 'M': gen.logfloat(st, 0.1, 30.0),
        'R': gen.logfloat(st, 0.1, 30.0), 'k': st.floats(0.0, 0.95), 'pext': st.floats(0.01, 0.3),
        'g1': st.floats(1.2, 2.0), 'dg': st.floats(-0.1, 0.3), 'adder': st.floats(-1.0, 1.0),
        'rot': st.sampled_from([0.0, 0.01, 0.1, 0.3, 0.6]), 'modes': modes_st(st),
        'lam_complex': st.booleans(), 'brunt': st.booleans(), 'bar': st.booleans(),
        'symbolic': st.sampled_from([True, True, True, False]),
        'forms': st.tuples(*[st.sampled_from(['void', 'real'])] * 3),
        'conj': st.sampled_from([None, True, (True, False, False), (True, False, False),
                                 (False, True, False), (False, False, False), (True, True, False),
                                 (False, False, True)]),
        'rule': st.sampled_from([True, True, True, True, False]), 'threads': st.integers(1, 2),
        'poly': st.sampled_from(['no', 'no', 'no', 'numeric', 'analytic']),
        'n_prof': st.sampled_from([0, 0, 5, 41])}).map(finish)


def judged(case, fh, s):
    """The reference, unless the energies vanish."""
    ref = reference(case, fh, s)
    if ref is None or ref[3] < 1e-3:
        return None
    return ref


def selection(case):
    conj = conj_arg(case)
    if conj is True or not conj:
        conj = (True, False, False)
    return sum(-mo['m'] if c else mo['m'] for mo, c in zip(case['modes'], conj)) == 0


@chk.prop('coefficients', strategy, quick=900, thorough=16000, shards=6)
@unless_fast
def coefficients(case, ctx):
    """Terms, sum and normalisation follow from the third-order energy of the displacement."""
    with np.errstate(all='ignore'):
        q, fh, s = build(case)
        ref = judged(case, fh, s)
        if ref is None:
            ctx.label('energy vanishes: not judged')
            return
        assert q.coupling_coefficient is None and q.normed_coupling_coefficient is None
        assert q.coupling_coefficient_profile is None and q.eta_lee_coupling_coefficient is None
        q.adiabatic_coupling_rot()
    want, mag, norms, res = ref
    e = G * s['M_star']**2 / s['R_star']
    rel = 1e-8 / res
    got = np.asarray(q.coupling_terms_quadratic, dtype=float) / e
    g.close(q.normalization_factors, norms, rtol=rel, atol=0, msg='normalisation factors')
    tot = float(q.normed_coupling_coefficient)
    if not selection(case):
        assert tot == 0.0 and (got == 0.0).all(), f'orders do not cancel, coefficient {tot}'
        ctx.label('azimuthal orders do not cancel')
        return
    assert np.abs(want.imag).max() <= 1e-9 * mag.max(), 'reference is not real'
    want = want.real
    for i in range(4):
        assert abs(got[i] - want[i]) <= rel * mag[i], (
            f'term {i + 1}: {got[i]!r}, expected {want[i]!r} (magnitude {mag[i]:.2e})')
    assert abs(tot - want.sum()) <= rel * mag.sum(), f'coefficient {tot}, not {want.sum()}'
    assert abs(q.coupling_coefficient - e * want.sum()) <= rel * e * mag.sum()
    assert math.isclose(q.eta_lee_coupling_coefficient, 2.0 * tot, rel_tol=1e-12, abs_tol=0.0)
    ctx.label(f'{case["poly"]}/{"symbolic" if case["symbolic"] else "numeric"}')
    ctx.nontrivial(abs(tot) > 1e-6 * mag.sum())


@chk.prop('profiles', strategy, quick=80, thorough=1500, shards=3)
@unless_fast
def profiles(case, ctx):
    """The profile holds the coefficient integrated up to each radius; the last is the total."""
    with np.errstate(all='ignore'):
        q, fh, s = build(case)
        ref = judged(case, fh, s)
        if ref is None or not selection(case):
            return
        want, mag, _, res = ref
        with contextlib.redirect_stderr(io.StringIO()):
            q.adiabatic_coupling_rot_profile(progress_bar=case['bar'])
        prof = np.asarray(q.normed_coupling_coefficient_profile)
        parts = [np.asarray(v) for v in q.normed_contributions_coupling_coefficient_profile]
        x = s['x'][1:-1]
        assert np.array_equal(q.x, x), 'radial coordinate of the profile'
        assert prof.shape == x.shape and all(v.shape == x.shape for v in parts)
        rel = 1e-8 / res
        assert prof[0] == 0.0
        for upto in sorted({2, 2 + case['seed'] % (x.size - 1), x.size}):
            w = reference(case, fh, s, upto=upto)[0].real
            for i in range(4):
                assert abs(parts[i][upto - 1] - w[i]) <= rel * mag[i], (
                    f'term {i + 1} within {upto} points: {parts[i][upto - 1]!r}, not {w[i]!r}')
            assert abs(prof[upto - 1] - w.sum()) <= rel * mag.sum()
        assert abs(q.normed_coupling_coefficient - prof[-1]) <= rel * mag.sum()
        e = G * s['M_star']**2 / s['R_star']
        g.close(np.asarray(q.coupling_coefficient_profile), e * prof, rtol=1e-9,
                atol=1e-9 * e * mag.sum(), msg='profile in physical units')
    ctx.nontrivial(abs(prof[-1]) > 1e-6 * mag.sum())


def three_j(a, b, c, al, be, ga):
    """Wigner 3-j symbol by the Racah formula."""
    f = math.factorial
    if al + be + ga or c < abs(a - b) or c > a + b or abs(al) > a or abs(be) > b or abs(ga) > c:
        return 0.0
    t = math.sqrt(f(a + b - c) * f(a - b + c) * f(b + c - a) / f(a + b + c + 1))
    for j, m in ((a, al), (b, be), (c, ga)):
        t *= math.sqrt(f(j + m) * f(j - m))
    tot = 0.0
    for k in range(a + b + c + 1):
        ds = [k, c - b + k + al, c - a + k - be, a + b - c - k, a - k - al, b - k + be]
        if min(ds) >= 0:
            tot += (-1)**k / math.prod(map(f, ds))
    return (-1)**abs(a - b - ga) * t * tot


def wigner_strategy(st):
    def fix(case):
        case = finish(case)
        for mo in case['modes']:
            mo['lam'] = 1.0
        case.update(rot=0.0, npt=100, rule=True)
        return case
    return st.tuples(strategy(st), st.integers(0, 10**6)).map(
        lambda t: {'case': fix(t[0]), 'pick': t[1]})


@chk.prop('rotational invariance', wigner_strategy, quick=120, thorough=2500, shards=6)
@unless_fast
def wigner(case, ctx):
    """Without rotation, terms of other azimuthal orders follow by Wigner-Eckart."""
    c, pick = case['case'], case['pick']
    conj = conj_arg(c)
    if conj is True or not conj:
        conj = (True, False, False)
    sg = [-1 if v else 1 for v in conj]
    ls = [mo['l'] for mo in c['modes']]
    combos = [(a, b, d) for a in range(-ls[0], ls[0] + 1) for b in range(-ls[1], ls[1] + 1)
              for d in range(-ls[2], ls[2] + 1) if sg[0] * a + sg[1] * b + sg[2] * d == 0]
    combos = [ms for ms in combos if abs(three_j(*ls, *[u * v for u, v in zip(sg, ms)])) > 1e-9]
    if len(combos) < 2:
        ctx.label('no coupling')
        return
    r = g.rng(pick)
    vals = []
    for j in r.choice(len(combos), size=2, replace=False):
        ms = combos[j]
        cc = dict(c, modes=[dict(mo, m=m) for mo, m in zip(c['modes'], ms)])
        with np.errstate(all='ignore'):
            q, fh, s = build(cc)
            q.adiabatic_coupling_rot()
        w = three_j(*ls, *[u * v for u, v in zip(sg, ms)])
        e = G * s['M_star']**2 / s['R_star']
        ref = reference(cc, fh, s)
        if ref is None:
            return
        vals.append((ms, np.asarray(q.coupling_terms_quadratic, dtype=float) / e / w, ref[1] / abs(w)))
    (ma, va, ga), (mb, vb, gb) = vals
    tol = 4e-3 * np.maximum(ga, gb)      # of the angular quadrature
    for i in range(4):
        assert abs(abs(va[i]) - abs(vb[i])) <= tol[i], (
            f'degrees {ls}, term {i + 1} over the 3-j symbol: {va[i]!r} for orders {ma}, '
            f'{vb[i]!r} for {mb}')
    ctx.nontrivial(ma != mb and (np.abs(va) > 10 * tol).any())


def meta_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'case': strategy(st), 'how': st.sampled_from(['swap', 'scale', 'self', 'grids',
                                                      'parallel']),
        'f': st.tuples(*[gen.logfloat(st, 1e-3, 1e3, signed=True)] * 3),
        'shorter': st.sampled_from([(1, 0, 0), (0, 2, 1), (3, 3, 0), (0, 0, 1), (1, 0, 2)])})


@chk.prop('relations', meta_strategy, quick=260, thorough=5000, shards=3)
@unless_fast
def relations(case, ctx):
    """Order, scaling, multithreading, number type of the modes do not change the result."""
    c, how = dict(case['case']), case['how']
    c['n_prof'] = 0
    if how == 'self':                      # a mode that couples to itself
        mo = dict(c['modes'][0], l=2, m=0)
        c.update(modes=[mo] * 3, forms=[c['forms'][0]] * 3, conj=(False, False, False))
    elif how == 'grids':                   # linear functions are interpolated exactly
        c['modes'] = [dict(mo, y1=mo['y1'][:2], y2=mo['y2'][:2]) for mo in c['modes']]
    with np.errstate(all='ignore'):
        q, fh, s = build(c)
        ref = judged(c, fh, s)
        if ref is None:
            return
        want, mag, norms, res = ref
        q.adiabatic_coupling_rot()
        a = np.append(q.coupling_terms_quadratic, q.coupling_coefficient)
        d, kw = dict(c), {}
        sign, na = 1.0, np.array(q.normalization_factors)
        if how == 'swap':
            conj = conj_arg(c)
            conj = (True, False, False) if conj is True or not conj else conj
            d['modes'] = [c['modes'][i] for i in (0, 2, 1)]
            d['forms'] = [c['forms'][i] for i in (0, 2, 1)]
            d['conj'] = tuple(conj[i] for i in (0, 2, 1))
            na = na[[0, 2, 1]]
        elif how == 'scale':
            d['modes'] = [dict(mo, y1=[f * v for v in mo['y1']], y2=[f * v for v in mo['y2']])
                          for mo, f in zip(c['modes'], case['f'])]
            sign = float(np.prod(np.sign(case['f'])))
            na = na / np.abs(case['f'])
        elif how == 'self':
            kw['self_coupling'] = True
        elif how == 'complex':              # known finding
            kw['use_complex'] = True
        elif how == 'parallel':
            kw['use_parallel'] = True
        elif how == 'grids':
            d['shorter'] = case['shorter']
        b, _, _ = build(d, **kw)
        b.adiabatic_coupling_rot()
    e = G * s['M_star']**2 / s['R_star']
    got = np.append(b.coupling_terms_quadratic, b.coupling_coefficient)
    tol = e * np.append(mag, mag.sum()) * (1e-8 / res)
    g.close(b.normalization_factors, na, rtol=1e-8 / res, atol=0, msg=f'{how}: normalisation')
    bad = ~(np.abs(got - sign * a) <= tol)
    assert not bad.any(), f'{how}: terms and sum {got.tolist()}, {(sign * a).tolist()} expected'
    ctx.label(how)
    ctx.nontrivial(selection(c) and abs(a[-1]) > 1e-6 * tol[-1] * 1e8)


if __name__ == '__main__':
    sys.exit(chk.main())
