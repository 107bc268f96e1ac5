"""C12: mode frequencies, spin, detunings and driving rates of a set of modes."""

import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C12', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv'),
    rule='Sets of 1 to 5 modes with their own frequency units, frames and azimuthal orders are '
         'generated together with a rotation rate and the requested units. Non-trivial: rotation '
         'and a nonzero azimuthal order.',
    assumptions=['all modes of a set belong to one stellar model',
                 'co-rotating frequencies and driving rates are not zero'])

PER_DAY = 86400.0
UNITS = ['HZ', 'UHZ', 'CYC_PER_DAY', 'CPD', 'RAD_PER_SEC']
GYRE_UNITS = ['HZ', 'UHZ', 'CYC_PER_DAY', 'RAD_PER_SEC', 'NONE']


def setup():
    global FH, np, g
    import numpy as np
    from aesolver.frequency_handling import FH
    from vplib import gen as g


chk.setup = setup


def hz_per(unit, dyn):
    """Cyclic frequency in Hz of one unit; dyn = sqrt(G M / R^3)."""
    return {'HZ': 1.0, 'UHZ': 1e-6, 'CYC_PER_DAY': 1.0 / PER_DAY, 'CPD': 1.0 / PER_DAY,
            'RAD_PER_SEC': 1.0 / (2.0 * math.pi), 'NONE': dyn / (2.0 * math.pi)}[unit]


def strategy(st):
    from vplib import gen
    mode = st.fixed_dictionaries({
        'f': gen.logfloat(st, 1e-6, 1e-3, signed=True),       # Hz
        'df': gen.floats(st, -0.01, 0.01),
        'gam': gen.logfloat(st, 1e-12, 1e-6, signed=True),    # Hz
        'm': st.integers(-4, 4), 'inert': st.booleans(), 'unit': st.sampled_from(GYRE_UNITS),
        'nad_inert': st.booleans(), 'nad_unit': st.sampled_from(GYRE_UNITS)})
    return st.fixed_dictionaries({
        'modes': st.lists(mode, min_size=1, max_size=5), 'want': st.sampled_from(UNITS),
        'lower': st.booleans(), 'same_nad': st.booleans(),
        'rot': st.one_of(st.just(0.0), gen.logfloat(st, 1e-8, 1e-4, signed=True)),   # rad/s
        'rot_dim': st.booleans(), 'M': gen.logfloat(st, 1e32, 1e35),
        'R': gen.logfloat(st, 1e10, 1e13), 'npt': st.integers(1, 4),
        'shape2': st.booleans(), 'frame_array': st.booleans()})


def build(case, nad):
    G = 6.6743e-8
    dyn = math.sqrt(G * case['M'] / case['R']**3)
    out = []
    for i, mo in enumerate(case['modes']):
        same = nad and case['same_nad']
        unit = mo['nad_unit' if nad and not same else 'unit']
        inert = mo['nad_inert' if nad and not same else 'inert']
        f = mo['f'] * (1.0 + (mo['df'] if nad else 0.0))
        if inert:
            f = f + mo['m'] * case['rot'] / (2.0 * math.pi)
        val = complex(f, mo['gam'] if nad else 0.0) / hz_per(unit, dyn)
        arr = np.array([[val]] if case['shape2'] else [val])
        frame = b'INERTIAL' if inert else [b'COROT_I', b'COROT_O'][i % 2]
        dct = {'freq': arr, 'm': mo['m'], 'freq_units': unit.encode(),
               'freq_frame': np.array([frame]) if case['frame_array'] else frame,
               'G': G, 'M_star': case['M'], 'R_star': case['R']}
        prof = [7.0] * (case['npt'] - 1)     # only the outermost value is the surface
        if case['rot_dim']:
            dct['Omega_rot_dim'] = np.array(prof + [case['rot']])
        else:
            dct['Omega_rot'] = np.array(prof + [case['rot'] / dyn])
        out.append(dct)
    return out, dyn


def same(got, exp, what, scale=None):
    got, exp = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
    assert got.shape == exp.shape, f'{what}: shape {got.shape}, not {exp.shape}'
    tol = 1e-9 * np.abs(exp) + 1e-12 * (np.max(np.abs(scale)) if scale is not None else 0.0)
    bad = ~(np.abs(got - exp) <= tol)
    assert not bad.any(), f'{what}: {got} instead of {exp}'


def check_attrs(fh, case, kind, f, dyn, inv):
    """Frequencies of one kind (adiabatic or not); f: co-rotating frequencies in Hz."""
    x = '_nad' if kind else ''
    m = np.array([mo['m'] for mo in case['modes']], dtype=float)
    inert = f + m * case['rot'] / (2.0 * math.pi)
    sc = np.abs(f) + np.abs(m * case['rot'])
    two = 2.0 * math.pi
    same(getattr(fh, f'corot_mode_freqs{x}'), f * inv, f'corot_mode_freqs{x}', sc * inv)
    same(getattr(fh, f'inert_mode_freqs{x}'), inert * inv, f'inert_mode_freqs{x}', sc * inv)
    same(getattr(fh, f'corot_mode_omegas{x}'), two * f * inv, f'corot_mode_omegas{x}', sc * inv)
    same(getattr(fh, f'inert_mode_omegas{x}'), two * inert * inv, f'inert_mode_omegas{x}',
         sc * inv)
    same(getattr(fh, f'dimless_corot_omegas{x}'), two * f / dyn, f'dimless_corot_omegas{x}',
         sc / dyn)
    same(getattr(fh, f'dimless_inert_omegas{x}'), two * inert / dyn, f'dimless_inert_omegas{x}',
         sc / dyn)
    same(getattr(fh, f'dimless_corot_freqs{x}'), f / dyn, f'dimless_corot_freqs{x}', sc / dyn)
    same(getattr(fh, f'dimless_inert_freqs{x}'), inert / dyn, f'dimless_inert_freqs{x}', sc / dyn)
    for i in range(len(f)):
        for name, a, b in (('inert_corot_f', 'corot_mode_freqs', 'inert_mode_freqs'),
                           ('inert_corot_o', 'corot_mode_omegas', 'inert_mode_omegas'),
                           ('dimless_freqs', 'dimless_corot_freqs', 'dimless_inert_freqs'),
                           ('dimless_omegas', 'dimless_corot_omegas', 'dimless_inert_omegas')):
            got = getattr(fh, f'get_{name}{x}')(my_f_nr=i + 1)
            exp = [[getattr(fh, a + x)[i]], [getattr(fh, b + x)[i]]]
            assert got.shape == (2, 1) and np.array_equal(got, exp), \
                f'get_{name}{x}(my_f_nr={i + 1}): {got.tolist()} instead of {exp}'
    det = two * (f[0] - f[1:].sum()) * inv
    same(getattr(fh, f'detuning{x}'), det, f'detuning{x}', two * sc * inv)
    got = getattr(fh, f'get_detunings{x}')()
    assert np.array_equal(got, [[getattr(fh, f'detuning{x}')]] * 2), f'get_detunings{x}: {got}'
    return det


@chk.prop('frequencies', strategy, quick=9000, thorough=60000, shards=6)
def frequencies(case, ctx):
    """All derived quantities follow from the frequencies in the requested units."""
    ad, dyn = build(case, False)
    want = case['want']
    fh = FH(*ad, my_freq_units=want.lower() if case['lower'] else want)
    # `inv`: requested (cyclic) units per Hz
    inv = {'HZ': 1.0, 'UHZ': 1e6, 'CYC_PER_DAY': PER_DAY, 'CPD': PER_DAY, 'RAD_PER_SEC': 1.0}[want]
    angular = want == 'RAD_PER_SEC'
    n = len(ad)
    f = np.array([mo['f'] for mo in case['modes']])
    sc = np.abs(f) + np.abs([mo['m'] * case['rot'] for mo in case['modes']])
    assert fh.nr_of_modes == n and fh.angular == angular
    assert fh.requested_units.upper() == want
    rot = case['rot']
    same(fh.surf_rot_angular_freq_rps, rot, 'surf_rot_angular_freq_rps')
    same(fh.surf_rot_angular_freq, rot * inv, 'surf_rot_angular_freq')
    same(fh.surf_rot_freq, rot * inv / (1.0 if angular else 2.0 * math.pi), 'surf_rot_freq')
    if rot:
        same(fh.angular_conv_factor_from_rps, inv, 'angular_conv_factor_from_rps')
    det = check_attrs(fh, case, False, f, dyn, inv)
    got = np.asarray(fh.spin_factors)
    exp = 2.0 * rot / (2.0 * math.pi * f)
    tol = np.abs(exp) * (1e-9 + 1e-12 * sc / np.abs(f))
    assert (np.abs(got - exp) <= tol).all(), f'spin_factors: {got} instead of {exp}'
    # nonadiabatic information
    nad, _ = build(case, True)
    fh.set_mode_nonadiabatic_info(*nad)
    fn = np.array([mo['f'] * (1.0 + mo['df']) for mo in case['modes']])
    check_attrs(fh, case, False, f, dyn, inv)
    det_nad = check_attrs(fh, case, True, fn, dyn, inv)
    gam = 2.0 * math.pi * np.array([mo['gam'] for mo in case['modes']]) * inv
    same(fh.driving_rates, gam, 'driving_rates', 1e-3 * gam)
    same(fh.gamma_sum, gam.sum(), 'gamma_sum', 1e3 * gam)
    om = 2.0 * math.pi * f * inv
    omn = 2.0 * math.pi * fn * inv
    rel = 1e-8 + 1e-11 * (sc.max() / np.abs(f).min())
    for got, o, what in ((fh.quality_factors, om, 'quality_factors'),
                         (fh.quality_factors_nad, omn, 'quality_factors_nad')):
        exp = o / gam
        assert np.allclose(got, exp, rtol=rel, atol=0.0), f'{what}: {got} instead of {exp}'
    for got, o, what in ((fh.quality_factor_products, om, 'quality_factor_products'),
                         (fh.quality_factor_products_nad, omn, 'quality_factor_products_nad')):
        q = o / gam
        exp = np.array([q[i] * q[j] for i in range(n) for j in range(i)])   # (2,1),(3,1),(3,2)
        assert np.asarray(got).shape == exp.shape and np.allclose(got, exp, rtol=2 * rel, atol=0), \
            f'{what}: {got} instead of {exp}'
    for got, d, what in ((fh.q_factor, det, 'q_factor'), (fh.q_factor_nad, det_nad, 'q_factor_nad')):
        if abs(gam.sum()) > 1e-4 * np.abs(gam).sum():
            tol = (1e-9 * abs(d) + 1e-11 * 2 * math.pi * sc.sum() * inv) / abs(gam.sum()) \
                + 1e-9 * abs(d / gam.sum()) * np.abs(gam).sum() / abs(gam.sum())
            assert abs(got - d / gam.sum()) <= tol, f'{what}: {got} instead of {d / gam.sum()}'
    for got, d, what in ((fh.q1_factor, det, 'q1_factor'),
                         (fh.q1_factor_nad, det_nad, 'q1_factor_nad')):
        tol = (1e-9 * abs(d) + 1e-11 * 2 * math.pi * sc.sum() * inv) / abs(gam[0])
        assert abs(got - d / gam[0]) <= tol, f'{what}: {got} instead of {d / gam[0]}'
    ctx.label(want)
    ctx.label(f'{n} modes')
    ctx.nontrivial(rot != 0.0 and any(mo['m'] for mo in case['modes']))


def length_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({'case': strategy(st), 'drop': st.integers(-2, 4)})


@chk.prop('nonadiabatic lengths', length_strategy, quick=600, thorough=3000, shards=1)
def lengths(case, ctx):
    """Nonadiabatic information of another number of modes is refused."""
    ad, _ = build(case['case'], False)
    nad, _ = build(case['case'], True)
    nad = nad[:len(nad) - case['drop']] if case['drop'] > 0 else nad + nad[:1] * (-case['drop'])
    fh = FH(*ad, my_freq_units=case['case']['want'])
    try:
        fh.set_mode_nonadiabatic_info(*nad)
        ok = True
    except SystemExit:
        ok = False
    assert ok == (len(nad) == len(ad)), f'{len(ad)} modes, {len(nad)} nonadiabatic: accepted={ok}'
    ctx.nontrivial(len(nad) != len(ad))


def unknown_strategy(st):
    return st.fixed_dictionaries({'case': strategy(st),
                                  'a': st.sampled_from(UNITS), 'b': st.sampled_from(UNITS)})


@chk.prop('units', unknown_strategy, quick=2500, thorough=15000, shards=2)
def units(case, ctx):
    """Ratios, spins, quality factors do not depend on the requested units."""
    res = []
    for u in (case['a'], case['b']):
        ad, _ = build(case['case'], False)
        nad, _ = build(case['case'], True)
        fh = FH(*ad, my_freq_units=u)
        fh.set_mode_nonadiabatic_info(*nad)
        res.append(fh)
    x, y = res
    mo = case['case']['modes']
    f = np.array([q['f'] for q in mo])
    sc = np.abs(f) + np.abs([q['m'] * case['case']['rot'] for q in mo])
    rel = 1e-9 + 1e-11 * sc.max() / np.abs(f).min()
    for name in ('spin_factors', 'dimless_corot_omegas', 'dimless_corot_freqs', 'quality_factors',
                 'dimless_corot_omegas_nad', 'quality_factors_nad', 'quality_factor_products'):
        a, b = getattr(x, name), getattr(y, name)
        assert np.allclose(a, b, rtol=2 * rel, atol=0.0), \
            f'{name}: {a} in {case["a"]}, {b} in {case["b"]}'
    ctx.nontrivial(case['a'] != case['b'])


if __name__ == '__main__':
    sys.exit(chk.main())
