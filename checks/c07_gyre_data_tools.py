"""C07: conversion, cutting and normalisation of GYRE data."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C07', needs=(),
    rule='Eigenfunctions (real or complex, 2..60 points), masses, radii, mode numbers, '
         'conventions and iteration settings; GYRE-style compound arrays; attribute sets and '
         'slices are generated. Non-trivial: two or more points.',
    assumptions=['mode energies are quadratic in the eigenfunctions (what the normalisation '
                 'assumes) and numpy scalars, as in the coupling computations'])


def setup():
    global np, g, EC, UC, EN, re_im, re_im_parts, Enum
    from enum import Enum
    import numpy as np
    from vplib import gen as g
    from carr_conv import re_im, re_im_parts
    from gyre_cutter import GYRECutter as EC
    from gyre_eigen_norm import GYREEigenFunctionNormalizer as EN
    from gyre_unit_converter import GYREFreqUnitConverter as UC


chk.setup = setup


# ------------------------------------------------------------------ normalisation
def norm_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'seed': gen.seeds(st), 'n': st.integers(2, 60), 'modes': st.integers(1, 4),
        'conv': st.sampled_from(['lee2012', 'schenk2002', 'LEE2012']),
        'cplx': st.booleans(), 'names': st.integers(1, 4),
        'M': gen.logfloat(st, 1e-3, 1e3), 'R': gen.logfloat(st, 1e-3, 1e3),
        'G': gen.logfloat(st, 1e-3, 1e3), 'amp': gen.logfloat(st, 1e-4, 1e4),
        'iterate': st.booleans(), 'max_it': st.integers(1, 12),
        # relative error made by the first energy estimates, as a rounding-error stand-in
        'noise': st.lists(st.sampled_from([0.0, 0.0, 1e-3, -0.05, 0.3]), max_size=4)})


def make_object(case):
    """A stand-in for a coupling object: its energies are quadratic in the eigenfunctions."""
    r = g.rng(case['seed'])
    names = ['_xi_r', '_xi_h', '_y_1', '_eul_phi'][:case['names']]

    class Params(Enum):
        A = '_xi_r'

        @classmethod
        def access_all_parameters(cls):
            return list(names)

    class Obj:
        def __init__(self):
            self._G, self._M_star, self._R_star = case['G'], case['M'], case['R']
            self.calls = []
            self.noise = list(case['noise'])
            for i in range(1, case['modes'] + 1):
                for nm in names:
                    v = r.uniform(0.2, 2.0, case['n']) * case['amp'] * r.choice([-1.0, 1.0])
                    if case['cplx']:
                        v = v * np.exp(1j * r.uniform(0, 6.0, case['n']))
                    setattr(self, f'{nm}_mode_{i}', v)
                self.compute_b_a_mode_energy(i, first=True)

        def quad(self, i):
            return np.float64(sum(
                np.sum(np.abs(getattr(self, f'{nm}_mode_{i}')) ** 2.0) * (k + 1.0)
                for k, nm in enumerate(names)))

        def compute_b_a_mode_energy(self, i, first=False):
            q = self.quad(i)
            if first and self.noise:
                q *= 1.0 + self.noise[i % len(self.noise)]
            setattr(self, f'_energy_mode_{i}', q)
            setattr(self, f'_classic_norm_mode_{i}', q * 1.5)
            self.calls.append(i)
    return Obj(), Params, names


@chk.prop('normalisation', norm_strategy, quick=9000, thorough=30000, shards=3)
def normalisation(case, ctx):
    """Every mode reaches the energy (or norm) of the convention; shapes are untouched."""
    obj, params, names = make_object(case)
    before = {(nm, i): getattr(obj, f'{nm}_mode_{i}').copy()
              for nm in names for i in range(1, case['modes'] + 1)}
    start = [getattr(obj, f'_energy_mode_{i}') for i in range(1, case['modes'] + 1)]
    lee = case['conv'].lower() == 'lee2012'
    target = case['G'] * case['M']**2 / case['R'] if lee else case['M'] * case['R']**2
    norm = EN(obj, params, norm_convention=case['conv'], nr_modes=case['modes'],
              iterative_process=case['iterate'], max_iterations=case['max_it'])
    norm()
    fac = np.asarray(norm.normalizing_factors)
    assert fac.shape == (case['modes'],), f'{fac.shape} factors'
    noisy = any(case['noise'])
    for i in range(1, case['modes'] + 1):
        for nm in names:
            g.close(getattr(obj, f'{nm}_mode_{i}'), fac[i - 1] * before[(nm, i)], rtol=1e-11,
                    atol=0.0, msg=f'eigenfunction {nm} of mode {i} is not factor x original')
        val = obj.quad(i) * (1.0 if lee else 1.5)
        if not noisy or case['iterate']:
            assert abs(val / target - 1.0) < 1e-10, (
                f'mode {i}: {val} instead of the {case["conv"]} value {target}')
        one = np.sqrt(target / (start[i - 1] * (1.0 if lee else 1.5)))
        if not case['iterate']:
            assert abs(fac[i - 1] / one - 1.0) < 1e-12, f'mode {i}: factor {fac[i-1]} != {one}'
        got = getattr(obj, f'_energy_mode_{i}')
        assert abs(got / obj.quad(i) - 1.0) < 1e-12, 'the stored energy is out of date'
        # a flagged mode needs (more) refinement, an unflagged one has the exact value
        stored = getattr(obj, f'_energy_mode_{i}') if lee else getattr(
            obj, f'_classic_norm_mode_{i}')
        exact = (obj._G * obj._M_star**2.0 / obj._R_star if lee
                 else obj._M_star * obj._R_star**2.0)
        if not bool(norm.normalization_check_array[i - 1]):
            assert abs(stored / exact - 1.0) < 1e-12, f'mode {i} is reported as normalised'
    it = norm.iteration_characteristics
    assert it[0] == case['iterate'] and it[1] == case['max_it'] and it[2] <= case['max_it']
    if not case['iterate']:
        assert it[2] == 0
    ctx.label(case['conv'].lower() + ('/iterative' if case['iterate'] else ''))
    ctx.nontrivial(case['n'] > 1)


def exact_strategy(st):
    two = st.integers(-8, 8)
    return st.fixed_dictionaries({
        'conv': st.sampled_from(['lee2012', 'schenk2002']),
        **{k: st.integers(-4, 4).map(lambda i: 2 * i) for k in 'GMR'},    # roots are exact, too
        'xi': st.lists(two, min_size=1, max_size=4), 'off': st.lists(st.integers(-3, 3), max_size=4),
        'iterate': st.booleans(), 'max_it': st.integers(1, 5)})


@chk.prop('exact', exact_strategy, quick=500, thorough=5000)
def exact(case, ctx):
    """Powers of two, which are never rounded: exactly the modes that are off are refined."""
    n, lee = len(case['xi']), case['conv'] == 'lee2012'
    target = 2.0**(case['G'] + 2 * case['M'] - case['R'] if lee else case['M'] + 2 * case['R'])
    root = np.sqrt(target)
    assert root * root == target and np.log2(root) % 1.0 == 0.0
    off = [(case['off'] + [0] * n)[i] for i in range(n)]

    class Params(Enum):
        A = '_xi_r'

        @classmethod
        def access_all_parameters(cls):
            return ['_xi_r']

    class Obj:
        _G, _M_star, _R_star = 2.0**case['G'], 2.0**case['M'], 2.0**case['R']

        def compute_b_a_mode_energy(self, i, scale=1.0):
            q = np.float64(getattr(self, f'_xi_r_mode_{i}')[0]**2 * scale)
            setattr(self, f'_energy_mode_{i}', q if lee else 3.0 * q)
            setattr(self, f'_classic_norm_mode_{i}', 3.0 * q if lee else q)
    obj = Obj()
    for i in range(n):
        setattr(obj, f'_xi_r_mode_{i + 1}', np.array([2.0**case['xi'][i], 0.0]))
        obj.compute_b_a_mode_energy(i + 1, scale=4.0**off[i])     # a wrong first estimate
    norm = EN(obj, Params, norm_convention=case['conv'], nr_modes=n,
              iterative_process=case['iterate'], max_iterations=case['max_it'])
    norm()
    wrong = [bool(o) and not case['iterate'] for o in off]
    assert list(norm.normalization_check_array) == wrong, \
        f'refinement needed: {list(norm.normalization_check_array)}, not {wrong}'
    for i in range(n):
        want = root * 2.0**-case['xi'][i] / (2.0**off[i] if not case['iterate'] else 1.0)
        assert norm.normalizing_factors[i] == want, \
            f'factor of mode {i + 1}: {norm.normalizing_factors[i]}, not {want}'
    runs = int(any(off) and case['iterate'])
    assert norm.iteration_characteristics == (case['iterate'], case['max_it'], runs), \
        f'{norm.iteration_characteristics}: one refinement (or none) is needed'
    ctx.nontrivial(any(off))


# ------------------------------------------------------------------ cutting
CUTS = {
    ('structure_coefficient_cuts', False): ['_c_1', '_V_2', '_As', '_U'],
    ('polytropic_cuts', False): [f'_{q}_mode_{i}' for q in ('xi_h', 'xi_r', 'y_1', 'y_2')
                                 for i in (1, 2, 3)],
    ('mesa_gyre_cuts', False): [f'_{q}_mode_{i}' for q in
                                ('deul_phi', 'eul_phi', 'xi_h', 'xi_r', 'y_1', 'y_2')
                                for i in (1, 2, 3)] + ['_gamma_1_adDer_profile'],
    ('pre_profile_load_cuts', False): ['_x', '_M_r', '_rho', '_P', '_Gamma_1',
                                       '_brunt_N2_profile'],
    ('pre_profile_load_cuts', True): ['_x', '_mr_profile', '_rho_profile', '_r_profile',
                                      '_p_profile', '_Gamma_1', '_brunt_n2_profile'],
    ('profile_load_cuts_analytic_poly', False): [
        '_x', '_mr_profile', '_rho_profile', '_r_profile', '_p_profile', '_Gamma_1',
        '_brunt_n2_profile', '_drho', '_drho2', '_drho3', '_dP', '_dP2', '_dP3', '_dgravpot',
        '_dgravpot2', '_dgravpot3']}


def cut_strategy(st):
    idx = st.one_of(st.none(), st.integers(-20, 20))
    return st.fixed_dictionaries({
        'n': st.integers(1, 30),
        'what': st.sampled_from(sorted(CUTS) + [None]),
        'own': st.lists(st.sampled_from(['_a', '_b', '_c', '_x', '_rho']), unique=True),
        'slice': st.one_of(st.none(), st.tuples(idx, idx, st.sampled_from([None, 1, 2, -1]))),
        'upper': st.booleans(), 'twice': st.booleans()})


@chk.prop('cutting', cut_strategy, quick=4000, thorough=12000, shards=2)
def cutting(case, ctx):
    """All profiles of a group are cut by the same slice, and nothing else is."""
    class Obj:
        pass
    obj = Obj()
    names = {c for v in CUTS.values() for c in v} | {'_a', '_b', '_c', '_other'}
    orig = {}
    for k, nm in enumerate(sorted(names)):
        orig[nm] = np.arange(case['n']) + 100.0 * k
        setattr(obj, nm, orig[nm].copy())
    kw = {} if case['slice'] is None else {'cut_slice': slice(*case['slice'])}
    sl = slice(1, None) if case['slice'] is None else slice(*case['slice'])
    if case['what'] is None:
        group, arg, poly = case['own'], list(case['own']), False
    else:
        name, poly = case['what']
        group, arg = CUTS[tuple(case['what'])], name.upper() if case['upper'] else name
    for _ in range(2 if case['twice'] else 1):
        EC.cutter(obj, arg, polytrope=poly, **kw)
        for nm in group:
            orig[nm] = orig[nm][sl]
    for nm in names:
        got = getattr(obj, nm)
        assert np.array_equal(got, orig[nm]), f'{nm} is {got}, expected {orig[nm]}'
    ctx.nontrivial(bool(group) and case['n'] > 1)


# ------------------------------------------------------------------ conversion
def conv_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'seed': gen.seeds(st), 'n': st.integers(1, 50), 'void': st.booleans(),
        'dim': st.sampled_from(['one', 'scalar', 'array']), 'scale': gen.logfloat(st, 1e-20, 1e20),
        'unit': st.sampled_from(['CYC_PER_DAY', 'HZ', 'UHZ', 'RAD_PER_SEC', 'NONE', 'hz', '',
                                 'ACOUSTIC_CUTOFF']), 'bytes': st.booleans()})


UNITS = {'CYC_PER_DAY': 'd$^{-1}$', 'HZ': 'Hz', 'UHZ': '$\\mu$Hz', 'RAD_PER_SEC': 'rad s$^{-1}$'}


@chk.prop('conversion', conv_strategy, quick=5000, thorough=16000, shards=2)
def conversion(case, ctx):
    """Compound GYRE values become complex numbers; frequency units get their label."""
    r = g.rng(case['seed'])
    val = np.empty(case['n'], dtype=[('re', 'f8'), ('im', 'f8')])
    val['re'], val['im'] = r.normal(size=case['n']), r.normal(size=case['n'])
    keep = val.copy()
    dim = {'one': 1.0, 'scalar': case['scale'],
           'array': r.uniform(0.1, 2.0, case['n']) * case['scale']}[case['dim']]
    exp = (val['re'] + 1j * val['im']) * dim
    got = re_im(val, dim)
    assert got.dtype == np.complex128
    g.close(got, exp, rtol=1e-14, atol=0.0, msg='compound array')
    if case['void']:
        d0 = dim if np.isscalar(dim) else dim[-1]
        one = re_im(val[-1], d0)
        assert one.shape == (1,), f'a single compound value gives shape {one.shape}'
        g.close(one[0], exp[-1], rtol=1e-14, atol=0.0, msg='single compound value')
    parts = re_im_parts(val['re'], val['im'], check_for_void=case['void'])
    g.close(parts, keep['re'] + 1j * keep['im'], rtol=0, atol=0, msg='two parts')
    assert np.array_equal(val, keep), 'the input was modified'
    unit = case['unit'].encode() if case['bytes'] else case['unit']
    lab = UC.convert(unit)
    assert lab == UNITS.get(case['unit'], ''), f'{unit!r} is labelled {lab!r}'
    ctx.nontrivial(case['n'] > 1)


if __name__ == '__main__':
    sys.exit(chk.main())
