"""C21: a complete solve run, from an inlist and model files to the saved results."""

import contextlib
import importlib.util
import io
import itertools
import logging
import math
import os
import shutil
import sys
import tempfile
from types import SimpleNamespace

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C21', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv',
                  'histogram_maker'),
    rule='Inlists (TOML) with all settings that reach the solver, adiabatic and nonadiabatic mode '
         'files and a structure profile (or polytropic modes and structure), grids of up to eight '
         'triads, growth and damping, save names and directories; the run script is executed and '
         'its HDF5 file read back. Non-trivial: a triad that passes the checks (or a polytrope) '
         'with a coupling coefficient that is not zero.',
    assumptions=['the frequencies, coupling coefficients, verdicts and amplitudes of a single triad'
                 ' are decided by C12 to C17: here, they are computed directly from the stored '
                 'modes and compared'])


def sibling(name):
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), name + '.py')
    spec = importlib.util.spec_from_file_location('sibling_' + name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    mod.setup()
    return mod


def setup():
    global overwrite_dataset, np, h5, consts, g, star, lane, FH, QCCR, P3, di, hyper, runner, set_up_root_logger
    import h5py as h5
    import numpy as np
    from astropy import constants as consts
    from aesolver.coupling_coefficients import QCCR
    from aesolver.data_handling.data_specific.hdf5_specific import overwrite_dataset
    from aesolver.frequency_handling import FH
    from aesolver.pre_checks import PreThreeQuad as P3
    from aesolver import stability_checker as hyper
    import aerunners as runner
    from log_formatter import set_up_root_logger
    from disc_integrator import di
    from vplib import gen as g
    star, lane = sibling('c17_coupling'), sibling('c18_polytropes')


chk.setup = setup


# ---------------------------------------------------------------- cases
def strategy(st):
    from vplib import gen
    poly = st.lists(gen.floats(st, -3.0, 3.0), min_size=1, max_size=3).filter(
        lambda v: max(map(abs, v)) > 1e-2)
    lm = st.tuples(st.integers(1, 3), st.integers(-3, 3)).map(
        lambda t: (t[0], max(-t[0], min(t[0], t[1]))))
    word = st.text('abcXYZ019_', min_size=1, max_size=6)
    name = st.one_of(word, st.sampled_from(['run-1', 'M6.0_Xc0.3', 'model 2', 'a.b-c', 'v1.h5']))
    return st.fixed_dictionaries({
        'seed': st.integers(0, 10**6), 'n': st.integers(6, 20),
        'grid': st.sampled_from(['uniform', 'edges', 'random']), 'M': gen.logfloat(st, 1.0, 30.0),
        'R': gen.logfloat(st, 1.0, 30.0), 'k': st.floats(0.0, 0.95), 'pext': st.floats(0.01, 0.3),
        'g1': st.floats(1.3, 2.0), 'dg': st.floats(-0.1, 0.3), 'adder': st.floats(-1.0, 1.0),
        'rot': st.sampled_from([0.0, 0.01, 0.1, 0.2]), 'w': gen.logfloat(st, 0.5, 3.0),
        'kids': st.tuples(lm, lm), 'same': st.booleans(), 'l1': st.integers(1, 3),
        'rule': st.sampled_from([1, 1, 1, 1, 1, 0]), 'y': st.tuples(poly, poly, poly, poly),
        'parent': st.tuples(st.integers(3, 60), st.integers(1, 2)),
        'kid1': st.tuples(st.integers(3, 60), st.integers(1, 2)),
        'kid2': st.tuples(st.integers(3, 60), st.integers(1, 2)), 'overlap': st.booleans(),
        'q': gen.logfloat(st, 0.3, 6.0, signed=True), 'damp': st.floats(1.1, 6.0),
        'growth': gen.logfloat(st, 1e-8, 1e-4), 'signs': st.sampled_from(
            ['+--', '+--', '+--', '+--', '-++', '+++', '---', '+-+']),
        'adiabatic': st.booleans(), 'complex': st.booleans(), 'symbolic': st.booleans(),
        'brunt': st.booleans(), 'method': st.sampled_from(['trapz', 'simpson']),
        'conj': st.sampled_from([[True, False, False]] * 5 + [[False, False, False],
                                                             [False, True, False]]),
        'poly': st.sampled_from([0, 0, 0, 1]), 'analytic': st.booleans(),
        'cheby': st.sampled_from([False] * 12 + [True]), 'mul': st.integers(2, 4),
        'blow': st.booleans(), 'fac': st.sampled_from([10.0, 1e3, 1e5]),
        'progress': st.booleans(), 'parallel': st.just(False), 'debug': st.booleans(),
        'name': name, 'dir': st.sampled_from(['', '', 'sub', 'sub/', '/sub', 'a/b', 'a.b/c-d']),
        'extra': st.sampled_from(['', '', '', '_x', 'tag']), 'slash': st.booleans(),
        'tuples': st.booleans(), 'frame': st.sampled_from(['COROT_I', 'INERTIAL']), 'stale': st.booleans(),
        'mixed': st.booleans()}).map(finish)


def finish(case):
    """Most parents obey the selection rules; a star that is consistent with C17."""
    # complex eigenfunctions cannot be used at all (a finding of C17)
    case = dict(case, poly=bool(case['poly']), complex=case['complex'] and case['adiabatic'])
    kids = [tuple(k) for k in case['kids']]
    if case['same']:
        kids[1] = kids[0]
    m1 = kids[0][1] + kids[1][1]
    if not case['rule']:
        m1 = max(-3, min(3, m1 + 1))
    l1 = max(abs(m1), case['l1'])
    if case['rule'] and (l1 - abs(m1) + sum(a - abs(b) for a, b in kids)) % 2:
        l1 += 1
    case['lm'] = [[l1, m1], *map(list, kids)]
    if case['same'] and case['overlap']:
        case['kid2'] = case['kid1']
    case.pop('kids')
    return case


def ranges(case):
    return [list(range(a, a + b)) for a, b in (case['parent'], case['kid1'], case['kid2'])]


def triads(case):
    """All combinations of radial orders; daughters that are the same count once."""
    r, same = ranges(case), case['lm'][1] == case['lm'][2]
    return sorted({(p, *(sorted(q) if same else q)) for p in r[0]
                   for q in itertools.product(r[1], r[2])})


def mode_data(case, s):
    """All modes that the files will hold: {(l, m, n): (adiabatic dict, nonadiabatic dict)}."""
    r = ranges(case)
    lm = [tuple(x) for x in case['lm']]
    dyn = math.sqrt(star.G * s['M_star'] / s['R_star']**3)
    rot = case['rot']
    mags = [1.0, case['damp'], 1.3 * case['damp']]
    gam = {}
    corot = {}
    for i in (1, 2, 0):
        for j, n in enumerate(r[i]):
            key = (*lm[i], n)
            if key in corot:
                continue
            rng = g.rng(case['seed'] + 1000 * n + 10 * lm[i][0] + lm[i][1])
            sign = 1.0 if case['signs'][i] == '+' else -1.0
            if case['mixed'] and j:      # some triads of the grid are refused
                sign = -sign
            gam[key] = sign * case['growth'] * mags[i] * (1.0 + 0.1 * j) * case['w']
            if i:
                corot[key] = case['w'] * (1.0 + 0.2 * rng.uniform())
            else:      # resonance with the first pair of daughters
                keys = [(*lm[1], r[1][0]), (*lm[2], r[2][0])]
                tot = gam[key] + sum(gam[k] for k in keys)
                corot[key] = sum(corot[k] for k in keys) + case['q'] * tot * (1.0 + 0.3 * j)
    out = {}
    for key, w in corot.items():
        l, m, n = key
        rng = g.rng(case['seed'] + 7 * n + 100 * l + m)
        pair = []
        for kind in range(2):
            ys = [list(np.array(y) * (1.0 + 0.05 * kind)) for y in case['y']]
            flip = rng.integers(0, 2, 4)
            mo = {'l': l, 'm': m, 'lam': 1.0, 'w': w, 'y1': ys[flip[0]],
                  'y2': ys[2 + flip[1]]}
            if kind == 0:
                base = mo
            else:
                mo['y1'], mo['y2'] = ([1.05 * v for v in base[a]] for a in ('y1', 'y2'))
            d = star.mode_dict({'rot': rot, 'lam_complex': False}, s, mo, 'void')
            fr = w * dyn / (2.0 * math.pi) * (1.0 + 1e-9 * kind)
            fr += m * rot * dyn / (2.0 * math.pi) if case['frame'] == 'INERTIAL' else 0.0
            d['freq'] = np.array([complex(fr, kind * gam[key] * dyn / (2.0 * math.pi))])
            d['freq_frame'] = case['frame']
            d['freq_units'] = 'HZ'
            d['n_pg'] = -n
            d['c_rad'] = rng.normal(size=s['n'])
            x = s['n']
            for a in ('xi_r', 'xi_h', 'lag_L', 'y_1', 'y_2'):
                if a.startswith('y_') and kind == 0:
                    continue
                v = d[a]
                if not a.startswith('y_'):
                    v['re'] = rng.normal(size=x)
                v['im'] = 0.1 * rng.normal(size=x)
            d['M_star'], d['R_star'] = s['M_star'], s['R_star']
            pair.append(d)
        out[key] = pair
    return out


def lane_emden(case):
    """The structure of a polytrope, as stored by GYRE's tools."""
    zs, f = lane.lane_emden(3.0, 0.0)
    z = zs * np.linspace(0.0, 1.0, case['n'])
    z[0] = 0.0
    t, d = f(z)
    t[-1] = 0.0
    return {'z': z, 'theta': t, 'dtheta': d}


# ---------------------------------------------------------------- files
def write_modes(root, data, which):
    os.makedirs(root, exist_ok=True)
    for (l, m, n), pair in data.items():
        with h5.File(os.path.join(root, f'detail_M6_l{l}_m{m:+d}_n+{n}_g_mode.h5'), 'w') as f:
            for k, v in pair[which].items():
                if k == 'G':
                    continue
                if k == 'freq':
                    one = np.zeros(1, dtype=[('re', 'f8'), ('im', 'f8')])
                    one['re'], one['im'] = v.real, v.imag
                    f.attrs[k] = one[0]
                elif isinstance(v, np.ndarray):
                    if k == 'lambda':
                        v = np.array([(x, 0.0) for x in v], dtype=[('re', 'f8'), ('im', 'f8')])
                    f[k] = v
                else:
                    f.attrs[k] = np.bytes_(v) if isinstance(v, str) else v


def write_mesa(root, prof):
    os.makedirs(root, exist_ok=True)
    cols = {k: v for k, v in prof.items() if isinstance(v, np.ndarray)}
    w = 40
    head = {'model_number': 812, 'num_zones': prof['num_zones'], 'star_age': 1.0e8}

    def num(v):
        if isinstance(v, (int, np.integer)):
            return f'{v:>{w}}'
        a, e = f'{v:.16E}'.split('E')
        return f'{a}E{e[0]}{int(e[1:]):03d}'.rjust(w)
    with open(os.path.join(root, 'profile_M6.dat'), 'w') as f:
        f.write(''.join(f'{i + 1:>{w}}' for i in range(len(head))) + '\n')
        f.write(''.join(f'{h:>{w}}' for h in head) + '\n')
        f.write(''.join(num(v) for v in head.values()) + '\n\n')
        cols = {'zone': np.arange(1, prof['num_zones'] + 1), **cols}
        f.write(''.join(f'{i + 1:>{w}}' for i in range(len(cols))) + '\n')
        f.write(''.join(f'{h:>{w}}' for h in cols) + '\n')
        for i in range(prof['num_zones']):
            f.write(''.join(num(v[i]) for v in cols.values()) + '\n')


def toml(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(map(toml, v)) + ']'
    if isinstance(v, dict):
        return '{' + ', '.join(f'{k} = {toml(x)}' for k, x in v.items()) + '}'
    return repr(v) if not isinstance(v, str) else '"' + v + '"'


def inlist(case, root):
    lm, r = case['lm'], ranges(case)
    t = case['tuples']
    out = os.path.join(root, 'out') + ('/' if case['slash'] else '')
    return {
        'computation': {
            'parallel_pre_check': False, 'parallel_mode_coupling': case['parallel'],
            'nr_parallel_processes': 8, 'integration_method': case['method'],
            'angular': {'use_cheby': case['cheby'], 'cheby_mul': case['mul'],
                        'blow_up_protect': case['blow'], 'blow_up_fac': case['fac']},
            'compute_grid_models': True, 'compute_coefficient_profile': False,
            'display_progress': case['progress']},
        'verbosity-debug': {'verbose': False, 'debug': False, 'get_debug_info': case['debug']},
        'saving': {'solve': {'base_dir': out, 'save_dir': case['dir'],
                             'extra_specifier': case['extra'], 'save_format': 'hdf5'}},
        'information_folders': {
            'MESA': {'default': {'base_dir': root + '/', 'output_dir': root + '/mesa/'},
                     'selection': {'substrings': ['profile', 'M6'], 'substrings_to_tuple': t,
                                   'suffix': 'dat'}},
            'GYRE': {'default': {'base_dir': root + '/', 'output_dir': root + '/nothing/'},
                     'selection': {'detail_substrings': ['detail', 'M6', '_l'],
                                   'detail_substrings_to_tuple': t,
                                   'summary_substring': 'summary'}},
            'POLY': {'structure': {'default': {'base_dir': root, 'output_dir': root + '/struct/'},
                                   'selection': {'substrings': ['poly'], 'substrings_to_tuple': t,
                                                 'suffix': 'h5'}},
                     'modes': {'default': {'base_dir': root, 'output_dir': root + '/ad/'},
                               'selection': {'detail_substrings': ['_l', 'detail', 'M6'],
                                             'detail_substrings_to_tuple': t,
                                             'summary_substring': 'summary'}}}},
        'GYRE_selection': {'gyre_dir_path': root + '/',
                           'specifier': {'adiabatic': 'ad', 'nonadiabatic': 'nad'},
                           'alternative': {'directory_path': {}, 'file_name': {}}},
        'POLY_selection': {'mode_path': root + '/', 'specifier': {'modes': 'ad'},
                           'alternative': {'directory_path': {}, 'file_name': {}}},
        'POLY_model': {'mass': case['M'], 'radius': case['R']},
        'rotation': {'rot_percent': 20, 'rotating_formalism': True},
        'mode_info': {
            **{k: {'n': {'low': v[0], 'high': v[-1]}, 'l': x[0], 'm': x[1]}
               for k, v, x in zip(('parent', 'daughter_1', 'daughter_2'), r, lm)},
            'coupling': {k: {'n': v[0]} for k, v in zip(('parent', 'daughter_1', 'daughter_2'), r)}},
        'coupling_coefficient': {
            'symbolic_profiles': case['symbolic'], 'brunt_def_profiles': case['brunt'],
            'use_complex': case['complex'], 'adiabatic': case['adiabatic'],
            'terms_cc_conj': case['conj'], 'compute_for_polytrope': case['poly'],
            'analytic_polytrope': case['analytic']},
        'plotting': {'profile': {'show_kernels': False, 'show_term_by_term': False}}}


def prepare(case, root, s):
    """Files of the star: modes, and a profile or polytropic structure."""
    data = mode_data(case, s)
    write_modes(root + '/ad', data, 0)
    write_modes(root + '/nad', data, 1)
    prof = star.profile(case, s)
    write_mesa(root + '/mesa', prof)
    if case['poly']:
        os.makedirs(root + '/struct')
        le = lane_emden(case)
        with h5.File(root + '/struct/poly_n_3.h5', 'w') as f:
            for k, v in le.items():
                f[k] = v
            f.attrs['n_poly'], f.attrs['Gamma_1'] = np.array([3.0]), 5.0 / 3.0
    return data, prof


def write_inlist(case, root):
    with open(root + '/AESolver/grid.toml', 'w') as f:
        for k, v in inlist(case, root).items():
            f.write(f'[{k}]\n' + ''.join(f'{a} = {toml(b)}\n' for a, b in v.items()) + '\n')


def read_saved(root):
    """The one file that was saved: its place, data sets, attributes."""
    saved = [os.path.join(d, f) for d, _, fs in os.walk(root + '/out') for f in fs]
    assert len(saved) == 1, f'files after the run: {saved}'
    where = os.path.relpath(saved[0], root + '/out/hdf5_output')
    got, attrs = {}, {}
    with h5.File(saved[0], 'r') as f:
        f.visititems(lambda k, v: got.update({k: v[()]}) if isinstance(v, h5.Dataset) else
                     attrs.update({f'{k}/{a}': b for a, b in v.attrs.items()}))
        attrs.update(f.attrs)
    return where, got, attrs


def run_script(root, name):
    """What the command of the user does."""
    argv = [os.path.join(root, 'run_scripts/solve_quadratic.py'), 'grid', 'toml',
            os.path.join(root, 'AESolver'), '--save_file_name', name]
    old = sys.argv
    sys.argv = argv
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            runner.perform_complete_solve_run(logger=set_up_root_logger())
    finally:
        sys.argv = old
        logging.getLogger().handlers.clear()


# ---------------------------------------------------------------- expectation
def plain(case, pair, which):
    d = dict(pair[which])
    if case['poly']:
        d['M_star'] = case['M'] * consts.M_sun.cgs.value
        d['R_star'] = case['R'] * consts.R_sun.cgs.value
    for k, v in d.items():
        if isinstance(v, str):
            d[k] = v.encode()
        if isinstance(v, np.ndarray) and v.dtype.names:
            d[k] = v['re'] + 1j * v['im']
    dyn = math.sqrt(star.G * d['M_star'] / d['R_star']**3)
    d['Omega_rot_dim'] = d['Omega_rot'] * dyn
    return d


def expect(case, keys, data, s, info):
    """Results of one triad, without the grid solver."""
    ad, nad = ([plain(case, data[k], w) for k in keys] for w in (0, 1))
    conj = tuple(case['conj'])
    kw = {'use_brunt_def': case['brunt'], 'use_symbolic_derivatives': case['symbolic'],
          'nr_omp_threads': 4, 'use_parallel': False, 'store_debug': False,
          'numerical_integration_method': case['method'], 'conj_cc': conj,
          'use_cheby_integration': case['cheby'], 'cheby_order_multiplier': case['mul'],
          'cheby_blow_up_protection': case['blow'], 'cheby_blow_up_factor': case['fac']}
    ls, ms = [k[0] for k in keys], [k[1] for k in keys]
    out = {}
    if case['poly']:
        fh = FH(*ad)
        q = QCCR(*ad, info, fh, ls, ms, polytropic=True, use_complex=False,
                 analytic_polytrope=case['analytic'], **kw)
        passed = None
    else:
        fh = FH(*(ad if case['adiabatic'] else nad))
        fh.set_mode_nonadiabatic_info(*nad)
        two = keys[1] == keys[2]
        passed = bool(P3(ad, fh, triads=[(1, 2, 3)], conjugation=[conj],
                         two_mode_harmonic=two).check())
        q = None
        if passed:
            q = QCCR(*(ad if case['adiabatic'] else nad), info, fh, ls, ms, polytropic=False,
                     use_complex=case['complex'] and not case['adiabatic'], **kw)
    if q is not None:
        q.adiabatic_coupling_rot()
        out.update({'coupling/generic/|kappa|': q.coupling_coefficient,
                    'coupling/generic/|kappa_norm|': q.normed_coupling_coefficient,
                    'coupling/generic/|eta|': q.eta_lee_coupling_coefficient,
                    'coupling/generic/quadratic_terms': q.coupling_terms_quadratic,
                    'normalization/radial': q.normalization_factors})
    else:
        out.update({f'coupling/generic/{k}': 0.0 for k in ('|kappa|', '|kappa_norm|', '|eta|')})
        out['coupling/generic/quadratic_terms'] = np.zeros(4)
        out['normalization/radial'] = np.zeros(3)
    out['coupling/generic/adiabatic'] = case['adiabatic']
    names = {f'{f}_{d}mode_{o}': None for f in () for d in () for o in ()}
    for frame in ('inert', 'corot'):
        for kind in ('freqs', 'omegas'):
            for grp, suf in (('mode_frequency_info', ''), ('nad_mode_frequency_info', '_nad')):
                if suf and case['poly']:
                    continue
                names[f'{grp}/{frame}_mode_{kind}'] = f'{frame}_mode_{kind}{suf}'
                names[f'{grp}/{frame}_dimless_mode_{kind}'] = f'dimless_{frame}_{kind}{suf}'
    out.update({k: getattr(fh, v) for k, v in names.items()})
    out['rotation/spin_factors'] = fh.spin_factors
    out['rotation/surface_rotation_frequency'] = fh.surf_rot_freq
    if case['poly']:
        return out, None, q
    w, gam = fh.corot_mode_omegas, fh.driving_rates
    det = w[0] - w[1] - w[2]
    qf, qc = det / gam.sum(), det / gam[1:].sum()
    out['linear_driving/driving_rates'] = gam
    out['linear_driving/quality_factors'] = w / gam
    hyp = False
    if passed:
        jac = hyper.hyper_jac_three if keys[1] == keys[2] else hyper.hyper_jac
        jac = jac(fh.driving_rates, fh.corot_mode_omegas, fh.q_factor,
                  q.normed_coupling_coefficient)
        eig = np.linalg.eigvals(jac)
        # (nearly) singular: rounding decides
        hyp = bool(hyper.check_hyper(jac)) if np.abs(eig.real).min() > 1e-9 * np.abs(eig).max() \
            else np.nan
    out['checks/pre_checks'] = np.array([
        gam[0] > 0 and gam[1] < 0 and gam[2] < 0, gam[0] < 0 and gam[1] > 0 and gam[2] > 0,
        (gam > 0).all(), gam.sum() < 0, passed, hyp])
    three = {'detunings': det, 'gammas': gam.sum(), 'q_factors': qf, 'critical_q_factors': qc}
    amps, flux = np.zeros(3), np.zeros(3)
    crit = phase = np.nan
    if passed:
        cc = np.abs(q.eta_lee_coupling_coefficient)**2
        qq = (w / gam)
        pairs = np.array([qq[1] * qq[2], qq[0] * qq[2], qq[0] * qq[1]])
        amps = 0.5 * np.sqrt((1.0 + qf**2) / (cc * np.abs(pairs)))
        crit = 0.5 * np.sqrt((1.0 + qc**2) / (cc * pairs[0]))
        phase = math.atan(-1.0 / qf)
        for i in range(3):
            tk, ek = di.get_integrals(
                q._mu_values, *(getattr(q, f'_{a}hr_mode_{i + 1}')
                                for a in ('', 'theta_der_', 'theta_der2_')),
                'eddington', case['method'], 4, False)
            lum = nad[i]['lag_L'][-1]
            xir = ad[i]['xi_r'][-1] / ad[i]['x'][-1]
            flux[i] = amps[i] * abs(q.normalization_factors[i] * (tk * lum - ek * xir))
    three.update({'critical_parent_amplitudes': crit, 'stationary_relative_phases': phase,
                  'stationary_relative_luminosity_phases': phase,
                  'equilibrium_theoretical_amplitudes': amps, 'surface_flux_variations': flux})
    out.update({f'coupling/stationary_three_mode/{k}': v for k, v in three.items()})
    return out, passed, q


LOOSE = {'detunings', 'q_factors', 'critical_q_factors', 'critical_parent_amplitudes',
         'stationary_relative_phases', 'stationary_relative_luminosity_phases',
         'equilibrium_theoretical_amplitudes', 'surface_flux_variations'}


@chk.prop('grid', strategy, quick=150, thorough=3000, shards=6)
def grid(case, ctx):
    """The saved file holds, for every triad of the grid, what its modes imply."""
    top = tempfile.mkdtemp(dir=ctx.scratch)
    root = os.path.join(top, 'w')
    ks = [a - abs(b) for a, b in case['lm']]
    tag = f'{case["name"]}_k_{"_".join(map(str, ks))}_m_{"_".join(str(x[1]) for x in case["lm"])}.h5'
    sub = case['dir'].strip('/') + case['extra']
    s = star.model(case)
    try:
        data, prof = prepare(case, root, s)
        os.makedirs(root + '/AESolver')
        if case['stale']:     # results of an earlier run
            os.makedirs(os.path.join(root, 'out/hdf5_output', sub))
            with h5.File(os.path.join(root, 'out/hdf5_output', sub, tag), 'w') as f:
                f['coupling/generic/|eta|'] = np.full(2, 42.0)
                f['old'] = 1.0
                f.attrs['use_cheby'] = 3
        write_inlist(case, root)
        try:
            with np.errstate(all='ignore'):
                run_script(root, case['name'])
        except SystemExit:
            # Chebyshev quadrature refuses to extrapolate (see C16)
            assert case['cheby'] or case['blow'], 'the run exited'
            ctx.label('exit')
            info = None if case['poly'] else prof
            if info is not None:
                for t in triads(case):
                    keys = [(*x, n) for x, n in zip(map(tuple, case['lm']), t)]
                    try:
                        with np.errstate(all='ignore'), contextlib.redirect_stderr(io.StringIO()):
                            expect(case, keys, data, s, info)
                    except SystemExit:
                        return
                raise AssertionError('the run exited') from None
            return
        where, got, attrs = read_saved(root)
        if case['poly']:
            from aesolver.model_handling import ModelLoader
            load = ModelLoader(base_dir=root, polytrope_model_output_dir=root + '/struct/',
                               polytrope_model_substrings=['poly'], infer_dir=False,
                               use_polytrope_data=True)
            load.read_data_files(polytrope_model=True, polytrope_mass=case['M'] * consts.M_sun.cgs.value,
                                 polytrope_radius=case['R'] * consts.R_sun.cgs.value)
            info = load.polytrope_model[0]
        else:
            info = prof
    finally:
        shutil.rmtree(top)
    assert where == os.path.normpath(os.path.join(sub, tag)), \
        f'saved as {where!r}, asked for {tag!r} in {sub!r}'
    for name, v in (('l', [x[0] for x in case['lm']]), ('m', [x[1] for x in case['lm']]),
                    ('k', ks)):
        assert list(attrs[f'quantum_numbers/{name}']) == v, f'{name}: {attrs}'
    for name, v in (('num_int_method', case['method']), ('use_cheby', case['cheby']),
                    ('cheby_order_mul', case['mul']), ('cheby_blow_up', case['blow']),
                    ('cheby_blow_up_fac', case['fac'])):
        assert attrs[name] == v, f'{name}: {attrs[name]!r}, not {v!r}'
    orders = [tuple(map(int, x)) for x in got.pop('quantum_numbers/n')]
    want = triads(case)
    same = case['lm'][1] == case['lm'][2]
    listed = sorted((t[0], *(sorted(t[1:]) if same else t[1:])) for t in orders)
    if same:     # C04 decides (and has a finding) on repeated triads and pairs of one range
        rs = ranges(case)
        listed = sorted({t for t in listed if t in want or not any(
            t[1] in x and t[2] in x for x in rs[1:])})
    assert listed == want, \
        f'triads {orders}, not {want}'
    wu = got.pop('mode_statistics/wu')
    assert list(wu) == [a - abs(b - c) for a, b, c in orders], f'wu {wu} of {orders}'
    useful = False
    for j, t in enumerate(orders):
        keys = [(*x, n) for x, n in zip(map(tuple, case['lm']), t)]
        with np.errstate(all='ignore'), contextlib.redirect_stderr(io.StringIO()):
            exp, passed, q = expect(case, keys, data, s, info)
        assert set(got) == set(exp), f'data sets {sorted(set(got) ^ set(exp))}'
        terms = np.asarray(exp['coupling/generic/quadratic_terms'])
        cancel = np.abs(terms).max() / max(abs(terms.sum()), 1e-300) if terms.any() else 1.0
        for name, v in exp.items():
            x = got[name][j]
            at = 0.0
            if name == 'checks/pre_checks':
                v = np.where(np.isnan(v), x, v)
            loose = name.split('/')[-1] in LOOSE
            scale = np.abs(np.asarray(exp['mode_frequency_info/corot_mode_omegas'])).max()
            rt = 1e-9
            if loose:
                rt = 1e-9 + 1e-12 * scale / max(abs(exp[
                    'coupling/stationary_three_mode/detunings']), 1e-300)
            if name.startswith('coupling/'):
                rt += 1e-10 * cancel
            if name.endswith('terms'):
                at = 1e-10 * np.abs(terms).max()
            g.close(np.asarray(x, dtype=float), np.asarray(v, dtype=float), rtol=rt, atol=at,
                    msg=f'{name} of triad {t} (passes: {passed})')
        if q is not None and q.coupling_coefficient:
            useful = True
        ctx.label('polytrope' if case['poly'] else f'passes={passed}')
    ctx.nontrivial(useful)


def st_over(st):
    from vplib import gen
    value = st.fixed_dictionaries({
        'shape': st.one_of(st.just([]), st.lists(st.integers(0, 4), min_size=1, max_size=3)),
        'kind': st.sampled_from(['f8', 'f8', 'f8', 'i8', '?', 'S2', 'S5', 'c16', 'empty']),
        'seed': gen.seeds(st)})
    return st.fixed_dictionaries({
        'values': st.lists(value, min_size=2, max_size=5), 'again': st.booleans(),
        'path': st.sampled_from(['a', 'a/b', 'coupling/generic/|eta|'])})


def one_value(v):
    if v['kind'] == 'empty':
        return h5.Empty('f')
    r = g.rng(v['seed'])
    x = r.normal(scale=1e3, size=tuple(v['shape']))
    if v['kind'] == '?':
        return np.asarray(x > 0)
    if v['kind'][0] == 'S':
        return np.asarray(np.abs(x).astype(int) + 1).astype(v['kind'])
    return np.asarray(x * (1 + 2j) if v['kind'] == 'c16' else x).astype(v['kind'])


@chk.prop('overwritten', st_over, quick=600, thorough=8000, shards=2)
def overwritten(case, ctx):
    """A data set that is overwritten in an existing file holds the new values, nothing else."""
    vals = [one_value(v) for v in case['values']]
    if case['again']:
        vals[1:1] = [vals[0]]
    path = os.path.join(ctx.scratch, 'over.h5')
    with h5.File(path, 'w') as f:
        f.create_dataset(case['path'], data=vals[0])
        f.create_dataset('other', data=[1.0, 2.0])
    for v in vals[1:]:
        with h5.File(path, 'r+') as f:
            logging.disable(logging.CRITICAL)
            try:
                overwrite_dataset(f, case['path'], v)
            finally:
                logging.disable(logging.NOTSET)
        with h5.File(path, 'r') as f:
            got = f[case['path']][()]
            assert np.array_equal(f['other'][()], [1.0, 2.0]), 'another data set changed'
        if isinstance(v, h5.Empty):
            assert isinstance(got, h5.Empty), f'{got!r} is stored instead of an empty value'
        else:
            assert not isinstance(got, h5.Empty), 'nothing is stored'
            assert np.shape(got) == v.shape, f'shape {np.shape(got)}, expected {v.shape}'
            assert np.array_equal(got, v), f'{got!r} is stored instead of {v!r}'
    kinds = {(v['kind'], tuple(v['shape'])) for v in case['values']}
    ctx.label('one type, other shape' if len({k for k, _ in kinds}) == 1 < len(kinds)
              else 'mixed' if len(kinds) > 1 else 'same')
    ctx.nontrivial(len(kinds) > 1)


@chk.prop('combined', strategy, quick=36, thorough=800, shards=6)
def combined(case, ctx):
    """The solver for grids and profiles in one (QuadRotAESolver) gives what the grid solver gives."""
    from aerunners import solve_quadratic
    from aesolver import QuadRotAESolver
    known = solve_quadratic.QuadraticAEGridSolver

    def both(argv, **kw):
        kw.pop('progress_bars')
        made = {'compute_grid': True, 'compute_profile': False}
        for bad in (False, True):
            try:
                QuadRotAESolver(argv, {}, compute_grid=bad, compute_profile=bad, **kw)
            except RuntimeError:
                continue
            raise AssertionError(f'grid and profile are both {bad}, which is not refused')
        return QuadRotAESolver(argv, {}, **made, **kw)
    s = star.model(case)
    out = []
    for cls in (known, both):
        top = tempfile.mkdtemp(dir=ctx.scratch)
        root = os.path.join(top, 'w')
        try:
            prepare(case, root, s)
            os.makedirs(root + '/AESolver')
            write_inlist(case, root)
            solve_quadratic.QuadraticAEGridSolver = cls
            try:
                with np.errstate(all='ignore'):
                    run_script(root, case['name'])
                out.append(read_saved(root))
            except SystemExit:
                out.append(None)     # refused quadrature (C16)
        finally:
            solve_quadratic.QuadraticAEGridSolver = known
            shutil.rmtree(top)
    a, b = out
    assert (a is None) == (b is None), f'grid solver exits: {a is None}, combined: {b is None}'
    if a is None:
        ctx.label('exit')
        return
    assert a[0] == b[0], f'saved as {b[0]!r}, not {a[0]!r}'
    for x, y, what in ((a[1], b[1], 'data set'), (a[2], b[2], 'attribute')):
        assert set(x) == set(y), f'{what}s {sorted(set(x) ^ set(y))}'
        for k, v in x.items():
            v, w = np.asarray(v), np.asarray(y[k])
            if v.dtype.kind not in 'fc':
                assert v.shape == w.shape and (v == w).all(), f'{what} {k}: {w}, not {v}'
                continue
            terms = np.abs(a[1]['coupling/generic/quadratic_terms']).max(initial=0.0)
            size = np.abs(v[np.isfinite(v)]).max(initial=0.0)
            g.close(w, v, rtol=1e-9, atol=1e-12 * (max(size, terms) if 'coupling/' in k else size),
                    msg=f'{what} {k}')
    ctx.label('polytrope' if case['poly'] else 'star')
    ctx.nontrivial(bool(np.any(a[1]['coupling/generic/|eta|'])))


if __name__ == '__main__':
    sys.exit(chk.main())
