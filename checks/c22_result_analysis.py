"""C22: analysis and plots of saved triads: derived quantities, stable/valid/isolated triads."""

import contextlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C22', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv',
                  'histogram_maker'),
    rule='Result files of one to four generated models (one or several files per model, small '
         'pools of parents and daughters, so that triads compete for modes; parametric, direct '
         'and rejected triads, undefined and zero amplitudes), analysed and plotted with the '
         'public classes; the printed tables and the drawn points are compared with a direct '
         'evaluation, triad by triad, of the definitions. Non-trivial: some triads are isolated, '
         'stable and valid and others are not.',
    assumptions=['triads in the files of a model have the same quantum numbers (l, m), the same '
                 'for both daughters, and different triads have different thresholds'])


def setup():
    global h5, np, g, Analyzer, Plotter, plt, Axes, file_list
    import matplotlib
    matplotlib.use('Agg')
    import h5py as h5
    import matplotlib.pyplot as plt
    import numpy as np
    from matplotlib.axes import Axes
    from aesolver import generate_load_file_path_list as file_list
    from ae_analyzer import QuadraticAEStationaryAnalyzer as Analyzer
    from aeplotter import QuadraticAEPlotter as Plotter
    from vplib import gen as g
    np.set_printoptions(threshold=10 ** 9, linewidth=10 ** 9, precision=17)


chk.setup = setup

PATHS = {
    'surfs': 'coupling/stationary_three_mode/surface_flux_variations',
    'checks': 'checks/pre_checks',
    'gam': 'linear_driving/driving_rates',
    'theo': 'coupling/stationary_three_mode/equilibrium_theoretical_amplitudes',
    'thresh': 'coupling/stationary_three_mode/critical_parent_amplitudes',
    'n': 'quantum_numbers/n',
    'om': 'mode_frequency_info/corot_mode_omegas',
    'f': 'mode_frequency_info/corot_mode_freqs',
    'om_i': 'mode_frequency_info/inert_mode_omegas',
    'f_i': 'mode_frequency_info/inert_mode_freqs',
    'dimless': 'mode_frequency_info/inert_dimless_mode_omegas',
    'kappa': 'coupling/generic/|kappa|',
    'kappa_norm': 'coupling/generic/|kappa_norm|',
    'phase': 'coupling/stationary_three_mode/stationary_relative_luminosity_phases'}


def make_model(mo):
    """The saved quantities of the triads of one model."""
    rng = g.rng(mo['seed'])
    ps = -rng.choice(np.arange(10, 40), size=mo['np'], replace=False)
    ds = -rng.choice(np.arange(10, 60), size=mo['nd'], replace=False)
    combos = [(p, a, b) for p in ps for a, b in itertools.combinations_with_replacement(ds, 2)]
    rng.shuffle(combos)
    n_all = np.array(combos[:mo['n']], dtype=int).reshape(-1, 3)
    n = len(n_all)
    if mo['swap']:                     # daughters in any order
        sw = rng.random(n) < 0.5
        n_all[sw] = n_all[sw][:, [0, 2, 1]]
    d = {'n': n_all}
    om = rng.uniform(5e-6, 6e-5, size=(n, 3))
    det = np.where(rng.random(n) < 0.8, rng.uniform(-0.09, 0.09, n), rng.uniform(-3, 3, n))
    om[:, 0] = om[:, 1] + om[:, 2] + det * om[:, 1:].min(axis=1)
    om[om[:, 0] < 1e-6, 0] = 1e-6
    rot = mo['rot']
    d['om'], d['f'] = om, om / (2 * np.pi)
    d['om_i'] = om + np.array(mo['m']) * rot
    d['f_i'] = d['om_i'] / (2 * np.pi)
    d['dimless'] = d['om_i'] / 1e-4
    gam = 10.0 ** rng.uniform(-10, -6.5, size=(n, 3)) * np.array([1, -1, -1])
    kind = rng.random(n)
    par, direct = kind < mo['par'], kind > 1 - (1 - mo['par']) / 2
    gam[direct] *= -1
    d['gam'] = gam
    ok = rng.random((n, 6)) < mo['ok']
    ok[:, 0], ok[:, 1] = par, direct
    d['checks'] = ok
    surf = 10.0 ** rng.uniform(-6, -2, size=(n, 3))
    theo = 10.0 ** rng.uniform(-6, -2, size=(n, 3))
    thresh = theo[:, 0] * rng.uniform(0.001 if mo['low'] else 0.2, 1.2, size=n)
    bad = rng.random(n)
    nan = ((~par & ~direct) & (bad < 0.7)) | (bad < 0.05)
    surf[nan], theo[nan] = np.nan, np.nan
    thresh[~par & (bad < 0.8)] = np.nan
    zero = rng.random(n)
    theo[zero < mo['zero'], 0] = 0.0
    for j in range(3):
        surf[rng.random(n) < mo['zero'], j] = 0.0
    d['surfs'], d['theo'], d['thresh'] = surf, theo, thresh
    d['kappa'], d['kappa_norm'] = rng.normal(size=n), 10.0 ** rng.uniform(-3, 3, n)
    d['phase'] = rng.uniform(-np.pi, np.pi, n)
    return d


def write(model, mo, i, base):
    """Write the files of the model; returns the names as they are given in an inlist."""
    n = len(model['n'])
    cuts = sorted(set([0, n] + [c % (n + 1) for c in mo['cuts']]))
    names = []
    for j, (a, b) in enumerate(zip(cuts, cuts[1:])):
        names.append(f'mod_{i}_{j}')
        k = [mo['m'][0] * 0, 0, 0]
        path = f'{base}/out/{names[-1]}_k_0_0_0_m_{mo["m"][0]}_{mo["m"][1]}_{mo["m"][2]}.h5'
        with h5.File(path, 'w') as fh:
            for q, p in PATHS.items():
                fh.create_dataset(p, data=model[q][a:b])
            for name, v in (('l', [2, 1, 1]), ('m', mo['m']), ('k', k)):
                fh['quantum_numbers'].attrs[name] = v
    if len(names) == 1 and not mo['aslist']:
        return names[0]
    return names


def load_info(case, models, base):
    os.makedirs(f'{base}/out')
    names = [write(d, mo, i, base) for i, (d, mo) in enumerate(zip(models, case['models']))]
    like = lambda x: [['' if x is None else x] * len(n) if isinstance(n, list)   # noqa: E731
                      else ('' if x is None else x) for n in names]
    return {'base_file_names': names, 'specification_names': like(None),
            'file_suffix': like('h5'), 'meridional_degrees': [[0, 0, 0]] * len(names),
            'azimuthal_orders': [mo['m'] for mo in case['models']], 'nr_files': len(names),
            'output_dir': 'out', 'base_dir': base, 'use_standard_format': False,
            'masses': [4.0] * len(names), 'Xcs': [0.5] * len(names), 'triple_pairs': []}


# ---------------------------------------------------------------- definitions, one triad at a time
def divide(a, b):
    return a / b if b and not np.isnan(b) else np.nan


def triads(d, m):
    out = []
    om, gam = d['om'], d['gam']
    j = next((i for i in range(3) if m[i]), None)
    for i in range(len(d['n'])):
        t = {'n': tuple(int(x) for x in d['n'][i])}
        t['dom'] = om[i, 0] - om[i, 1] - om[i, 2]
        t['ae_par'] = t['dom'] / min(om[i])
        t['ae'] = abs(t['ae_par']) <= 0.1
        t['stable'] = all(d['checks'][i, 3:])
        t['par'], t['dir'] = bool(d['checks'][i, 0]), bool(d['checks'][i, 1])
        gsum = sum(gam[i])
        t['gsum'] = gsum
        t['q'], t['q1'] = t['dom'] / gsum, t['dom'] / gam[i, 0]
        t['Q1'] = om[i, 0] / gam[i, 0]
        t['th2'], t['th3'] = -gam[i, 1] / gam[i, 0], -gam[i, 2] / gam[i, 0]
        s = d['surfs'][i]
        if t['par']:
            t['r'] = divide(s[1], s[0]), divide(s[2], s[0])
        elif t['dir']:
            t['r'] = divide(s[0], s[1]), divide(s[0], s[2])
        else:
            t['r'] = np.nan, np.nan
        t['lum'] = d['thresh'][i] * divide(s[0], d['theo'][i, 0]) * 1e6 if t['par'] else np.nan
        t['eq'] = s[0] * 1e6
        # locked: the frequencies of the daughters add up to that of the parent
        sh = [-t['dom'] * gam[i, 0] / gsum, t['dom'] * gam[i, 1] / gsum,
              t['dom'] * gam[i, 2] / gsum]
        assert abs(t['dom'] + sh[0] - sh[1] - sh[2]) <= 1e-9 * (
            abs(t['dom']) + sum(map(abs, sh)))
        t['shift'] = sh
        t['rel'] = [sh[k] / d['om_i'][i, k] for k in range(3)]
        t['f_nl'] = [(d['om_i'][i, k] + sh[k]) * 86400 / (2 * np.pi) for k in range(3)]
        rot = 0.0 if j is None else (d['om_i'][i, j] - om[i, j]) / m[j]
        t['rot'] = rot
        t['spin'] = max(2 * rot / om[i, k] for k in range(3))
        t['sharp'] = t['dom'] / (gam[i, 1] + gam[i, 2])
        out.append(t)
    valued = [t for t in out if not np.isnan(t['lum'])]
    for t in out:
        t['iso'] = False
    for t in valued:
        mine = sorted((u for u in valued if u['n'][0] == t['n'][0]), key=lambda u: u['lum'])
        shared = [u for u in valued if u['n'][0] == t['n'][0]
                  or set(u['n'][1:]) & set(t['n'][1:])]
        t['iso'] = (all(t['lum'] <= u['lum'] for u in shared)
                    and (len(mine) == 1 or mine[1]['lum'] > mine[0]['eq']))
    for t in out:
        t['valid'] = t['ae'] and t['iso']
        t['good'] = t['stable'] and t['valid']
    return out


def clear(ts):
    """No comparison is decided by rounding."""
    v = sorted(t['lum'] for t in ts if not np.isnan(t['lum']))
    near = any(b - a <= 1e-9 * abs(b) for a, b in zip(v, v[1:]))
    for p in {t['n'][0] for t in ts}:
        mine = sorted((t for t in ts if t['n'][0] == p and not np.isnan(t['lum'])),
                      key=lambda t: t['lum'])
        near = near or (len(mine) > 1
                        and abs(mine[1]['lum'] - mine[0]['eq']) <= 1e-9 * abs(mine[0]['eq']))
    for t in ts:
        near = near or abs(abs(t['ae_par']) - 0.1) < 1e-9 or abs(t['q'] - t['Q1']) < 1e-9 * abs(
            t['q']) or any(abs(x - 1) < 1e-9 for x in t['r'])
    return not near


# ---------------------------------------------------------------- the printed tables
NUM = r'[-+]?(?:nan|inf|\d+\.?\d*(?:[eE][-+]?\d+)?)'


def numbers(text):
    return [float(x) for x in re.findall(NUM, text)]


def entries(text, marks):
    """{label: text behind it}, for labels at the start of lines."""
    pos = []
    for m in marks:
        i = text.find('\n' + m)
        assert i >= 0, f'nothing is printed for {m!r}'
        assert text.find('\n' + m, i + 1) < 0, f'{m!r} is printed twice'
        pos.append((i + 1, m))
    pos.sort()
    ends = [p for p, _ in pos[1:]] + [len(text)]
    return {m: text[p + len(m):e].split('\n\n')[0] for (p, m), e in zip(pos, ends)}


def values(found, label, expect, what):
    got = numbers(found)
    expect = [float(x) for x in np.ravel(np.array(expect, dtype=float))]
    assert len(got) == len(expect), f'{what}: {label!r}: printed {got}, expected {expect}'
    for a, b in zip(got, expect):
        assert (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-9 * abs(b), \
            f'{what}: {label!r}: printed {got}, expected {expect}'


def quiet(fn, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = fn(*a, **k)
    return r, '\n' + out.getvalue()


def expected(case, ctx, least=1):
    models = [make_model(mo) for mo in case['models']]
    ts = [triads(d, mo['m']) for d, mo in zip(models, case['models'])]
    if not all(clear(t) for t in ts):
        return None
    if any(mo['cuts'] for mo in case['models']):
        ctx.label('several files')
    al = [t for x in ts for t in x]
    if any(t['good'] for t in al):
        ctx.label('isolated')
    if any(t['iso'] and sum(u['n'][0] == t['n'][0] and not np.isnan(u['lum']) for u in x) == 1
           for x in ts for t in x):
        ctx.label('single triad of a parent')
    if any(t['n'][1] == t['n'][2] and not np.isnan(t['lum']) for t in al):
        ctx.label('harmonic')
    ctx.nontrivial(sum(t['good'] for t in al) >= least
                   and any(t['stable'] and t['ae'] and not t['iso'] for t in al))
    return models, ts


def st_model(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'seed': gen.seeds(st), 'np': st.integers(1, 5), 'nd': st.integers(2, 6),
        'n': st.integers(1, 24), 'swap': st.booleans(), 'low': st.booleans(),
        'm': st.sampled_from([[2, 1, 1], [1, 1, 0], [0, 0, 0], [2, 2, 0], [-2, -1, -1],
                              [0, 1, -1], [4, 2, 2], [1, 2, -1]]),
        'rot': st.one_of(st.just(0.0), gen.logfloat(st, 1e-8, 1e-4)),
        'par': st.sampled_from([1.0, 0.9, 0.6]), 'ok': st.sampled_from([0.98, 0.9, 0.6]),
        'zero': st.sampled_from([0.0, 0.0, 0.04, 0.1]), 'aslist': st.booleans(),
        'cuts': st.lists(st.integers(1, 23), max_size=2)})


def strategy(st):
    # with more than one model, at least one is given as a list (see the inlist)
    return st.fixed_dictionaries({'models': st.lists(st_model(st), min_size=1, max_size=4)})


def normal(case):
    if len(case['models']) > 1 and not any(mo['aslist'] for mo in case['models']):
        case['models'][-1]['aslist'] = True


@chk.prop('tables', strategy, quick=700, thorough=8000, shards=2)
def tables(case, ctx):
    """The counts and the properties that the analysis prints."""
    normal(case)
    made = expected(case, ctx)
    if made is None:
        ctx.label('close call')
        return
    models, ts = made
    base = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        info = load_info(case, models, base)
        if isinstance(info['base_file_names'][0], str) and len(ts) > 1:
            ctx.label('one file first')
        a, _ = quiet(Analyzer, info, {'plot_overview': False}, None)
        what = f'{[len(t) for t in ts]} triads'
        _, text = quiet(a.generate_mode_triad_numbers_per_model)
        for i, (x, d) in enumerate(zip(ts, models)):
            name = f'(model{i + 1}): '
            lab = {'Total nr. of Triads ': len(x),
                   'Nr. of triads with _g_box_dot_ok < 0 ': d['checks'][:, 3].sum(),
                   'Nr. of triads for which Quartic condition is fulfilled ':
                       d['checks'][:, 4].sum(),
                   'Nr. of triads fulfilling the hyperbolic condition ': d['checks'][:, 5].sum(),
                   'Nr. of triads fulfilling the AE validity condition ':
                       sum(t['ae'] for t in x),
                   'Nr. of triads fulfilling the isolation validity condition ':
                       sum(t['iso'] for t in x),
                   'Nr. of triads fulfilling the stability conditions ':
                       sum(t['stable'] for t in x),
                   'Nr. of triads fulfilling the validity conditions ':
                       sum(t['valid'] for t in x),
                   'Nr. of triads fulfilling the stability and validity conditions ':
                       sum(t['good'] for t in x)}
            for k, v in entries(text, [k + name for k in lab]).items():
                values(v.split('\n')[0], k, [lab[k[:-len(name)]]], what)
        _, text = quiet(a.generate_isolated_triad_mode_properties)
        for i, x in enumerate(ts):
            good = [t for t in x if t['good']]
            d = {q: models[i][q][[t['good'] for t in x]] for q in ('om', 'gam', 'n')}
            name = f'(model{i + 1}): '
            lab = {f'Radial orders of isolated triads {name}': d['n'],
                   f'Delta Omega of isolated triads (cpd; model{i + 1}): ':
                       [t['dom'] * 86400 for t in good],
                   f'Gamma_sum of isolated triads (10-3 cpd; model{i + 1}): ':
                       [t['gsum'] * 86400e3 for t in good],
                   f'Corot omegas of isolated triads (cpd; model{i + 1}): ':
                       d['om'].T * 86400,
                   f'Gammas of isolated triads (10-5 cpd; model{i + 1}): ':
                       d['gam'].T * 86400e5,
                   f'Maximal spin parameter of isolated triads {name}':
                       [t['spin'] for t in good]}
            for k, v in entries(text, list(lab)).items():
                values(v, k, lab[k], what)
        _, text = quiet(a.generate_isolated_triad_stab_val_estimators)
        for i, x in enumerate(ts):
            good = [t for t in x if t['good']]
            name = f'(model{i + 1}): '
            lab = {f'Radial orders of isolated triads {name}': [t['n'] for t in good],
                   f'AE parameters for isolated triads {name}': [abs(t['ae_par']) for t in good],
                   f'|q| values for isolated triads {name}': [abs(t['q']) for t in good],
                   f'|q1| values for isolated triads {name}': [abs(t['q1']) for t in good],
                   f'Theta_2 values for isolated triads {name}': [t['th2'] for t in good],
                   f'Theta_3 values for isolated triads {name}': [t['th3'] for t in good],
                   f'O(|eta1|) values for isolated triads {name}':
                       np.abs(models[i]['kappa_norm'][[t['good'] for t in x]])}
            for k, v in entries(text, list(lab)).items():
                values(v, k, lab[k], what)
        _, text = quiet(a.generate_isolated_triad_observables)
        for i, x in enumerate(ts):
            good = [t for t in x if t['good']]
            name = f'(model{i + 1}): '
            lab = {f'Radial orders of isolated triads {name}': [t['n'] for t in good],
                   'Maximal absolute non-linear frequency shifts as a fraction of the linear '
                   f'inertial-frame angular frequency (ppt; model{i + 1}): ':
                       [1e3 * max(map(abs, t['rel'])) for t in good],
                   f'Nonlinear combination phases {name}':
                       models[i]['phase'][[t['good'] for t in x]],
                   f'Surface luminosity fluctuation ratios {name}':
                       np.array([t['r'] for t in good]).T}
            for k, v in entries(text, list(lab)).items():
                values(v, k, lab[k], what)
        check_ratios(quiet(a.generate_counts_q_quality_factor_1_condition)[1], ts, what)
    finally:
        shutil.rmtree(base)


def check_ratios(text, ts, what):
    big = [[all(r > 1 for r in t['r']) for t in x] for x in ts]
    qs = [[t['q'] > t['Q1'] for t in x] for x in ts]
    flat = [(t, b, q) for x, bb, qq in zip(ts, big, qs) for t, b, q in zip(x, bb, qq)]
    al = f'(all {len(flat)} models): '
    both = 'which both predicted daughter-parent amplitude ratios are larger than unity'

    def count(fn):
        return sum(bool(fn(*f)) for f in flat)

    lab = {f'The total number of triads for which q > Q1 {al}': count(lambda t, b, q: q),
           f'The total number of triads for {both} {al}': count(lambda t, b, q: b),
           f'The total number of triads for {both} and q > Q1 {al}':
               count(lambda t, b, q: b and q),
           f'The total number of triads for {both} and q <= Q1 {al}':
               count(lambda t, b, q: b and not q),
           f'The total number of AE-valid triads for {both} {al}':
               count(lambda t, b, q: b and t['ae']),
           f'The total number of AE-invalid triads for {both} {al}':
               count(lambda t, b, q: b and not t['ae'])}
    for yes, no, key in (('stable', 'unstable', 'stable'), ('AE-valid', 'AE-invalid', 'ae'),
                         ('isolated', 'non-isolated', 'iso'), ('valid', 'invalid', 'valid'),
                         ('stable and valid', 'instable and/or invalid', 'good')):
        lab[f'The total number of {yes} triads for {both} and q > Q1 {al}'] = count(
            lambda t, b, q: b and q and t[key])
        lab[f'The total number of {no} triads for {both} and q > Q1 {al}'] = count(
            lambda t, b, q: b and q and not t[key])
    for i, qq in enumerate(qs):
        lab[f'The number of triads for q > Q1 (model{i + 1}) is '] = sum(qq)
    heads = ['Information on the triads that satisfy q > Q1 and have two predicted '
             'daughter-parent amplitude ratios larger than unity:',
             'Information on the triads that do not satisfy q > Q1 yet have two predicted '
             'daughter-parent amplitude ratios larger than unity:']
    for k, v in entries(text, list(lab)).items():
        values(v.split('\n')[0], k, [lab[k]], what)
    i, j = text.find(heads[0]), text.find(heads[1])
    assert 0 < i < j, 'information on the triads with large daughters is not printed'
    for part, want in ((text[i:j], True), (text[j:], False)):
        for i, (x, bb, qq) in enumerate(zip(ts, big, qs)):
            sel = [t for t, b, q in zip(x, bb, qq) if b and bool(q) is want]
            name = f'\nModel{i + 1} has '
            k = part.find(name)
            assert k >= 0, f'nothing is printed for model {i + 1}'
            end = part.find('\nModel', k + 1)
            own = part[k + len(name):None if end < 0 else end]
            if not sel:
                assert own.startswith('no triads'), f'{what}: {own!r}, expected no triads'
                continue
            values(own.split()[0], name, [len(sel)], what)
            rows = {'q: ': [t['q'] for t in sel], 'Q1: ': [t['Q1'] for t in sel],
                    'Daughter-parent amplitude ratio: ': [t['r'] for t in sel],
                    'Radial orders: ': [t['n'] for t in sel]}
            for lb, v in entries(own, list(rows)).items():
                values(v, lb, rows[lb], what)


# ---------------------------------------------------------------- the plots
NYQ = 283.0 * 1e-6 * 86400.0


def mirrored(f):
    """Alias of a (negative) frequency between zero and the Nyquist frequency."""
    if f >= 0 or f <= -4 * NYQ:
        return f
    f = abs(f) % (2 * NYQ)
    return min(f, 2 * NYQ - f)


@contextlib.contextmanager
def recorded(name, into):
    orig = getattr(Axes, name)

    def rec(self, *a, **k):
        into.append((a, k))
        return orig(self, *a, **k)
    setattr(Axes, name, rec)
    try:
        yield
    finally:
        setattr(Axes, name, orig)


def plot_dict(case, **k):
    return {'plot_overview': False, 'plot_resonance_sharpness': False, 'verbose': False,
            'plot_coefficient_profile': False, 'fig_size': [3.0, 2.0], 'fig_dpi': 20,
            'show_plots': False, 'cmap': 'cividis_r', 'ax_label_size': 12,
            'tick_label_size': 10, 'tick_size': 8, 'rad_nr': 2, 'tick_label_pad': 7, **k}


def save_dict(case, base):
    return {'save_base_dir': f'{base}/plots', 'save_dir': case['dir'],
            'extra_specifier_save': case['spec'], 'save_formats': case['formats'],
            'sharpness_save_name': 'sharp', 'sharpness_subdir': case['sub'],
            'overview_save_name': 'over', 'overview_subdir': case['sub']}


def st_plot(st):
    return st.fixed_dictionaries({
        'models': st.lists(st_model(st), min_size=1, max_size=3),
        'dir': st.sampled_from(['a', 'a/b']), 'sub': st.sampled_from(['', 'c', 'c/d']),
        'spec': st.sampled_from(['', 'x', 'm_1']),
        'formats': st.sampled_from([['png'], ['pdf'], ['png', 'svg']]),
        'far': st.one_of(st.just(0.0), st.floats(1e-4, 7.5e-3))})


def files_are_there(case, base, stem):
    folder = os.path.join(base, 'plots', case['dir'], case['sub'])
    want = sorted(f'{stem}{"_" + case["spec"] if case["spec"] else ""}.{f}'
                  for f in case['formats'])
    found = sorted(os.listdir(folder)) if os.path.isdir(folder) else None
    found = [f for f in found or [] if os.path.isfile(os.path.join(folder, f))]
    assert found == want, f'saved {found}, expected {want} in {folder}'
    for f in want:
        assert os.path.getsize(os.path.join(folder, f)) > 100, f'{f} is empty'


@chk.prop('overview', st_plot, quick=80, thorough=900, shards=2)
def overview(case, ctx):
    """The points of the overview plot, per category."""
    normal(case)
    for mo in case['models']:
        if case['far']:                     # large negative frequencies
            mo['m'], mo['rot'] = [-1, -1, 0], case['far']
    made = expected(case, ctx)
    if made is None:
        return
    models, ts = made
    base = tempfile.mkdtemp(dir=ctx.scratch)
    seen = []
    try:
        p, _ = quiet(Plotter, load_info(case, models, base),
                     plot_dict(case, plot_overview=True), save_dict(case, base))
        with recorded('scatter', seen):
            quiet(p.generate_plots)
        files_are_there(case, base, 'over')
    finally:
        plt.close('all')
        shutil.rmtree(base)
    got = {}
    for (x, y), k in seen:
        x, y = np.ravel(x), np.ravel(y)
        faint = k['alpha'] < 0.01
        got.setdefault(k['label'], []).extend((a, b, faint) for a, b in zip(x, y))
    want = {'Stab.': [], 'Stab. + AE': [], 'Stab. + Val.': []}
    far = 0
    for x in ts:
        for t in x:
            if not t['stable'] or t['n'][1] == t['n'][2]:
                continue
            lab = 'Stab. + Val.' if t['valid'] else 'Stab. + AE' if t['ae'] else 'Stab.'
            f = min(t['f_nl'])
            far += f < -2 * NYQ
            for r in t['r']:
                want[lab].append((mirrored(f), r, f < 0))
    if far:
        ctx.label('beyond twice the Nyquist frequency')
    assert set(got) == set(want), f'categories {set(got)}'
    for lab in want:
        assert len(got[lab]) == len(want[lab]), \
            f'{lab}: {len(got[lab]) // 2} triads are drawn, expected {len(want[lab]) // 2}'
        def order(p):
            return (round(p[0], 7), bool(p[2]), np.isnan(p[1]), 0 if np.isnan(p[1]) else p[1])
        for a, b in zip(sorted(got[lab], key=order), sorted(want[lab], key=order)):
            assert abs(a[0] - b[0]) <= 1e-9 * max(1, abs(b[0])), \
                f'{lab}: drawn at frequency {a[0]}, expected {b[0]}'
            assert (np.isnan(a[1]) and np.isnan(b[1])) or abs(a[1] - b[1]) <= 1e-9 * abs(b[1]), \
                f'{lab}: drawn at ratio {a[1]}, expected {b[1]}'
            assert bool(a[2]) is bool(b[2]), \
                f'{lab}: negative frequency {b[2]}, drawn as {a[2]}'


@chk.prop('sharpness', st_plot, quick=80, thorough=900, shards=2)
def sharpness(case, ctx):
    """The bars of the resonance sharpness plot add up to the triads they stand for."""
    normal(case)
    made = expected(case, ctx)
    if made is None:
        return
    models, ts = made
    base_sets = [[abs(t['sharp']) for x in ts for t in x if t['stable'] and t['ae']
                  and bool(t['iso']) is iso] for iso in (True, False)]
    if len(set(base_sets[0] + base_sets[1])) < 2:
        ctx.label('nothing to show')
        return
    base = tempfile.mkdtemp(dir=ctx.scratch)
    seen = []
    try:
        p, _ = quiet(Plotter, load_info(case, models, base),
                     plot_dict(case, plot_resonance_sharpness=True), save_dict(case, base))
        with recorded('bar', seen):
            quiet(p.generate_plots)
        files_are_there(case, base, 'sharp')
    finally:
        plt.close('all')
        shutil.rmtree(base)
    sets = [(d, n) for d, n in zip(base_sets, ('Isolated', 'Stable & AE-valid')) if d]
    got = {k['label']: k for _, k in seen}
    drawn = [f'{n} ({len(d)} triads)' for d, n in sets]
    assert set(drawn) <= set(got), f'bars are drawn for {set(got)}, expected {drawn}'
    for data, name in sets:
        k = got[f'{name} ({len(data)} triads)']
        x, w, hgt = (np.asarray(k[q], dtype=float) for q in ('x', 'width', 'height'))
        # the height is the percentage of the triads that are in the bin
        total = np.cumsum(hgt) * len(data) / 100.0
        data = np.array(data)
        for e, c in zip(x + w / 2, total):
            lo, hi = (data < e * (1 - 1e-7)).sum(), (data <= e * (1 + 1e-7)).sum()
            assert lo - 1e-6 <= c <= hi + 1e-6, \
                f'{name}: {c} triads up to a sharpness of {e}, expected {lo}'
        assert (hgt >= 0).all() and abs(total[-1] - len(data)) < 1e-6, \
            f'{name}: the bars add up to {hgt.sum()} %'


# ---------------------------------------------------------------- the quantities of the triads
def wanted(d, ts):
    """The quantities of all triads, under the names that are used for the figures."""
    col = lambda f: np.array([f(t) for t in ts])          # noqa: E731
    shift = np.array([t['shift'] for t in ts]).reshape(-1, 3)
    ratio = np.array([t['r'] for t in ts]).reshape(-1, 2)
    w = {'surfs': d['surfs'], 'checks': d['checks'], 'driv_damp_rates': d['gam'],
         'theoretical_amps': d['theo'], 'thresh_amp': d['thresh'], 'rad_ord': d['n'],
         'corot_mode_omegas': d['om'], 'corot_mode_freqs': d['f'],
         'inert_mode_omegas': d['om_i'], 'inert_mode_freqs': d['f_i'],
         'inert_dimless_mode_omegas': d['dimless'], 'kappa': d['kappa'],
         'kappa_norm': d['kappa_norm'], 'stationary_relative_luminosity_phase': d['phase'],
         'linear_omega_diff': col(lambda t: t['dom']),
         'linear_omega_diff_to_min_omega': col(lambda t: t['ae_par']),
         'thresh_surf_ppm': col(lambda t: t['lum']),
         'surf_ratio_daughter_parent_OG_SHAPE': ratio,
         'surf_ratio_daughter_parent': ratio.T.ravel(),
         'surf_ratio_vb_21': np.array([
             divide(s[0], s[1] * s[2]) if t['par'] or t['dir'] else np.nan
             for s, t in zip(d['surfs'], ts)]),
         'p_driv_rates': d['gam'][:, 0], 'd_damp_rates': d['gam'][:, 1:],
         'abs_kappa': np.abs(d['kappa']), 'abs_kappa_norm': np.abs(d['kappa_norm']),
         'resonance_sharpness_factor': col(lambda t: t['sharp']),
         'freq_shift_p': shift[:, 0], 'freq_shift_d': shift[:, 1:],
         'freq_shift_p_to_omega': shift[:, 0] / d['om_i'][:, 0],
         'freq_shift_d_to_omega': shift[:, 1:] / d['om_i'][:, 1:],
         'rotation_freqs': col(lambda t: t['rot']),
         'spin_parameters': 2 * col(lambda t: t['rot'])[:, None] / d['om'],
         'dimless_freq_ratio': d['dimless'] / d['om_i'],
         'harmonic_mask': d['n'][:, 1] == d['n'][:, 2]}
    for q in ('corot_mode_omegas', 'inert_mode_omegas', 'corot_mode_freqs', 'inert_mode_freqs'):
        w[f'{q}_p'], w[f'{q}_d'] = w[q][:, 0], w[q][:, 1:]
    for q in list(w):
        if q in UNITS:
            w[f'{q}_muHz'] = w[q] * 1e6
            w[f'{q}_cpd'] = w[q] * 86400
    return w


UNITS = [f'{a}_mode_{b}_{c}' for a in ('corot', 'inert') for b in ('omegas', 'freqs')
         for c in 'pd'] + ['linear_omega_diff', 'rotation_freqs', 'p_driv_rates',
                           'd_damp_rates', 'freq_shift_p', 'freq_shift_d']
# what a figure needs
ALWAYS = ['dimless_freq_ratio', 'spin_parameters', 'rotation_freqs', 'linear_omega_diff']


def st_derived(st):
    d = st_plot(st)
    return st.tuples(d, st.booleans()).map(lambda x: dict(x[0], analysis=x[1]))


@chk.prop('derived', st_derived, quick=150, thorough=2500, shards=2)
def derived(case, ctx):
    """The quantities of each triad that are derived from what is saved."""
    normal(case)
    made = expected(case, ctx)
    if made is None:
        return
    models, ts = made
    base = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        if case['analysis']:
            ob, _ = quiet(Analyzer, load_info(case, models, base), {}, {})
        else:
            ob, _ = quiet(Plotter, load_info(case, models, base),
                          plot_dict(case, plot_overview=True, plot_resonance_sharpness=True),
                          save_dict(case, base))
    finally:
        plt.close('all')
        shutil.rmtree(base)
    data = getattr(ob, '_list_data_dict', None)
    if data is None:
        ctx.label('not kept')
        return
    ctx.label('analysis' if case['analysis'] else 'figures')
    assert len(data) == len(models), f'{len(data)} models, expected {len(models)}'
    for i, (got, d, t) in enumerate(zip(data, models, ts)):
        want = wanted(d, t)
        for q in ALWAYS:
            assert case['analysis'] or q in got, f'model {i}: no {q}'
        for q in want:
            if q not in got:
                continue
            a, b = np.asarray(got[q]), np.asarray(want[q])
            assert a.shape == b.shape, f'model {i}, {q}: shape {a.shape}, expected {b.shape}'
            scale = np.abs(b.astype(float))
            # differences of frequencies lose digits
            if 'diff' in q or 'shift' in q or q == 'resonance_sharpness_factor':
                dom = np.array([x['dom'] for x in t])
                lost = np.abs(d['om']).max(axis=1) * 1e-14 / np.maximum(np.abs(dom), 1e-300)
                tol = (1e-9 + lost if b.ndim == 1 else (1e-9 + lost)[:, None]) * scale
            elif 'rotation' in q or 'spin' in q:
                top = np.abs(d['om_i']).max(axis=1) + np.abs(d['om']).max(axis=1)
                # absolute rounding errors of the rotation frequency
                err = 1e-14 * top
                tol = 1e-9 * scale + ((2 * err[:, None] / d['om']) if 'spin' in q
                                      else err * 1e6 if 'Hz' in q or 'cpd' in q else err)
            else:
                tol = 1e-9 * scale
            with np.errstate(invalid='ignore'):
                ok = (np.isnan(a) & np.isnan(b)) | (np.abs(a * 1.0 - b * 1.0) <= tol) | (a == b)
            assert ok.all(), (f'model {i}, {q}: {np.ravel(a[~ok])[:3]}, '
                              f'expected {np.ravel(b[~ok])[:3]}')


# ---------------------------------------------------------------- the names of the result files
def st_names(st):
    word = st.text('abcXYZ019_-.', min_size=1, max_size=8)
    three = st.lists(st.integers(-12, 12), min_size=3, max_size=3)
    entry = st.fixed_dictionaries({
        'parts': st.lists(st.tuples(word, st.one_of(st.just(''), word),
                                    st.sampled_from(['h5', 'hdf5'])), min_size=1, max_size=4),
        'aslist': st.booleans(), 'k': three, 'm': three,
        'mass': st.one_of(st.integers(1, 30), st.sampled_from([3.25, 12.5])),
        'xc': st.integers(0, 75), 'two': st.booleans(),
        'n': st.lists(st.tuples(st.integers(1, 99), st.integers(1, 99)), min_size=3,
                      max_size=3)})
    return st.fixed_dictionaries({'entries': st.lists(entry, min_size=1, max_size=4),
                                  'standard': st.booleans(), 'out': word, 'fewer': st.booleans()})


@chk.prop('file_names', st_names, quick=800, thorough=8000)
def file_names(case, ctx):
    """The files that are loaded are the ones that the settings name."""
    base = '/no/where'
    d = {q: [] for q in ('base_file_names', 'specification_names', 'file_suffix', 'masses', 'Xcs',
                         'triple_pairs', 'meridional_degrees', 'azimuthal_orders')}
    want = []
    for e in case['entries']:
        one = len(e['parts']) == 1 and not e['aslist']
        for q, j in (('base_file_names', 0), ('specification_names', 1), ('file_suffix', 2)):
            v = [p[j] for p in e['parts']]
            d[q].append(v[0] if one else v)
        xc = e['xc'] / 100
        d['masses'].append(e['mass'])
        d['Xcs'].append(xc)
        d['triple_pairs'].append([list(x) for x in e['n']])
        d['meridional_degrees'].append(e['k'])
        d['azimuthal_orders'].append(e['m'])
        names = []
        for b, s, f in e['parts']:
            name = b + (f'_{s}' if s else '')
            if case['standard']:
                (a1, a2), (b1, b2), (p1, p2) = e['n']
                name += (f'_M{e["mass"]}_Xc{str(xc).replace(".", "_")}'
                         f'_d{a1}_{a2}_d{b1}_{b2}_p{p1}_{p2}')
            name += '_k_' + '_'.join(map(str, e['k'])) + '_m_' + '_'.join(map(str, e['m']))
            names.append(f'{base}/{case["out"]}/{name}.{f}')
        want.append(names[0] if one else names)
    nr = len(want) - (1 if case['fewer'] and len(want) > 1 else 0)
    d.update(nr_files=nr, base_dir=base, output_dir=case['out'],
             use_standard_format=case['standard'])
    if not case['standard']:                # not needed for custom names
        for q in ('masses', 'Xcs', 'triple_pairs'):
            d.pop(q)
    got = [x if isinstance(x, str) else [str(y) for y in x] for x in file_list(d)]
    ctx.nontrivial(nr > 1 or isinstance(want[0], list))
    assert got == want[:nr], f'loads {got}, expected {want[:nr]}'


if __name__ == '__main__':
    sys.exit(chk.main())
