"""C25: comparison of adiabatic with nonadiabatic modes, and the file that says where they are."""

import contextlib
import importlib.util
import io
import itertools
import os
import re
import shutil
import sys
import tempfile

os.environ['MPLBACKEND'] = 'Agg'
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C25', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv',
                  'histogram_maker'),
    rule='Stars with adiabatic and nonadiabatic mode files (HDF5) for one to eight triads, on grids '
         'of different sizes, between directories of other rotation rates; structure profiles '
         '(text); files with information on folders, in any order of entries, in one of the '
         'directories that are searched. Non-trivial: the two computations differ, and the triad is '
         'not the only one (figures); three entries or more (folders).')


def sibling(name):
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), name + '.py')
    spec = importlib.util.spec_from_file_location('sibling_' + name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    mod.setup()
    return mod


def setup():
    global np, run, star, g, plt, Comparer, InputGen, Info
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import numpy as np
    from matplotlib.figure import Figure
    Figure.tight_layout = lambda *a, **k: None      # takes most of the time
    from aesolver import AdNadComparer as Comparer
    from aesolver.mode_input_generator import InputGen
    from aesolver.read_load_info import InfoDirHandler as Info
    from vplib import gen as g
    run = sibling('c21_solve_run')
    star = run.star


chk.setup = setup


# ---------------------------------------------------------------- information on folders
ENTRIES = {
    'MESA base folder/directory': 'base_dir',
    'MESA default output folder/directory': 'mesa_output_dir',
    'MESA default profile substrings': 'mesa_profile_substrings',
    'MESA default suffix': 'mesa_suffix',
    'GYRE base folder/directory': 'gyre_base_dir',
    'GYRE default output folder/directory': 'gyre_output_dir',
    'GYRE default detail substring': 'gyre_detail_substring',
    'GYRE default summary substring': 'gyre_summary_substring',
    'POLYTROPE structure base folder/directory': 'poly_base_dir',
    'POLYTROPE structure default output folder/directory': 'poly_struct_dir',
    'POLYTROPE default structure substrings': 'poly_struct_substrings',
    'POLYTROPE default structure suffix': 'poly_struct_suffix',
    'POLYTROPE mode base folder/directory': 'poly_mode_base_dir',
    'POLYTROPE mode default output folder/directory': 'poly_mode_dir',
    'POLYTROPE mode default detail substring': 'poly_mode_substrings',
    'POLYTROPE mode default summary substring': 'poly_summary_substring'}
COMPARE = ['base_dir', 'mesa_output_dir', 'mesa_profile_substrings', 'mesa_suffix',
           'gyre_detail_substring', 'gyre_summary_substring']
LOAD = COMPARE + ['gyre_output_dir']


def literal(v, quote):
    """How a value is written in the file."""
    if isinstance(v, (tuple, list)):
        inner = ','.join(literal(x, quote) for x in v)
        return f'({inner},)' if len(v) == 1 else f'({inner})'
    return quote + v + quote


def folder_file(path, items, quotes, gap):
    with open(path, 'w') as f:
        for (k, v), q in zip(items, itertools.cycle(quotes)):
            f.write(f'# {k}\n{literal(v, q)}\n' + '\n' * gap)


def folders_strategy(st):
    one = st.text('abzAZ019_-+/. ()&=', max_size=12)
    many = st.lists(st.text('abzAZ019_.', min_size=1, max_size=6), max_size=4)
    return st.fixed_dictionaries({
        'items': st.lists(st.tuples(st.sampled_from(sorted(ENTRIES)), st.one_of(one, one, many)),
                          min_size=1, max_size=16, unique_by=lambda t: t[0]),
        'quotes': st.lists(st.sampled_from('\'"'), min_size=1, max_size=3),
        'gap': st.integers(0, 2),
        'where': st.sampled_from(['cwd', 'run', 'both', 'nowhere']),
        'sub': st.sampled_from([None, None, 'folders/', 'a/b', './x/']),
        'name': st.sampled_from([None, None, 'dirs.dat', 'my.folders'])})


@chk.prop('folders', folders_strategy, quick=1200, thorough=20000, shards=3)
def folders(case, ctx):
    """Each entry has the value below its comment; subsets are those for loading/comparing."""
    top = os.path.realpath(tempfile.mkdtemp(dir=ctx.scratch))
    wd = os.getcwd()
    sub = case['sub'] or 'data/setup_data/'
    name = case['name'] or 'information_folders.dat'
    items = [(k, tuple(v) if isinstance(v, list) else v) for k, v in case['items']]
    want = {ENTRIES[k]: v for k, v in items}
    try:
        for d in ('cwd', 'repo/a/b'):
            os.makedirs(f'{top}/{d}')
        for d, use in (('cwd', case['where'] in ('cwd', 'both')),
                       ('repo', case['where'] in ('run', 'both'))):
            os.makedirs(f'{top}/{d}/{sub}', exist_ok=True)
            other = [(k, 'wrong') for k in ENTRIES]
            folder_file(f'{top}/{d}/{sub}/{name}x', other, '"', 0)
            if use:
                right = d == 'cwd' or case['where'] == 'run'
                folder_file(f'{top}/{d}/{sub}/{name}', items if right else other, case['quotes'],
                            case['gap'])
        os.chdir(f'{top}/cwd')
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                r = Info([f'{top}/repo/a/b/run.py', 'x'], alternative_directory_path=case['sub'],
                         alternative_file_name=case['name'])
            except FileNotFoundError:
                assert case['where'] == 'nowhere', 'the file is not found'
                return
            assert case['where'] != 'nowhere', 'a file that does not exist is read'
            r.parse_info_directories()
    finally:
        os.chdir(wd)
        shutil.rmtree(top)
    for got, keys, what in ((r.full_info, list(want), 'all'), (r.load_info, LOAD, 'load'),
                            (r.gyre_comparison_info, COMPARE, 'comparison')):
        exp = {k: v for k, v in want.items() if k in keys}
        assert got == exp, f'{what}: {got}, not {exp}'
    ctx.label(case['where'])
    ctx.nontrivial(len(items) > 2)


# ---------------------------------------------------------------- figures
COLUMNS = ['h1', 'h2', 'he3', 'he4', 'brunt_N2', 'brunt_N2_structure_term',
           'brunt_N2_composition_term', 'lamb_S2', 'csound', 'hyeq_lhs', 'hyeq_rhs',
           'gamma_1_adDer', 'log_D_mix', 'log_D_conv', 'log_D_ovr', 'log_D_minimum', 'pressure',
           'logRho', 'logT', 'grada', 'gradT', 'gradr']
PROFILES = [COLUMNS[:4], COLUMNS[4:7], ['lamb_S2'], ['csound'], None, ['gamma_1_adDer'],
            COLUMNS[12:16], ['pressure'], ['logRho'], ['logT'], COLUMNS[19:22]]


def strategy(st):
    return st.tuples(run.strategy(st), st.fixed_dictionaries({
        'radius': st.booleans(), 'pct': st.integers(0, 99), 'paths': st.booleans(),
        'step': st.sampled_from([1, 1, 2, 3]), 'shift': st.booleans(),
        'nad': st.sampled_from([0.9, 0.99, 1.0, 1.05]), 'pick': st.integers(0, 63), 'zones': st.integers(3, 40),
        'tuples': st.booleans(), 'order': st.permutations(range(6)), 'first': st.booleans(),
        'frame': st.sampled_from(['COROT_I', 'INERTIAL']), 'profiles': st.booleans()})).map(
            lambda t: dict(t[0], poly=False, mixed=False, **{'v_' + k: v for k, v in t[1].items()}))


def shown():
    out = []
    for k in plt.get_fignums():
        axes = []
        for ax in plt.figure(k).axes:
            leg = ax.get_legend()
            axes.append({
                'lines': [(np.asarray(ln.get_xdata(), dtype=float),
                           np.asarray(ln.get_ydata(), dtype=float), ln.get_label())
                          for ln in ax.lines],
                'title': ax.get_title(), 'x': ax.get_xlabel(), 'y': ax.get_ylabel(),
                'xlim': ax.get_xlim(),
                'legend': [] if leg is None else [t.get_text() for t in leg.get_texts()]})
        out.append(axes)
    plt.close('all')
    return out


def same(got, want, what):
    assert len(got) == len(want), f'{what}: {len(got)} points, not {len(want)}'
    g.close(got, want, rtol=1e-9, atol=1e-12 * (np.abs(want).max() + 1e-300), msg=what)


@chk.prop('figures', strategy, quick=240, thorough=5000, shards=8)
def figures(case, ctx):
    """Figures show the modes of the triad that is asked for, from both computations."""
    v = {k[2:]: x for k, x in case.items() if k.startswith('v_')}
    case = dict(case, frame=v['frame'])
    top = os.path.realpath(tempfile.mkdtemp(dir=ctx.scratch))
    root = os.path.join(top, 'w')
    s = star.model(case)
    rng = g.rng(case['seed'] + 11)
    data = run.mode_data(case, s)
    lm, r = [tuple(x) for x in case['lm']], run.ranges(case)
    for (l, m, n), pair in data.items():
        for which, d in enumerate(pair):
            d['n_g'], d['n_p'] = n, 0
            if which == 1 and 'freq' in d and np.ndim(d['freq']):
                d['freq'] = d['freq'] * v.get('nad', 1.0)
            if which == 1 and v['step'] > 1:      # another grid
                for k, x in d.items():
                    if isinstance(x, np.ndarray) and len(x) == s['n']:
                        d[k] = x[::v['step']].copy()
            elif which == 1 and v.get('shift'):       # as many points, elsewhere
                for k in ('x', 'M_r'):
                    d[k] = d[k] * (1.0 + 0.25 * (1.0 - d[k] / np.max(d[k])))
    other = {k: [dict(p, xi_r=p['xi_r'][::-1].copy()) for p in x] for k, x in data.items()}
    pct = v['pct']
    names = ['ad_x/y', 'nad'] if v['paths'] else [f'output_rot_{pct}', f'output_nad_rot_{pct}']
    cols = {k: rng.normal(size=v['zones']) for k in COLUMNS}
    cols['radius'] = np.sort(rng.uniform(0.01, 9.0, v['zones']))[::-1].copy()
    cols['mass'] = np.sort(rng.uniform(0.01, 9.0, v['zones']))[::-1].copy()
    items = [('MESA base folder/directory', root + '/'),
             ('MESA default output folder/directory', root + '/mesa/'),
             ('MESA default profile substrings', ('profile', 'M6')),
             ('MESA default suffix', 'dat'),
             ('GYRE default detail substring', ('detail', 'M6')),
             ('GYRE default summary substring', 'summary')]
    items = [items[i] for i in v['order']]
    try:
        run.write_modes(f'{root}/{names[0]}', data, 0)
        run.write_modes(f'{root}/{names[1]}', data, 1)
        for d in (f'output_rot_{pct + 1}', f'output_nad_rot_{pct + 1}', 'ad', 'output'):
            run.write_modes(f'{root}/{d}', other, 0)
        run.write_mesa(root + '/mesa', {**cols, 'num_zones': v['zones']})
        os.makedirs(root + '/cfg')
        folder_file(root + '/cfg/f.dat', items, '\'"', 1)
        kids = {} if r[1] == r[2] and lm[1] == lm[2] and v['first'] else {
            'damped_n_low2': r[2][0], 'damped_n_high2': r[2][-1]}
        info = InputGen(mode_l=[x[0] for x in lm], mode_m=[x[1] for x in lm],
                        driven_n_low=r[0][0], driven_n_high=r[0][-1], damped_n_low1=r[1][0],
                        damped_n_high1=r[1][-1], **kids)
        combos = info.combinations_radial_orders
        if not combos:
            ctx.label('no triad')
            return
        nr = v['pick'] % len(combos)
        kw = {'ad_path': names[0], 'nad_path': names[1]} if v['paths'] else {}
        comp = Comparer([root + '/a/b/run.py'], pct, info, base_dir=root + '/',
                        alternative_directory_path=root + '/cfg', alternative_file_name='f.dat',
                        **kw)
        plt.close('all')
        comp.load_modes(*([] if nr == 0 and v['first'] else [nr]))
        comp.generate_mode_eigenfunction_comparison_figures(
            **({'radius_profiles': True} if v['radius'] else {}))
        modes = shown()
        profs = None
        if v['profiles']:
            comp.generate_profile_figures(**({'radius_profiles': True} if v['radius'] else {}))
            profs = shown()
    finally:
        shutil.rmtree(top)
        plt.close('all')
    judge_modes(v, s, data, [(*x, n) for x, n in zip(lm, combos[nr])], modes)
    if profs is not None:
        judge_profiles(v, cols, profs)
    ctx.label('radius' if v['radius'] else 'mass')
    ctx.nontrivial(len(combos) > 1)


def x_axis(v, ax, what):
    want = 'r / R' if v['radius'] else 'm / M'
    assert ax['x'].startswith(want), f'{what}: {ax["x"]!r} on the x-axis'
    assert tuple(ax['xlim']) == (0.0, 1.0), f'{what}: x from {ax["xlim"]}'


def judge_modes(v, s, data, keys, figs):
    assert len(figs) == 6, f'{len(figs)} figures of modes'
    for i, axes in enumerate(figs):
        key, fun = keys[i // 2], ('xi_r', 'xi_h')[i % 2]
        what = f'mode {key}, {fun}'
        assert len(axes) == 2, f'{what}: {len(axes)} panels'
        x_axis(v, axes[1], what)
        head = axes[0]['title']
        assert f'({key[0]},{key[1]},{key[2]})' in head, f'{what}: title {head!r}'
        pair = [complex(re.sub(r'[^0-9eEj.+-]', '', t)) for t in
                head.split('nu$:')[1].split(' Hz')[0].split('/')]
        for t, d in zip(pair, data[key]):
            g.close(t, complex(np.ravel(d['freq'])[0]), 1e-3, 1e-12, f'{what}: frequency in the title')
        assert v['frame'].lower() in head and 'Hz' in head, f'{what}: title {head!r}'
        assert axes[0]['legend'] == ['adiabatic', 'non-adiabatic'], f'{what}: {axes[0]["legend"]}'
        for part, ax in zip(('re', 'im'), axes):
            sym = part.capitalize() + '[\\xi_' + fun[-1].upper()
            assert sym in ax['y'].replace('$', ''), f'{what}: {ax["y"]!r} on the y-axis'
            assert len(ax['lines']) == 2, f'{what}: {len(ax["lines"])} curves'
            for which, (x, y, label) in enumerate(ax['lines']):
                d = data[key][which]
                assert label == ('adiabatic', 'non-adiabatic')[which], f'{what}: {label}'
                same(x, d['x'] if v['radius'] else d['M_r'] / d['M_star'], f'{what}, {label}: x')
                same(y, d[fun][part], f'{what}, {label}, {part}')


def judge_profiles(v, cols, figs):
    assert len(figs) == len(PROFILES), f'{len(figs)} figures of the structure'
    xs = cols['radius'] if v['radius'] else cols['mass']
    for names, axes in zip(PROFILES, figs):
        what = f'structure, {names or "hydrostatic equilibrium"}'
        (ax,) = axes
        x_axis(v, ax, what)
        want = [cols[k] for k in names] if names else [cols['hyeq_lhs'] - cols['hyeq_rhs']]
        assert len(ax['lines']) == len(want), f'{what}: {len(ax["lines"])} curves'
        for (x, y, _), w in zip(ax['lines'], want):
            same(x, xs / xs.max(), f'{what}: x')
            same(y, w, what)
        assert len(ax['legend']) == (len(want) if len(want) > 1 else 0), \
            f'{what}: legend {ax["legend"]}'
        if names and names[0] in ('h1', 'log_D_mix'):
            short = [n.replace('minimum', 'min') for n in names]
            assert ax['legend'] == short, f'{what}: legend {ax["legend"]}'


if __name__ == '__main__':
    sys.exit(chk.main())
