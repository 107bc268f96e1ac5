"""C23: the run scripts do what the command line and the inlist ask for, and nothing else."""

import contextlib
import importlib.util
import inspect
import io
import logging
import os
import runpy
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C23', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv',
                  'histogram_maker'),
    rule='The three run scripts are executed from generated repository copies, working '
         'directories, command lines and inlists. The solvers, saver, analyzer and plotter '
         'record how they are constructed and called (solve; analysis and plot dispatch) or do '
         'their work on generated result files (analysis and plot runs). Non-trivial: the run '
         'does something (is not refused), or is refused although an inlist exists.',
    assumptions=['a parent directory of the inlist has AESolver in its name, as the parsers of '
                 'the run scripts require'])


def sibling(name):
    path = next(os.path.join(os.path.dirname(os.path.abspath(__file__)), f)
                for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__))))
                if f.startswith(name))
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def setup():
    global AE, Analyzer, Plotter, plt, c22, scripts, toml
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import aesolver as AE
    import aerunners  # noqa: F401
    from ae_analyzer import QuadraticAEStationaryAnalyzer as Analyzer
    from aeplotter import QuadraticAEPlotter as Plotter
    from vplib import build
    c22 = sibling('c22')
    c22.setup()
    toml = sibling('c21').toml
    scripts = os.path.join(build.REPO, 'run_scripts')


chk.setup = setup

TABLES = (('numbers_categories', 'generate_mode_triad_numbers_per_model'),
          ('q_Q1_condition', 'generate_counts_q_quality_factor_1_condition'),
          ('isolated_mode_properties', 'generate_isolated_triad_mode_properties'),
          ('isolated_stability_validity_estimators',
           'generate_isolated_triad_stab_val_estimators'),
          ('isolated_triad_observables', 'generate_isolated_triad_observables'))


# ---------------------------------------------------------------- running a script
def lines(d):
    """TOML, with the nested tables as dotted keys, as the inlist of the repository has them."""
    out = []

    def walk(pre, v):
        if isinstance(v, dict) and v:
            for k, x in v.items():
                walk(pre + [k], x)
        else:
            out.append('.'.join(pre) + ' = ' + value(v))

    for table, content in d.items():
        out.append(f'\n[{table}]')
        for k, v in content.items():
            walk([k], v)
    return '\n'.join(out) + '\n'


def value(v):
    if v == {}:
        return '{}'
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, str):
        return "'" + v + "'"
    return '[' + ', '.join(value(x) for x in v) + ']'


def tree(case, root):
    """Where the script, the working directory and the inlists are."""
    repo = f'{root}/{case["repo"]}'
    shutil.copytree(scripts, f'{repo}/run_scripts')
    cwd = {'repo': repo, 'scripts': f'{repo}/run_scripts', 'other': f'{root}/other_AESolver/w'}
    cwd = cwd[case['cwd']]
    os.makedirs(cwd, exist_ok=True)
    return repo, cwd


def st_line(st):
    word = st.text('abcXYZ019_', min_size=1, max_size=6)
    return {
        'repo': st.sampled_from(['AESolver', 'AESolver-main', 'my_AESolver']),
        'cwd': st.sampled_from(['repo', 'repo', 'scripts', 'other']),
        'custom': st.booleans(),
        # the inlist the user named, as seen from the working directory or the repository
        'name': st.one_of(word, st.sampled_from(['inlist', 'a.b', 'v1.2'])),
        'sub': st.sampled_from(['.', './inlists', 'inlists/', 'x/y', './inlists/user_input']),
        'here': st.booleans(), 'there': st.sampled_from([True, True, True, False]),
        'argc': st.sampled_from([0, 0, 0, 0, 0, 1, -1]), 'abs': st.booleans()}


def place(case, repo, cwd, write):
    """Write the inlists; returns the number of the one that is to be read."""
    name, sub = (case['name'], case['sub']) if case['custom'] else ('inlist', './inlists/')
    first = os.path.normpath(f'{cwd}/{sub}/{name}.toml')
    second = os.path.normpath(f'{repo}/{sub}/{name}.toml')
    todo = [(first, 0)] if case['here'] else []
    if case['there'] and (second != first or not todo):
        todo.append((second, 1))
    decoys = [os.path.normpath(f'{d}/{s}') for d in (cwd, repo)
              for s in ('inlists/inlist.toml', 'decoy.toml', f'inlists/{name}.in')]
    for d in decoys:
        if d not in (first, second):
            os.makedirs(os.path.dirname(d), exist_ok=True)
            with open(d, 'w') as fh:
                fh.write(lines({'computation': {'compute_grid_models': True}}))
    for path, i in todo:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as fh:
            fh.write(lines(write(i)))
    if not todo:
        return None, None
    return todo[0]


def command(case, repo, cwd, script, save=None):
    arg0 = f'{repo}/run_scripts/{script}.py'
    if not case['abs']:
        arg0 = os.path.relpath(arg0, cwd)
    argv = [arg0]
    if case['custom']:
        argv += [case['name'], 'toml', case['sub']]
    if save is not None:
        argv += save
    if case['argc'] == 1:
        argv.append('more')
    elif case['argc'] == -1:
        argv = argv[:-1] if len(argv) > 1 else argv + ['more']
    return argv


def execute(argv, cwd):
    """Execute the script; returns its output and the exception it ended with."""
    old, here, out, err = sys.argv, os.getcwd(), io.StringIO(), None
    mods = set(sys.modules)
    os.chdir(cwd)
    sys.argv = argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(argv[0], run_name='__main__')
    except SystemExit as e:
        err = e
    except Exception as e:      # the kind is judged by the caller
        err = e
    finally:
        sys.argv = old
        os.chdir(here)
        level = logging.getLogger().getEffectiveLevel()
        logging.getLogger().handlers.clear()
        for m in set(sys.modules) - mods:
            if m == '__main__':
                del sys.modules[m]
    return '\n' + out.getvalue(), err, level


@contextlib.contextmanager
def recording(into, *what):
    """Classes record the construction and calls of the methods instead of doing anything."""
    saved = []

    def init(cls, name, orig):
        sig = inspect.signature(orig)

        def __init__(self, *a, **k):
            b = sig.bind(self, *a, **k)
            b.apply_defaults()
            args = dict(list(b.arguments.items())[1:])
            into.append(('new', name, {q: (dict(v) if isinstance(v, dict) else v)
                                       for q, v in args.items()}))
            self.vp_name = name
        return __init__

    def call(name, meth):
        def fn(self, *a, **k):
            into.append((meth, name, a, k))
        return fn
    try:
        for cls, methods in what:
            n = cls.__name__
            for m, f in [('__init__', init(cls, n, cls.__init__))] + [
                    (m, call(n, m)) for m in methods]:
                saved.append((cls, m, cls.__dict__.get(m, saved)))
                setattr(cls, m, f)
        yield
    finally:
        for cls, m, f in reversed(saved):
            if f is saved:
                delattr(cls, m)
            else:
                setattr(cls, m, f)


def refused(case, custom_args, argv, found):
    """The kind of error with which the run has to be refused, if any."""
    if case['argc']:
        return RuntimeError
    if found is None:
        return FileNotFoundError
    return None


def same(got, want, what):
    for k, v in want.items():
        assert k in got, f'{what}: {k} is not passed'
        g = got[k]
        if isinstance(v, dict):
            assert isinstance(g, dict), f'{what}: {k} is {g!r}, expected {v!r}'
            same(g, v, f'{what}: {k}')
            assert set(g) <= set(v), f'{what}: {k} also has {set(g) - set(v)}'
        else:
            assert type(g) is type(v) and g == v, f'{what}: {k} is {g!r}, expected {v!r}'


def check_level(level, verbose, debug):
    want = logging.DEBUG if debug else logging.INFO if verbose else logging.WARNING
    assert level == want, f'messages are logged from level {level}, expected {want}'


# ---------------------------------------------------------------- solve
def st_solve(st):
    from vplib import gen
    word = st.text('abcXYZ019_-/ .', min_size=1, max_size=8)
    none = st.one_of(st.none(), word)
    n = st.integers(-90, 90)
    lm = st.integers(-4, 4)
    b = st.booleans()
    return st.fixed_dictionaries({
        **st_line(st),
        'save': st.text('abcXYZ019_', min_size=1, max_size=8),
        'flag': st.sampled_from([True, True, True, True, False]),
        'what': st.sampled_from(['grid', 'grid', 'profile', 'profile', 'both', 'neither']),
        'words': st.lists(word, min_size=9, max_size=9, unique=True),
        'nones': st.lists(none, min_size=6, max_size=6),
        'n': st.lists(n, min_size=9, max_size=9, unique=True),
        'l': st.lists(lm, min_size=3, max_size=3), 'm': st.lists(lm, min_size=3, max_size=3),
        'conj': st.lists(b, min_size=3, max_size=3), 'b': st.lists(b, min_size=20, max_size=20),
        'x': st.lists(gen.logfloat(st, 1e-2, 1e6), min_size=3, max_size=3, unique=True),
        'i': st.lists(st.integers(1, 99), min_size=2, max_size=2)})


def solve_inlist(case, poly):
    w, z, n, b = case['words'], case['nones'], case['n'], case['b']
    e = lambda v: {} if v is None else v                                       # noqa: E731
    who = ('parent', 'daughter_1', 'daughter_2')
    return {
        'computation': {
            'parallel_pre_check': b[0], 'parallel_mode_coupling': b[1],
            'nr_parallel_processes': 8, 'integration_method': w[0],
            'angular': {'use_cheby': b[2], 'cheby_mul': case['i'][0], 'blow_up_protect': b[3],
                        'blow_up_fac': case['x'][0]},
            'compute_grid_models': case['what'] in ('grid', 'both'),
            'compute_coefficient_profile': case['what'] in ('profile', 'both'),
            'display_progress': b[4]},
        'verbosity-debug': {'verbose': b[5], 'debug': b[6], 'get_debug_info': b[7]},
        'saving': {'solve': {'base_dir': w[1], 'save_dir': w[2], 'extra_specifier': w[3],
                             'save_format': w[4]}},
        'GYRE_selection': {'gyre_dir_path': e(z[0]),
                           'specifier': {'adiabatic': w[5], 'nonadiabatic': w[6]},
                           'alternative': {'directory_path': e(z[1]), 'file_name': e(z[2])}},
        'POLY_selection': {'mode_path': e(z[3]), 'specifier': {'modes': w[7]},
                           'alternative': {'directory_path': e(z[4]), 'file_name': e(z[5])}},
        'POLY_model': {'mass': case['x'][1], 'radius': case['x'][2]},
        'rotation': {'rot_percent': case['i'][1], 'rotating_formalism': b[8]},
        'mode_info': {
            **{k: {'n': {'high': n[2 * j], 'low': n[2 * j + 1]}, 'l': case['l'][j],
                   'm': case['m'][j]} for j, k in enumerate(who)},
            'coupling': {k: {'n': n[6 + j]} for j, k in enumerate(who)}},
        'coupling_coefficient': {
            'symbolic_profiles': b[9], 'brunt_def_profiles': b[10], 'use_complex': b[11],
            'adiabatic': b[12], 'terms_cc_conj': case['conj'], 'compute_for_polytrope': poly,
            'analytic_polytrope': b[13]},
        'plotting': {'profile': {'show_kernels': b[14], 'show_term_by_term': b[15]}}}


@chk.prop('solve', st_solve, quick=1600, thorough=16000, shards=3)
def solve(case, ctx):
    """One solver is constructed with the settings and called; grids are saved."""
    root = os.path.realpath(tempfile.mkdtemp(dir=ctx.scratch))
    poly = case['b'][16] and case['what'] != 'profile'
    events = []
    try:
        repo, cwd = tree(case, root)
        # an inlist in the wrong place differs from the right one in all settings
        other = {**case, 'n': [x + 1 for x in case['n']], 'b': [not x for x in case['b']],
                 'words': [x + '_' for x in case['words']], 'what': 'grid'}
        path, idx = place(case, repo, cwd,
                          lambda i: solve_inlist(case if i == (0 if case['here'] else 1)
                                                 else other, poly))
        save = ['--save_file_name' if case['flag'] else '--save', case['save']]
        argv = command(case, repo, cwd, 'solve_quadratic', save)
        with recording(events, (AE.QuadraticAEGridSolver, ('__call__',)),
                       (AE.QuadraticAEProfileSolver, ('__call__',)),
                       (AE.NumericalSaver, ('__call__',))):
            _, err, level = execute(argv, cwd)
        left = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs
                      if f.endswith(('5', 'npy')) and f != 'toml')
        assert not left, f'files {left} are written'
    finally:
        shutil.rmtree(root)
    kind = refused(case, 'save', argv, path)
    if not kind or kind is FileNotFoundError:
        if not case['flag']:
            kind = RuntimeError
    if not kind and case['what'] in ('both', 'neither'):
        kind = RuntimeError
    if kind:
        ctx.label(f'refused: {kind.__name__}')
        ctx.nontrivial(path is not None)
        assert isinstance(err, kind), f'{argv}: ended with {err!r}, expected {kind.__name__}'
        assert not events, f'{argv}: refused after {[e[:2] for e in events]}'
        return
    ctx.label(case['what'] + (' polytrope' if poly else ''))
    ctx.nontrivial()
    if err is not None:
        raise err
    w, z, n, b = case['words'], case['nones'], case['n'], case['b']
    name = 'QuadraticAEGridSolver' if case['what'] == 'grid' else 'QuadraticAEProfileSolver'
    order = [e[:2] for e in events]
    want = [('new', name), ('__call__', name)]
    if case['what'] == 'grid':
        want += [('new', 'NumericalSaver'), ('__call__', 'NumericalSaver')]
    assert order == want, f'the run does {order}, expected {want}'
    k = 3 if poly else 0
    args = {
        'sys_args': argv, 'rot_pct': case['i'][1], 'use_complex': b[11], 'adiabatic': b[12],
        'use_rotating_formalism': b[8], 'base_dir': z[k], 'alternative_directory_path': z[k + 1],
        'alternative_file_name': z[k + 2], 'use_symbolic_profiles': b[9],
        'use_brunt_def': b[10], 'use_parallel': b[1], 'numerical_integration_method': w[0],
        'use_cheby_integration': b[2], 'cheby_order_multiplier': case['i'][0],
        'cheby_blow_up_protection': b[3], 'cheby_blow_up_factor': case['x'][0],
        'stationary_solving': True, 'ad_path': w[7] if poly else w[5],
        'nad_path': None if poly else w[6], 'toml_use': True, 'get_debug_info': b[7],
        'terms_cc_conj': tuple(case['conj']), 'polytrope_comp': poly,
        'analytic_polytrope': b[13], 'polytrope_mass': case['x'][1],
        'polytrope_radius': case['x'][2], 'progress_bars': b[4]}
    if case['what'] == 'grid':
        args['mode_selection_dict'] = {
            'driven_n_high': n[0], 'driven_n_low': n[1], 'damped_n_high1': n[2],
            'damped_n_low1': n[3], 'damped_n_high2': n[4], 'damped_n_low2': n[5],
            'mode_l': case['l'], 'mode_m': case['m']}
    else:
        args['cc_profile_selection_dict'] = {
            'parent_n': n[6], 'daughter_1_n': n[7], 'daughter_2_n': n[8], 'mode_l': case['l'],
            'mode_m': case['m']}
        args.update(save_name=case['save'], view_kernels=b[14], view_term_by_term=b[15])
    got = dict(events[0][2])
    same(got, args, name)
    assert os.path.realpath(got['inlist_path']) == path, \
        f'{name}: inlist {got["inlist_path"]}, expected {path}'
    if case['what'] == 'grid':
        got = dict(events[2][2])
        assert getattr(got.pop('solving_object'), 'vp_name', '') == name, 'another solver is saved'
        same(got, {'save_name': case['save'], 'base_dir': w[1], 'save_dir': w[2],
                   'extra_specifier': w[3], 'initial_save_format': w[4], 'polytropic': poly,
                   'nr_modes': 3}, 'NumericalSaver')
    check_level(level, b[5], b[6])


# ---------------------------------------------------------------- analysis and plots: settings
def st_info(st):
    word = st.text('abcXYZ019_-/ .', min_size=1, max_size=8)
    b = st.booleans()
    num = st.lists(st.integers(1, 99), min_size=3, max_size=3)
    i = st.integers(1, 999)
    return st.fixed_dictionaries({
        **st_line(st), 'script': st.sampled_from(['analyze', 'plot']),
        'words': st.lists(word, min_size=16, max_size=16, unique=True),
        'none': st.one_of(st.none(), word), 'nfmt': st.integers(0, 2), 'b': st.lists(b, min_size=16, max_size=16),
        'i': st.lists(i, min_size=7, max_size=7, unique=True),
        'nums': st.lists(num, min_size=4, max_size=4),
        'x': st.lists(st.floats(0.25, 20, width=32), min_size=4, max_size=4, unique=True)})


def info_inlist(case):
    w, b, i = case['words'], case['b'], case['i']
    e = lambda v: {} if v is None else v                                       # noqa: E731
    plot = {'base_dir': w[0], 'save_dir': w[1], 'extra_specifier': w[2],
            'save_formats': w[3:3 + case['nfmt']],
            'sharpness': {'save_name': w[5], 'save_subdir': w[6]},
            'overview': {'save_name': w[7], 'save_subdir': w[8]}}
    return {
        'verbosity-debug': {'verbose': b[0], 'debug': b[1], 'get_debug_info': False},
        'saving': {'plot': plot},
        'rotation': {'rot_percent': 20},
        'GYRE_selection': {'gyre_dir_path': w[15], 'alternative': {
            'directory_path': e(case['none']), 'file_name': {}}},
        'plotting': {
            'load': {'nr_files': i[0], 'base_dir': w[9], 'output_dir': w[10],
                     'use_custom_name': b[2], 'base_file_names': [w[11:13], w[13]],
                     'specification_names': [['', 'x'], w[14]], 'masses': [4, 3.5],
                     'Xcs': case['x'][:2], 'triple_pairs': [[case['nums'][3]]],
                     'meridional_degrees': case['nums'][:2],
                     'azimuthal_orders': case['nums'][1:3], 'file_suffix': [['h5', 'h5'], 'h5']},
            'plot': {'show': b[3], 'overview': b[4], 'coefficient_profile': b[5],
                     'resonance_sharpness': b[6]},
            'figure': {'size': case['x'][2:], 'dpi': i[1]},
            'labels': {'ax_label': {'size': i[2]}, 'tick_label': {'size': i[3], 'pad': i[4]}},
            'ticks': {'size': i[5]}, 'colors': {'matplotlib_color_map': w[4]},
            'misc': {'plot_cyclic_fs': b[7], 'rad_nr': i[6]}},
        'analysis': {k: b[8 + j] for j, (k, _) in enumerate(TABLES)}}


@chk.prop('settings', st_info, quick=1600, thorough=16000, shards=2)
def settings(case, ctx):
    """Analyzer and plotter get the settings of the inlist; what is asked for is done once."""
    root = os.path.realpath(tempfile.mkdtemp(dir=ctx.scratch))
    events = []
    shown = plt.show
    ana = case['script'] == 'analyze'
    try:
        repo, cwd = tree(case, root)
        other = {**case, 'b': [not x for x in case['b']], 'i': [x + 1 for x in case['i']],
                 'words': [x + '_' for x in case['words']]}
        path, idx = place(case, repo, cwd, lambda i: info_inlist(
            case if i == (0 if case['here'] else 1) else other))
        argv = command(case, repo, cwd, f'{case["script"]}_quadratic')
        plt.show = lambda *a, **k: events.append(('show', 'pyplot'))
        with recording(events, (Analyzer, [m for _, m in TABLES]),
                       (Plotter, ('generate_plots',))):
            _, err, level = execute(argv, cwd)
    finally:
        plt.show = shown
        shutil.rmtree(root)
    kind = refused(case, None, argv, path)
    if kind:
        ctx.label(f'refused: {kind.__name__}')
        ctx.nontrivial(path is not None)
        assert isinstance(err, kind), f'{argv}: ended with {err!r}, expected {kind.__name__}'
        assert not events, f'{argv}: refused after {[e[:2] for e in events]}'
        return
    ctx.label(case['script'])
    ctx.nontrivial()
    if err is not None:
        raise err
    w, b, i = case['words'], case['b'], case['i']
    if ana:
        want = [('new', Analyzer.__name__)]
        want += [(m, Analyzer.__name__) for j, (_, m) in enumerate(TABLES) if b[8 + j]]
    else:
        want = [('new', Plotter.__name__), ('generate_plots', Plotter.__name__)]
        want += [('show', 'pyplot')] if b[3] else []
    order = [e[:2] for e in events]
    assert order == want, f'the run does {order}, expected {want}'
    doc = info_inlist(case)
    load = dict(doc['plotting']['load'])
    load['use_standard_format'] = not load.pop('use_custom_name')
    args = {
        'load_information': load,
        'analysis_dict' if ana else 'plotting_dict': {
            'plot_overview': b[4], 'verbose': b[0], 'plot_coefficient_profile': b[5],
            'plot_resonance_sharpness': b[6], 'fig_size': case['x'][2:], 'fig_dpi': i[1],
            'ax_label_size': i[2], 'tick_label_size': i[3], 'tick_size': i[5], 'rad_nr': i[6],
            'show_plots': b[3], 'cmap': w[4], 'tick_label_pad': i[4]},
        'save_information': {
            'save_base_dir': w[0], 'save_dir': w[1], 'extra_specifier_save': w[2],
            'save_formats': w[3:3 + case['nfmt']], 'sharpness_save_name': w[5],
            'sharpness_subdir': w[6],
            'overview_save_name': w[7], 'overview_subdir': w[8]}}
    same(events[0][2], args, order[0][1])
    check_level(level, b[0], b[1])


# ---------------------------------------------------------------- analysis and plots: real work
def run_inlist(case, load, save, plot):
    load = {k: v for k, v in load.items() if k != 'use_standard_format'}
    doc = info_inlist(case)
    doc['verbosity-debug']['debug'] = False
    doc['plotting']['load'] = {**load, 'use_custom_name': True}
    doc['plotting']['plot'] = {'show': False, 'overview': plot['plot_overview'],
                               'coefficient_profile': False,
                               'resonance_sharpness': plot['plot_resonance_sharpness']}
    doc['plotting']['figure'] = {'size': plot['fig_size'], 'dpi': plot['fig_dpi']}
    doc['plotting']['colors'] = {'matplotlib_color_map': plot['cmap']}
    doc['plotting']['misc']['rad_nr'] = plot['rad_nr']
    for q, r in (('ax_label', 'ax_label_size'), ('tick_label', 'tick_label_size')):
        doc['plotting']['labels'][q]['size'] = plot[r]
    doc['plotting']['labels']['tick_label']['pad'] = plot['tick_label_pad']
    doc['plotting']['ticks']['size'] = plot['tick_size']
    doc['saving'] = {'plot': {
        'base_dir': save['save_base_dir'], 'save_dir': save['save_dir'],
        'extra_specifier': save['extra_specifier_save'], 'save_formats': save['save_formats'],
        'sharpness': {'save_name': 'sharp', 'save_subdir': case['sharp_sub']},
        'overview': {'save_name': 'over', 'save_subdir': case['over_sub']}}}
    return doc


def st_work(st):
    from vplib import gen  # noqa: F401
    b = st.booleans()
    return st.fixed_dictionaries({
        'models': st.lists(c22.st_model(st), min_size=1, max_size=3),
        'flags': st.lists(b, min_size=5, max_size=5), 'repo': st.just('AESolver'),
        'cwd': st.sampled_from(['repo', 'scripts', 'other']), 'custom': b, 'abs': b,
        'name': st.sampled_from(['inlist', 'v1.2']), 'sub': st.sampled_from(['.', 'inlists/x']),
        'here': st.just(False), 'there': st.just(True), 'argc': st.just(0),
        'overview': b, 'sharpness': b, 'dir': st.sampled_from(['a', 'a/b']),
        'over_sub': st.sampled_from(['', 'c', 'c/d']), 'sharp_sub': st.sampled_from(['', 'c', 'e']),
        'spec': st.sampled_from(['', 'x', 'm_1']),
        'formats': st.sampled_from([['png'], ['svg', 'png']]),
        'verbose': b, 'relative': b})


def fill(case):
    c22.normal(case)
    for mo in case['models']:       # some triads that are worth a plot
        mo['ok'], mo['par'] = max(mo['ok'], 0.9), max(mo['par'], 0.9)
    case.update(words=[f'w{j}' for j in range(16)], none=None, nfmt=2, i=list(range(2, 9)),
                b=[case['verbose'], False] + [False] * 6 + case['flags'] + [False] * 3,
                nums=[[1, 2, 3]] * 4, x=[1.0, 2.0, 3.0, 4.0], far=0.0)
    case.setdefault('sub', '.')


@chk.prop('analysis_run', st_work, quick=160, thorough=2500, shards=2)
def analysis_run(case, ctx):
    """The tables that were asked for are printed, and no others."""
    fill(case)
    root = os.path.realpath(tempfile.mkdtemp(dir=ctx.scratch))
    try:
        repo, cwd = tree(case, root)
        models = [c22.make_model(mo) for mo in case['models']]
        load = c22.load_info(case, models, root)
        save, plot = c22.save_dict(case, root), c22.plot_dict(case)
        place(case, repo, cwd, lambda i: run_inlist(case, load, save, plot))
        text, err, _ = execute(command(case, repo, cwd, 'analyze_quadratic'), cwd)
        if err is not None:
            raise err
        a, want = c22.quiet(Analyzer, load, plot, save)
        for flag, (_, m) in zip(case['flags'], TABLES):
            if flag:
                want += c22.quiet(getattr(a, m))[1][1:]
        left = [f for _, _, fs in os.walk(root) for f in fs if f.endswith(('png', 'svg', 'pdf'))]
    finally:
        shutil.rmtree(root)
    ctx.nontrivial(any(case['flags']) and not all(case['flags']))
    ctx.label(f'{sum(case["flags"])} tables')
    assert text == want, f'tables {case["flags"]}: printed {len(text)} characters, expected ' \
        f'{len(want)}; first difference: {first(text, want)}'
    assert not left, f'files {left} are written'


def first(a, b):
    for j, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f'{a[max(0, j - 30):j + 30]!r} and {b[max(0, j - 30):j + 30]!r}'
    return f'{a[len(b):][:60]!r} and {b[len(a):][:60]!r}'


@chk.prop('plot_run', st_work, quick=60, thorough=700, shards=3)
def plot_run(case, ctx):
    """The figures that were asked for are saved, each in its place and formats, and no others."""
    fill(case)
    made = c22.expected(case, ctx)
    if made is None:
        ctx.label('close call')
        return
    models, ts = made
    al = [t for x in ts for t in x]
    num = [abs(t['sharp']) for t in al if t['stable'] and t['ae']]
    if not any(t['good'] for t in al) or len(set(num)) < 2:
        ctx.label('nothing to show')
        return
    root = os.path.realpath(tempfile.mkdtemp(dir=ctx.scratch))
    shows = []
    shown = plt.show
    try:
        plt.show = lambda *a, **k: shows.append(1)
        repo, cwd = tree(case, root)
        load = c22.load_info(case, models, root)
        save = c22.save_dict({**case, 'sub': ''}, root)
        where = save['save_base_dir']
        if case['relative']:        # as in the inlist of the repository
            save['save_base_dir'] = '.'
            where = cwd
        plot = c22.plot_dict(case, plot_overview=case['overview'],
                             plot_resonance_sharpness=case['sharpness'])
        place(case, repo, cwd, lambda i: run_inlist(case, load, save, plot))
        _, err, _ = execute(command(case, repo, cwd, 'plot_quadratic'), cwd)
        if err is not None:
            raise err
        got = sorted(os.path.relpath(os.path.join(d, f), where) for d, _, fs in os.walk(root)
                     for f in fs if f.endswith(('png', 'svg', 'pdf')))
    finally:
        plt.show = shown
        plt.close('all')
        shutil.rmtree(root)
    tail = ('_' + case['spec']) if case['spec'] else ''
    want = sorted(os.path.normpath(f'{case["dir"]}/{sub}/{stem}{tail}.{f}')
                  for do, sub, stem in ((case['overview'], case['over_sub'], 'over'),
                                        (case['sharpness'], case['sharp_sub'], 'sharp'))
                  if do for f in case['formats'])
    ctx.label(f'overview={case["overview"]} sharpness={case["sharpness"]}')
    assert got == want, f'figures {got}, expected {want}'
    assert not shows, 'figures are shown although that was not asked for'


if __name__ == '__main__':
    sys.exit(chk.main())
