"""C24: the profile of the coupling coefficient of one triad, and what its figures show."""

import contextlib
import importlib.util
import io
import itertools
import logging
import math
import os
import re
import shutil
import sys
import tempfile

os.environ['MPLBACKEND'] = 'Agg'
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C24', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv',
                  'histogram_maker'),
    rule='Inlists (TOML) that ask for the profile of one triad, adiabatic and nonadiabatic mode '
         'files, and structure profiles in which layers of strong, weak, zero and negative '
         'stratification alternate (from the center or from the first shell, up to the surface), '
         'around the threshold set by rotation or by one of the modes; views and save names. '
         'Non-trivial: a coefficient that is not zero, with layers in which the approximation '
         'is valid and layers in which it is not.',
    assumptions=['the coefficient integrated up to a shell is decided by C17, the amplitudes of a '
                 'triad by C13 and C15: here, they are computed directly from the stored modes'])


def sibling(name):
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), name + '.py')
    spec = importlib.util.spec_from_file_location('sibling_' + name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    mod.setup()
    return mod


def setup():
    global np, run, star, g, FH, QCCR, HF, ND, P3, hyper, PhysicsError, Figure, plt, runner
    global set_up_root_logger
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import numpy as np
    from matplotlib.figure import Figure
    from aesolver.coupling_coefficients import QCCR
    from aesolver.frequency_handling import FH
    from aesolver.pre_checks import PreThreeQuad as P3
    from aesolver.solver.solver_base_classes import PhysicsError
    from aesolver import stability_checker as hyper
    import aerunners as runner
    from hough_function import HF
    from num_deriv import NumericalDifferentiator as ND
    from log_formatter import set_up_root_logger
    from vplib import gen as g
    run, star = sibling('c21_solve_run'), sibling('c17_coupling')


chk.setup = setup


# ---------------------------------------------------------------- cases
def strategy(st):
    from vplib import gen
    poly = st.lists(gen.floats(st, -3.0, 3.0), min_size=1, max_size=3).filter(
        lambda v: max(map(abs, v)) > 1e-2)
    lm = st.tuples(st.integers(1, 3), st.integers(-3, 3)).map(
        lambda t: (t[0], max(-t[0], min(t[0], t[1]))))
    one = st.tuples(st.integers(3, 60), st.just(1))
    layer = st.tuples(st.sampled_from(['strong', 'strong', 'strong', 'weak', 'weak', 'negative',
                                       'zero']), st.integers(1, 6))
    return st.fixed_dictionaries({
        'seed': st.integers(0, 10**6), 'n': st.integers(6, 24),
        'grid': st.sampled_from(['uniform', 'edges', 'random']), 'M': gen.logfloat(st, 1.0, 30.0),
        'R': gen.logfloat(st, 1.0, 30.0), 'k': st.floats(0.0, 0.95), 'pext': st.floats(0.01, 0.3),
        'g1': st.floats(1.3, 2.0), 'dg': st.floats(-0.1, 0.3), 'adder': st.floats(-1.0, 1.0),
        'rot': st.sampled_from([0.0, 0.01, 0.1, 0.2, 0.7]), 'w': gen.logfloat(st, 0.5, 3.0),
        'kids': st.tuples(lm, lm), 'same': st.booleans(), 'l1': st.integers(1, 3),
        'rule': st.sampled_from([1] * 19 + [0]), 'y': st.tuples(poly, poly, poly, poly),
        'parent': one, 'kid1': one, 'kid2': one, 'overlap': st.booleans(),
        'q': gen.logfloat(st, 0.5, 20.0, signed=True), 'damp': gen.logfloat(st, 1.1, 30.0),
        'growth': st.one_of(*[gen.logfloat(st, 1e-8, 1e-4)] * 4, gen.logfloat(st, 5e-3, 5e-2)),
        'signs': st.sampled_from(['+--'] * 20 + ['-++', '+++', '+-+']),
        'adiabatic': st.booleans(), 'complex': st.booleans(), 'symbolic': st.booleans(),
        'brunt': st.booleans(), 'method': st.sampled_from(['trapz', 'simpson']),
        'conj': st.sampled_from([[True, False, False]] * 20 + [[False, False, False],
                                                             [False, True, False]]),
        'poly': st.just(0), 'analytic': st.booleans(), 'cheby': st.just(False),
        'mul': st.integers(2, 4), 'blow': st.just(False), 'fac': st.just(1e3),
        'progress': st.booleans(), 'parallel': st.booleans(), 'debug': st.just(False),
        'name': st.text('abcXYZ019_', min_size=1, max_size=6), 'dir': st.just(''),
        'extra': st.just(''), 'slash': st.booleans(), 'tuples': st.booleans(),
        'frame': st.sampled_from(['COROT_I', 'INERTIAL']), 'stale': st.just(False),
        'mixed': st.just(False), 'layers': st.lists(layer, min_size=1, max_size=6),
        'pct': st.sampled_from([0, 1, 20, 37]), 'kernels': st.sampled_from([0, 0, 1]),
        'split': st.booleans(), 'render': st.sampled_from([0] * 15 + [1])}).map(
            lambda c: prepare(c))


def prepare(case):
    """Complex eigenfunctions cannot be used at all (a finding of C17)."""
    case = dict(case, complex=case['complex'] and case['adiabatic'])
    kids = [tuple(k) for k in case['kids']]
    if case['same']:
        kids[1] = kids[0]
    m1 = kids[0][1] + kids[1][1]
    if not case['rule']:
        m1 = max(-3, min(3, m1 + 1))
    l1 = max(abs(m1), case['l1'])
    if case['rule'] and (l1 - abs(m1) + sum(a - abs(b) for a, b in kids)) % 2:
        l1 += 1
    case['lm'] = [[l1, m1], *map(list, kids)]
    # at high spin, an axisymmetric even mode is as close to the constant solution as to its own
    if any(m == 0 and l % 2 == 0 for l, m in case['lm']):
        case['rot'] = min(case['rot'], 0.1)
    if case['same'] and case['overlap']:
        case['kid2'] = case['kid1']
    case.pop('kids')
    return case


def threshold(case, data):
    """The stratification must exceed ten times the rotation and the frequencies (squared)."""
    dyn = math.sqrt(star.G * case['M'] * star.M_SUN / (case['R'] * star.R_SUN)**3)
    ws = []
    for (_, m, _), pair in data.items():
        f = pair[0]['freq'][0].real * 2.0 * math.pi
        ws.append(abs(f - (m * case['rot'] * dyn if case['frame'] == 'INERTIAL' else 0.0)))
    return (10.0 * max(2.0 * case['rot'] * dyn, *ws))**2


def stratify(case, n, level):
    """Layers of a star; a shell is either clearly above or below the threshold."""
    rng = g.rng(case['seed'] + 5)
    kinds = list(itertools.chain.from_iterable([k] * m for k, m in case['layers']))
    kinds = [kinds[i % len(kinds)] for i in range(n)]
    out = np.zeros(n)
    for i, k in enumerate(kinds):
        u = rng.uniform()
        out[i] = {'strong': level * (1.05 + 30.0 * u**3), 'weak': level * 0.95 * u,
                  'negative': -level * (0.01 + 3.0 * u), 'zero': 0.0}[k]
    return out


# ---------------------------------------------------------------- running it
class Shown:
    """A figure, as it was when it was saved."""

    def __init__(self, fig):
        self.axes = []
        for ax in fig.axes:
            leg = ax.get_legend()
            self.axes.append({
                'lines': [(np.array(ln.get_xdata(), dtype=float),
                           np.array(ln.get_ydata(), dtype=float), ln.get_label())
                          for ln in ax.lines],
                'shaded': [(float(p.vertices[:, 0].min()), float(p.vertices[:, 0].max()))
                           for c in ax.collections for p in c.get_paths() if len(p.vertices)],
                'title': ax.get_title(), 'legend': [] if leg is None else
                [t.get_text() for t in leg.get_texts()]})
        self.legend = [t.get_text() for x in fig.legends for t in x.get_texts()]


@contextlib.contextmanager
def figures(into, cwd, render):
    real, show = Figure.savefig, plt.show

    def savefig(self, fname, **kw):
        into.append((os.path.relpath(os.path.join(os.getcwd(), str(fname)), cwd), Shown(self)))
        if render:
            real(self, fname, **dict(kw, dpi=15))
        else:
            with open(fname, 'w'):
                pass
    shown = []
    Figure.savefig, plt.show = savefig, lambda *a, **k: shown.append(1)
    try:
        yield shown
    finally:
        Figure.savefig, plt.show = real, show
        plt.close('all')


def inlist(case, root):
    t = run.inlist(case, root)
    t['computation']['compute_grid_models'] = False
    t['computation']['compute_coefficient_profile'] = True
    t['rotation']['rot_percent'] = case['pct']
    t['plotting']['profile'] = {'show_kernels': bool(case['kernels']),
                                'show_term_by_term': case['split']}
    t['information_folders']['MESA']['selection']['substrings'] = ['M6', 'profile', '.']
    return t


def execute(case, root):
    """Runs the script; returns what it printed, its figures and how it ended."""
    argv = [os.path.join(root, 'run_scripts/solve_quadratic.py'), 'grid', 'toml',
            os.path.join(root, 'AESolver'), '--save_file_name', case['name']]
    old, wd = sys.argv, os.getcwd()
    sys.argv = argv
    made, out, end = [], io.StringIO(), None
    os.makedirs(root + '/cwd')
    os.chdir(root + '/cwd')
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(out), \
                figures(made, root + '/cwd', case['render']):
            runner.perform_complete_solve_run(logger=set_up_root_logger())
    except (Exception, SystemExit) as e:
        end = e
    finally:
        os.chdir(wd)
        sys.argv = old
        logging.getLogger().handlers.clear()
    return out.getvalue(), made, end



# ---------------------------------------------------------------- expectation
def zones(valid):
    """The intervals (first, last shell) in which the approximation is not valid."""
    out = []
    for i, v in enumerate(valid):
        if not v:
            if i and not valid[i - 1]:
                out[-1][1] = i
            else:
                out.append([i, i])
    return out


def adjust(valid, q):
    """What the invalid zones contribute, and the profile that is left without them.

    A zone ends at the first shell behind it (or at the surface)."""
    left = np.array(q, dtype=float)
    cont = []
    for a, b in zones(valid):
        end = min(b + 1, len(q) - 1)
        d = q[end] - q[a]
        left[a:b + 1] = left[a]
        left[b + 1:] -= d
        cont.append(d)
    return cont, left


def numbers(text):
    text = re.sub(r'np\.float64\(([^)]*)\)', r'\1', text)
    return [float(x) for x in re.findall(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)', text)]


def printed(out, start, sep=', after adjustment'):
    """The numbers behind the start of a message, before and after the adjustment."""
    assert out.count(start) == 1, f'{out.count(start)} messages {start!r}'
    rest = out[out.index(start) + len(start):]
    a, b = rest.split(sep, 1)
    b = b.split(':', 1)[1]
    # a message ends where the next one starts with a letter
    b = re.split(r'\n(?=[A-Z])|\n\n|\. *\n', b)[0]
    return numbers(a), numbers(b)


def listed(out, start):
    assert out.count(start) == 1, f'{out.count(start)} messages {start!r}'
    return numbers(out[out.index(start) + len(start):].split(']', 1)[0])


def radial(case, s, fh, q, modes, n2):
    """Radial functions of the modes and the structure, by the names used in the figures."""
    cut = slice(1, -1)
    x, r = s['x'][cut], s['r'][cut]
    rho, p, g1, gp = (s[k][cut] for k in ('rho', 'P', 'Gamma_1', 'dgravpot'))
    c1, vg, a_s = s['c_1'][cut], (s['V_2'] * s['x']**2 / s['Gamma_1'])[cut], s['As'][cut]
    nd = ND(order_derivative=1, differentiation_method='gradient')
    funcs = []
    for i, mo in enumerate(modes):
        om2 = fh.dimless_corot_omegas[i]**2
        pref = q.normalization_factors[i] * math.sqrt(4.0 * math.pi) * x**(mo['l'] - 2.0)
        z1, z2 = (pref * mo[a][cut] for a in ('y_1', 'y_2'))
        w = z2 / (c1 * om2)
        lam = mo['l'] * (mo['l'] + 1.0)
        if case['symbolic']:
            d1 = (vg - 2.0) * z1 + (lam / (c1 * om2) - vg) * z2
            d2 = (1.0 - a_s / (c1 * om2)) * z1 + (a_s - 1.0) * w
            d2 += (c1 * 4.0 * np.pi * rho * s['R_star']**3 / s['M_star'] - s['U'][cut]) * w
        else:
            d1, d2 = (nd.differentiate(x, (x * v).real)[0][1] for v in (z1, w))
        funcs.append({'z_1': z1, 'H': vg * (z1 - z2), 'd1': d1, 'w': w, 'd2': d2})
    if case['symbolic']:
        gp2 = s['dgravpot2'][cut]
        drho = rho * (-rho * gp / (g1 * p) - n2 / gp) if case['brunt'] else \
            nd.differentiate(r, rho)[0][1]
        gp3 = 4.0 * np.pi * star.G * drho + 2.0 / r * (gp / r - gp2)
    else:
        gp2 = nd.differentiate(r, gp)[0][1]
        gp3 = nd.differentiate(r, gp2)[0][1]
    mult = {'P': p, 'P1': p * (g1 - 1.0), 'P2': p * (g1 - 1.0)**2,
            'Pd': p * rho * s['gamma_1_adDer'][cut], 'rho1': rho * r * gp,
            'rho2': rho * r**2 * gp2, 'rho3': rho * r**3 * gp3}
    scale = r**3 / (star.G * s['M_star']**2 / s['R_star'])
    return x, funcs, {k: v * scale for k, v in mult.items()}


def angular(case, fh, modes):
    funcs = []
    for i, mo in enumerate(modes):
        h = HF(nu=fh.spin_factors[i], l=mo['l'], m=mo['m'], npts=200,
               lmbd=mo['l'] * (mo['l'] + 1.0), lmbd_adjust=True, definition='lee_saio_equivalent')
        h()
        mu, m = h.mu_range, float(mo['m'])
        nh = 1.0 / math.sqrt(2.0 * math.pi * (star.trapz_w(mu) * h.hr_range**2).sum())
        hr, ht, hp, hr_t, ht_t, hp_t = (nh * v for v in (
            h.hr_range, h.ht_range, h.hp_range, h.hrp_range_theta, h.htp_range_theta,
            h.hpp_range_theta))
        sn = np.sqrt(1.0 - mu**2)
        f = {'hr': hr, 'ht': ht, 'hp': hp, 'mhr': -m * hr, 'hr_t': hr_t, 'ht_t': ht_t,
             'hp_t': hp_t, 'pp': (mu * ht + m * hp) / sn, 'tp': -(m * ht + mu * hp)}
        # (m H_r is defined with the opposite sign of m); a conjugated mode has the opposite m, and an opposite azimuthal displacement
        if case['conj'][i]:
            f.update({k: -f[k] for k in ('hp', 'mhr', 'hp_t', 'tp')})
        funcs.append(f)
    return mu, funcs, 1.0 / sn


# What adds up to the coefficient (Lee 2012; Van Beeck et al. 2024), up to signs:
# functions of the modes (all permutations, unless they are equal) and the factor.
HARD = {
    1: {('d1', 'd1', 'H'): (0.5,), ('w', 'w', 'H'): (0.5,), ('z_1', 'z_1', 'H'): (1.0,),
        ('w', 'z_1', 'H'): (1.0,), ('z_1', 'd2', 'H'): (1.0,), ('H', 'w', 'd2'): (1.0,)},
    2: {('H', 'H', 'H'): (1.0,)},
    3: {('d1', 'w', 'd2'): (1.0,), ('d1', 'z_1', 'd2'): (1.0,), ('z_1', 'w', 'd2'): (1.0,),
        ('w', 'w', 'd2'): (1.0,), ('z_1', 'z_1', 'd2'): (1.0,), ('w', 'w', 'w'): (1.0, 2.0),
        ('z_1', 'w', 'w'): (1.0, 2.0), ('z_1', 'z_1', 'w'): (1.0,), ('d1', 'd1', 'd1'): (2.0,),
        ('z_1', 'z_1', 'z_1'): (4.0,)},
    4: {('z_1', 'w', 'w'): (0.5,), ('z_1', 'z_1', 'z_1'): (1.0,)}}
MULT = {1: ['P1'], 2: ['P2', 'Pd'], 3: ['P'], 4: ['rho1', 'rho2', 'rho3']}
SOFT = {      # the third entry: divided by the sine of the colatitude
    1: {('hr', 'hr', 'hr', 0), ('ht_t', 'ht_t', 'hr', 0), ('pp', 'pp', 'hr', 0),
        ('tp', 'hp_t', 'hr', 1), ('ht_t', 'hr', 'hr', 0), ('pp', 'hr', 'hr', 0),
        ('hr_t', 'ht', 'hr', 0), ('mhr', 'hp', 'hr', 1), ('hr', 'ht', 'ht', 0),
        ('hr', 'hp', 'hp', 0)},
    2: {('hr', 'hr', 'hr', 0)},
    3: {('hr', 'hr_t', 'ht', 0), ('hr', 'mhr', 'hp', 1), ('hr', 'ht', 'ht', 0),
        ('hr', 'hp', 'hp', 0), ('hr_t', 'ht_t', 'ht', 0), ('mhr', 'pp', 'hp', 1),
        ('mhr', 'hp_t', 'ht', 1), ('hr_t', 'tp', 'hp', 1), ('ht', 'ht_t', 'ht', 0),
        ('hp', 'pp', 'hp', 0), ('hp', 'hp_t', 'ht', 0), ('tp', 'ht', 'hp', 1),
        ('hr', 'tp', 'hp_t', 1), ('hr', 'pp', 'pp', 0), ('hr', 'ht_t', 'ht_t', 0),
        ('ht_t', 'tp', 'hp_t', 1), ('hp_t', 'tp', 'pp', 1), ('hr', 'hr', 'ht_t', 0),
        ('hr', 'hr', 'pp', 0), ('hr', 'hr', 'hr', 0), ('pp', 'pp', 'pp', 0),
        ('ht_t', 'ht_t', 'ht_t', 0)},
    4: {('hr', 'ht', 'ht', 0), ('hr', 'hp', 'hp', 0), ('hr', 'hr', 'hr', 0)}}
NAMES = {
    'z_1': 'z_1', 'H': 'H', r'\dfrac{\partial(r\,z_1)}{\partial r}': 'd1',
    r'\dfrac{z_2}{c_1\,\bar{\omega}^2}': 'w',
    r'\dfrac{\partial}{\partial r}\,(r\,\dfrac{z_2}{c_1\,\bar{\omega}^2})': 'd2',
    'H_r': 'hr', r'H_\theta': 'ht', r'H_\phi': 'hp', r'm\,H_r': 'mhr', r'\partial\,H_r': 'hr_t',
    r'\partial\,H_\theta': 'ht_t', r'\partial\,H_\phi': 'hp_t', r'H_\phi^\phi': 'pp',
    r'H_\phi^\theta': 'tp'}
TITLES = {
    'P': 'P', r'P\,(\Gamma_1 - 1)': 'P1', r'P\,(\Gamma_1 - 1)^2': 'P2',
    r'P\,\left(\dfrac{\partial \Gamma_1}{\partial \ln \rho}\right)_S': 'Pd',
    r'\rho\,r\,\dfrac{\partial \Phi}{\partial r}': 'rho1',
    r'\rho\,r^2\,\dfrac{\partial^2 \Phi}{\partial r^2}': 'rho2',
    r'\rho\,r^3\,\dfrac{\partial^3 \Phi}{\partial r^3}': 'rho3'}


def words(text):
    """The functions of modes A, B and C that a legend names."""
    parts = [t.strip() for t in text.split(', ')]
    assert len(parts) == 3, f'legend {text!r}'
    out = []
    for t, who in zip(parts, 'ABC'):
        m = re.fullmatch(r'(?:\\left\(|\()(.*?)(?:\\right\)|\))_\{(\w)\}', t)
        if m:
            assert m.group(2) == who, f'legend {text!r}'
            t = m.group(1).replace('{1}', '1')
        assert t in NAMES, f'unknown function {t!r} in legend {text!r}'
        out.append(NAMES[t])
    return tuple(out)


def soft_label(text):
    """Functions, factor and division by the sine, from a legend."""
    t = text.replace('$', '').replace('[', '').replace(']', '')
    m = re.fullmatch(r'\\dfrac\{(.*)\}\{\\sqrt\{1 - \\mu\^2\}\}', t)
    t = m.group(1) if m else t
    fac = re.match(r'(-?\d+(?:\.\d+)?)\\,|(-)\\,', t)
    k = 1.0
    if fac:
        k = float(fac.group(1)) if fac.group(1) else -1.0
        t = t[fac.end():]
    return words(t), k, bool(m)


def hard_label(title, text):
    cut = text.replace('$', '')
    a, b = cut.index('['), cut.index(']')
    title = (title.replace('$', '') if title else cut[:a])
    title = re.sub(r'\\,\\left\(\\dfrac\{+r\^3\}+\{+\\epsilon\}+\\right\)$', '', title)
    title = re.sub(r'(\\,)+$', '', title)
    assert title in TITLES, f'unknown profile {title!r}'
    return words(cut[a + 1:b]), TITLES[title]


def shading(fig, x, valid, nr, what):
    """The layers in which the approximation is valid are shaded."""
    runs = [list(v) for k, v in itertools.groupby(range(len(x)), lambda i: valid[i]) if k]
    want = [(x[v[0]], x[v[-1]]) for v in runs]
    got = [sorted(ax['shaded']) for ax in fig.axes if ax['shaded'] or not want]
    assert len(got) >= nr, f'{what}: {len(got)} of {nr} panels are shaded'
    for v in got:
        assert len(v) == len(want) and np.allclose(v, want, rtol=1e-9, atol=1e-12), \
            f'{what}: shaded {v}, valid {want}'


def curves(fig):
    return [(ax['title'], ln) for ax in fig.axes for ln in ax['lines']]


def same_curve(got, x, y, tol, what):
    assert got[0].shape == x.shape, f'{what}: {got[0].shape} points, not {x.shape}'
    g.close(got[0], x, rtol=1e-9, atol=1e-12, msg=what + ' (abscissa)')
    fine = np.isfinite(y)
    assert fine.sum() and np.isfinite(got[1][fine]).all(), f'{what}: not finite'
    d = np.abs(got[1] - y)[fine].max()
    assert d <= tol, f'{what}: differs by {d} (of {np.abs(y[fine]).max()})'


def top(funcs, names):
    """The size of a product of functions that may vanish up to rounding."""
    return np.prod([max(np.abs(funcs[i][a]).max(), 1e-6 * max(
        np.abs(v).max() for v in funcs[i].values())) for i, a in enumerate(names)])


def judge_kernels(case, s, fh, q, modes, n2, valid, figs):
    """A curve is the product that its legend names; all parts of the coefficient are shown."""
    mu, soft, inv = angular(case, fh, modes)
    x, hard, mult = radial(case, s, fh, q, modes, n2)
    seen = {(k, i): {} for k in ('angular', 'radial') for i in range(1, 5)}
    for path, fig in figs:
        kind = 'angular' if '/angular_kernels/' in path else 'radial'
        if kind == 'radial':
            shading(fig, x, valid, len(fig.axes), path.split('/')[-1])
        nr = int(re.search(r'contribution_(\d)', path).group(1))
        for title, (cx, cy, label) in curves(fig):
            if kind == 'angular':
                fs, k, div = soft_label(label)
                y = k * np.prod([soft[i][f] for i, f in enumerate(fs)], axis=0)
                y = y * inv if div else y
                tol = 1e-6 * top(soft, fs) * (inv.max() if div else 1.0)
                same_curve((cx, cy), mu, y, tol, f'{kind} {nr}: {label}')
                key = (*sorted(fs), int(div))
            else:
                fs, mul = hard_label(title, label)
                y = mult[mul] * np.prod([hard[i][f] for i, f in enumerate(fs)], axis=0).real
                big = np.argmax(np.abs(y))
                key = (*sorted(fs), mul)
                size = top(hard, fs) * max(np.abs(mult[mul]).max(), 1e-6 * max(
                    np.abs(v).max() for v in mult.values()))
                if np.abs(y[big]) < 1e-6 * size:
                    same_curve((cx, cy), x, 0.0 * x, 2e-6 * size, f'{kind} {nr}: {label}')
                else:
                    c = cy[big] / y[big]
                    # the third derivative of the potential is a difference of larger terms
                    rel = 1e-3 if mul == 'rho3' else 1e-5
                    ok = [f for k, v in HARD[nr].items() if sorted(k) == sorted(fs) for f in v]
                    near = [f for f in ok if abs(abs(c) - f) < rel * f +
                            1e-12 * size / abs(y[big])]
                    assert near, f'{kind} {nr}: {label} ({title}) has factor {c}, not one of {ok}'
                    tol = rel * np.abs(y[big]) + 1e-12 * size
                    same_curve((cx, cy), x, math.copysign(near[0], c) * y, tol * 4.0,
                               f'{kind} {nr}: {label} ({title})')
            seen[kind, nr].setdefault(key, []).append(fs)
    for nr in range(1, 5):
        want = {(*sorted(t[:3]), t[3]) for t in SOFT[nr]}
        got = set(seen['angular', nr])
        assert got == want, f'angular parts {nr}: {sorted(got ^ want)} (missing or in excess)'
        want = {(*sorted(t), m) for t in HARD[nr] for m in MULT[nr]
                if nr != 4 or (m == 'rho3') == (len(set(t)) == 1)}
        got = set(seen['radial', nr])
        assert got == want, f'radial parts {nr}: {sorted(got ^ want)} (missing or in excess)'
    for (kind, nr), found in seen.items():
        for key, fs in found.items():
            perms = set(itertools.permutations(key[:3]))
            assert perms == set(fs) and len(fs) % len(perms) == 0, \
                f'{kind} {nr}: orders {sorted(fs)} of {key}'


def oscillates(fh):
    """Whether Hough functions exist for all modes of the triad."""
    return fh.corot_mode_omegas.min() > 0.0 and np.abs(fh.spin_factors).max() < 20.0


def coefficient(case, keys, data, info):
    """The triad and its coefficient, without the solver."""
    ad, nad = ([run.plain(case, data[k], w) for k in keys] for w in (0, 1))
    modes = ad if case['adiabatic'] else nad
    fh = FH(*modes)
    fh.set_mode_nonadiabatic_info(*nad)
    conj = tuple(case['conj'])
    two = keys[1] == keys[2]
    ok = bool(P3(ad, fh, triads=[(1, 2, 3)], conjugation=[conj], two_mode_harmonic=two).check())
    if not ok or not oscillates(fh):
        return fh, modes, ad, nad, None
    q = QCCR(*modes, info, fh, [k[0] for k in keys], [k[1] for k in keys], polytropic=False,
             use_complex=False, use_brunt_def=case['brunt'], conj_cc=conj,
             use_symbolic_derivatives=case['symbolic'],
             numerical_integration_method=case['method'], nr_omp_threads=4, use_parallel=False)
    q.adiabatic_coupling_rot()
    q.adiabatic_coupling_rot_profile()
    return fh, modes, ad, nad, q


@chk.prop('profile', strategy, quick=200, thorough=4000, shards=8)
def profile(case, ctx):
    """Messages and figures of the run follow from the profile and the valid layers."""
    top = os.path.realpath(tempfile.mkdtemp(dir=ctx.scratch))
    root = os.path.join(top, 'w')
    s = star.model(case)
    try:
        data = run.mode_data(case, s)
        run.write_modes(root + '/ad', data, 0)
        run.write_modes(root + '/nad', data, 1)
        prof = star.profile(case, s)
        level = threshold(case, data)
        n2 = stratify(case, case['n'] - 2, level)
        prof['brunt_N2'] = np.array([0.0, *n2, n2[-1]])[::-1].copy()
        run.write_mesa(root + '/mesa', prof)
        os.makedirs(root + '/AESolver')
        with open(root + '/AESolver/grid.toml', 'w') as f:
            for k, v in inlist(case, root).items():
                f.write(f'[{k}]\n' + ''.join(f'{a} = {run.toml(b)}\n' for a, b in v.items()) +
                        '\n')
        with np.errstate(all='ignore'):
            out, made, end = execute(case, root)
    finally:
        shutil.rmtree(top)
    lm = [tuple(v) for v in case['lm']]
    keys = [(*v, n[0]) for v, n in zip(lm, run.ranges(case))]
    with np.errstate(all='ignore'), contextlib.redirect_stderr(io.StringIO()):
        fh, modes, ad, nad, q = coefficient(case, keys, data, prof)
    if not oscillates(fh):
        ctx.label('no oscillation with a positive energy')
        return
    if q is None:
        ctx.label('refused')
        assert end is None or isinstance(end, SystemExit), f'refused triad: ended with {end!r}'
        assert not made, f'refused triad: {len(made)} figures'
        return
    w, gam = fh.corot_mode_omegas, fh.driving_rates
    if not np.isfinite(q.normed_coupling_coefficient):
        ctx.label('no oscillation with a positive energy')
        return
    slow = np.abs(w / gam)
    if slow.min() <= 10.0:
        ctx.label('not on the slow manifold')
        assert isinstance(end, PhysicsError), f'quality factors {slow}: ended with {end!r}'
        assert not made, f'quality factors {slow}: {len(made)} figures'
        return
    if end is not None and not isinstance(end, SystemExit):
        raise end
    assert end is None or not end.code, f'exit code {end.code}'
    valid = n2 > level
    tot = np.asarray(q.normed_coupling_coefficient_profile, dtype=float)
    terms = [np.asarray(t, dtype=float) for t in
             q.normed_contributions_coupling_coefficient_profile]
    cont, left = adjust(valid, tot)
    size = max(np.abs(t).max() for t in terms)
    # Hough functions are the same up to rounding (of an eigenvalue problem) only
    tol = 1e-6 * size
    ctx.label('all valid' if valid.all() else 'none valid' if not valid.any() else
              ('center ' if valid[0] else '') + ('surface ' if valid[-1] else '') + 'valid')
    # messages
    a, b = printed(out, 'Normed coupling coefficient eta:')
    g.close(a + b, [tot[-1], left[-1]], rtol=1e-6, atol=tol, msg='coefficient, adjusted')
    got = listed(out, 'Contributions to the normed coupling coefficient due to TAR non-validity '
                 'zones: [')
    assert len(got) == len(cont), f'contributions {got}, not {cont}'
    g.close(got, cont, rtol=1e-6, atol=tol, msg='contributions of zones')
    ordinals = ['First', 'Second', 'Third', 'Fourth']
    for t, o in zip(terms, ordinals):
        first = f'{o} normed coupling coefficient (eta) contribution:'
        if not case['split']:
            assert first not in out, 'terms are shown'
            continue
        c, lt = adjust(valid, t)
        a, b = printed(out, first)
        g.close(a + b, [t[-1], lt[-1]], rtol=1e-6, atol=tol, msg=f'{o} term, adjusted')
        got = listed(out, f'Contributions to the {o.lower()} normed coupling coefficient (eta) '
                     'contribution due to TAR non-validity zones: [')
        g.close(got, c, rtol=1e-6, atol=tol, msg=f'{o} term: contributions of zones')
    sharp = abs(tot[-1]) > 1e-5 * size and abs(left[-1]) > 1e-5 * size
    if sharp:
        judge_messages(case, keys, fh, ad, nad, q, left[-1], out, tot[-1])
    # figures
    sub = f'figure_output/profiles_isolated_mode_triads/M6/profile/rot_{case["pct"]}/'
    tag = f'_{case["name"]}_n' + '_'.join(str(k[2]) for k in keys) + '_l' + \
        '_'.join(str(k[0]) for k in keys) + '_m' + '_'.join(str(k[1]) for k in keys)
    figs = dict(made)
    assert len(figs) == len(made), f'figures are overwritten: {[p for p, _ in made]}'
    kern = [(p, f) for p, f in made if '_kernels/' in p]
    other = {p for p, _ in made if '_kernels/' not in p}
    want = {f'{sub}coupling_coefficient/cc_profile_single{tag}.pdf',
            f'{sub}coupling_coefficient/cc_profile{tag}.png'}
    if case['split']:
        want.add(f'{sub}coupling_coefficient_contributions/cc_contributions_profile{tag}.png')
    assert other == want, f'figures {sorted(other)}, not {sorted(want)}'
    assert bool(kern) == bool(case['kernels']), f'{len(kern)} figures of kernels'
    assert all(p.startswith(sub) and p.endswith(tag + '.png') for p, _ in kern), \
        f'figures {[p for p, _ in kern]}'
    x = s['x'][1:-1]
    for p in sorted(other):
        ys = terms if 'contributions' in p else [tot]
        if 'single' not in p:
            ys = ys + [adjust(valid, y)[1] for y in ys]
        got = curves(figs[p])
        strat = [ln for _, ln in got if len(ln[1]) == len(n2) and np.allclose(
            ln[1], n2, rtol=1e-9, atol=0.0)]
        name = p.split('/')[-1].split(tag)[0]
        strat = strat[:len(got) - len(ys)] if len(got) > len(ys) else []
        assert ('contributions' in p) != bool(strat), f'{name}: stratification'
        got = [ln for _, ln in got if not any(ln is v for v in strat)]
        assert len(got) == len(ys), f'{name}: {len(got)} curves, not {len(ys)}'
        if 'single' not in p:
            shading(figs[p], x, valid, 2, name)
        for i, (ln, y) in enumerate(zip(got, ys)):
            same_curve(ln, x, y, tol, f'{name}, curve {i}')
    if case['kernels']:
        ctx.label('kernels')
        with np.errstate(all='ignore'):
            judge_kernels(case, s, fh, q, modes, n2, valid, kern)
    ctx.nontrivial(sharp and valid.any() and not valid.all())


def judge_messages(case, keys, fh, ad, nad, q, adjusted, out, total):
    """Amplitudes scale with the inverse of the size of the coefficient."""
    ratio = abs(adjusted / total)
    w, gam = fh.corot_mode_omegas, fh.driving_rates
    det = w[0] - w[1] - w[2]
    qf, qc = det / gam.sum(), det / gam[1:].sum()
    cc = (2.0 * total)**2
    qq = w / gam
    amps = 0.5 * np.sqrt((1.0 + qf**2) / (cc * np.abs(
        [qq[1] * qq[2], qq[0] * qq[2], qq[0] * qq[1]])))
    crit = 0.5 * np.sqrt((1.0 + qc**2) / (cc * qq[1] * qq[2]))
    flux = np.zeros(3)
    for i in range(3):
        tk, ek = run.di.get_integrals(
            q._mu_values, *(getattr(q, f'_{a}hr_mode_{i + 1}')
                            for a in ('', 'theta_der_', 'theta_der2_')),
            'eddington', case['method'], 4, False)
        lum, xir = nad[i]['lag_L'][-1], ad[i]['xi_r'][-1] / ad[i]['x'][-1]
        flux[i] = amps[i] * abs(q.normalization_factors[i] * (tk * lum - ek * xir))
    tolerance = 1e-5 + 1e-11 * np.abs(w).max() / max(abs(det), 1e-300)
    for start, v in (('Stationary amplitudes (ppm):', amps),
                     ('Parent threshold amplitude for parametric resonance (ppm):', [crit]),
                     ('Surface luminosity fluctuations (ppm):', flux),
                     ('Parent threshold luminosity fluctuation for parametric resonance (ppm):',
                      [crit * flux[0] / amps[0]])):
        v = np.asarray(v) * 1e6
        a, b = printed(out, start)
        g.close(a, v, rtol=tolerance, atol=1e-8 * (1.0 + np.abs(v).max()), msg=start)
        g.close(b, v / ratio, rtol=tolerance, atol=1e-8 * (1.0 + np.abs(v / ratio).max()),
                msg=start + ' adjusted')
    start = 'Hyperbolicity check:'
    i = out.index(start) + len(start)
    words_ = re.findall(r'True|False', out[i:].split('\n')[0])
    assert len(words_) == 2, f'hyperbolic: {words_}'
    jac = hyper.hyper_jac_three if keys[1] == keys[2] else hyper.hyper_jac
    for said, cc in zip(words_, (total, adjusted)):
        j = jac(gam, w, fh.q_factor, cc)
        eig = np.linalg.eigvals(j)
        if np.isfinite(j).all() and np.abs(eig.real).min() > 1e-9 * np.abs(eig).max():
            assert said == str(bool(hyper.check_hyper(j))), f'hyperbolic: {words_}'


if __name__ == '__main__':
    sys.exit(chk.main())
