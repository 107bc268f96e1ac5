"""C26: the scripts that belong to the paper (stability domains, threshold of the damping)."""

import contextlib
import io
import os
import re
import runpy
import sys
from fractions import Fraction as Fr

os.environ['MPLBACKEND'] = 'Agg'
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C26', needs=(),
    rule='Ratios of damping and driving rates (alone and on grids), detunings over nine decades; '
         'tables of up to 40 triads whose amplitude ratios lie on both sides of one. Non-trivial: a '
         'decision away from the boundary of stability, for a sum of rates that is negative '
         '(stability); more triads on each side than are used (threshold).',
    assumptions=['conditions of Dziembowski (1982) are those of its published formula, of which '
                 'the amplitude equations show that it has an error: it is compared as a formula'])


def setup():
    global np, np_dz, th, plt, stab, g, DIR
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import numpy as np
    from vplib import build, gen as g, stab
    DIR = os.path.join(build.REPO, 'VB_et_al_2024_additional_plot_compute_scripts')
    np_dz = runpy.run_path(DIR + '/dziembowski_subplot.py', run_name='dz')
    plt.rcParams['text.usetex'] = False
    th = runpy.run_path(DIR + '/compute_threshold_theta.py', run_name='th')


chk.setup = setup


# ---------------------------------------------------------------- stability domains
def domain_strategy(st):
    from vplib import gen
    pos = gen.logfloat(st, 0.02, 2000.0)
    return st.fixed_dictionaries({
        'theta': st.lists(st.tuples(pos, pos), min_size=1, max_size=8),
        'dom': gen.logfloat(st, 1e-3, 1e6, signed=True), 'kind': st.sampled_from(['1d', '2d', 'each']),
        'near': st.booleans(), 'round': st.sampled_from([None, 2])})


def quartic_82(t2, t3, dom):
    """Dziembowski (1982): in exact arithmetic, or None when too close to zero."""
    t2, t3, dom = Fr(t2), Fr(t3), Fr(dom)
    s, p = t2 + t3 - 1, t2 * t3
    if s == 0:
        return None
    q2 = (dom / s)**2
    terms = [-s**3, -2 * p, q2 * -12 * p,
             q2 * s * ((t2 - t3)**2 + (t2 + t3)**2 + 2),
             3 * q2**2 * -6 * p, 3 * q2**2 * s * ((t2 - t3)**2 + 2 * (t2 + t3)**2 + 1)]
    tot = sum(terms)
    if abs(tot) < Fr(1, 10**6) * sum(map(abs, terms)) or abs(s) < Fr(1, 10**6) * (t2 + t3):
        return None
    return tot > 0 and s > 0


def shapes(kind, a, b):
    if kind == '2d':
        return np.tile(a, (2, 1)), np.tile(b, (2, 1))
    return a, b


@chk.prop('stability', domain_strategy, quick=1500, thorough=40000, shards=3)
def stability(case, ctx):
    """Corrected conditions decide like the eigenvalues; the others like their formula."""
    t2, t3 = (np.array(x, dtype=float) for x in zip(*case['theta']))
    if case['near']:
        t3 = t2 * (1.0 + 1e-2 * t3 / 2000.0)
    if case['round']:
        t2, t3 = np.round(t2, 2) + 0.01, np.round(t3, 2) + 0.01
    dom = case['dom']
    old, new = np_dz['original_dziembowski'], np_dz['corrected_dziembowski']
    if case['kind'] == 'each':
        a = np.array([bool(old(x, y, dom)) for x, y in zip(t2, t3)])
        b = np.array([bool(new(x, y, dom)) for x, y in zip(t2, t3)])
    else:
        x, y = shapes(case['kind'], t2, t3)
        a, b = np.asarray(old(x, y, dom)), np.asarray(new(x, y, dom))
        assert a.shape == b.shape == x.shape, f'shapes {a.shape}, {b.shape} for {x.shape}'
        if case['kind'] == '2d':
            assert (a[0] == a[1]).all() and (b[0] == b[1]).all(), 'rows differ'
            a, b = a[0], b[0]
    for x, y, got, cor in zip(t2, t3, a, b):
        exp = quartic_82(x, y, dom)
        tag = f'theta {x!r}, {y!r}, detuning {dom!r}'
        if exp is not None:
            assert bool(got) == exp, f'{tag}: Dziembowski (1982) {exp}, not {bool(got)}'
        gam = np.array([1.0, -x, -y])
        if abs(gam.sum()) < 1e-6 * (x + y):
            ctx.label('sum of rates about zero')
            continue
        exp = stab.triad(gam, dom / gam.sum())
        if exp is None:
            ctx.label('near boundary')
            continue
        assert bool(cor) == exp, f'{tag}: eigenvalues {exp}, conditions {bool(cor)}'
        ctx.label(f'stable={exp}')
        ctx.nontrivial(gam.sum() < 0.0)


def grid_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'lo': gen.logfloat(st, 1e-2, 1.0), 'n': st.integers(1, 40), 'step': gen.logfloat(
            st, 1e-3, 5.0), 'frac': st.floats(0.1, 0.9), 'row': st.booleans(),
        'text': st.booleans(), 'dec': st.integers(-3, 6),
        'ticks': st.tuples(st.booleans(), st.booleans()),
        'labels': st.tuples(st.booleans(), st.booleans())})


@chk.prop('panels', grid_strategy, quick=150, thorough=1500, shards=2)
def panels(case, ctx):
    """Grids hold each pair of ratios; names, labels and metadata tell the right row of panels."""
    lo, step, n = case['lo'], case['step'], case['n']
    hi = lo + (n - 1 + case['frac']) * step
    X, Y, ext = np_dz['comp_meshgrid'](theta_min=lo, theta_max=hi, dtheta=step)
    want = lo + step * np.arange(n)
    assert X.shape == Y.shape == (n, n), f'grid of {X.shape}, not {n} by {n}'
    g.close(X, np.tile(want, (n, 1)), rtol=1e-12, msg='second mode, along rows')
    g.close(Y, np.tile(want, (n, 1)).T, rtol=1e-12, msg='third mode, along columns')
    assert tuple(ext) == (lo, hi, lo, hi), f'extent {ext}'
    info = np_dz['get_grid_information'](first_row=case['row'])
    dom = [10.0**k for k in ((-1, 0, 1) if case['row'] else (2, 3, 4))]
    g.close(info['domega_gamma1'], dom, rtol=1e-12, msg='detunings of the panels')
    name = np_dz['generate_save_name'](add_text=case['text'], first_row=case['row'])
    ex = 'e-1_e0_e1' if case['row'] else 'e2_e3_e4'
    assert ex in name and ('annotated' in name) == case['text'] and name.endswith('.png'), name
    meta = np_dz['create_figure_meta_data'](grid_data=info)
    found = [float(x) for x in re.findall(r"'([-+.\dE]+)'", meta['Description'])]
    assert found == dom, f'metadata: detunings {found}'
    axes, fig = np_dz['get_figure_information'](first_row=case['row'])
    try:
        loop = np_dz['generate_loop_data'](grid_info=info, axes_info=axes)
        rows = list(zip(*loop.values()))
        assert len(rows) == 3, f'{len(rows)} panels'
        for i, (d, tmi, tma, dth, ax, *_) in enumerate(rows):
            assert d == info['domega_gamma1'][i] and ax is fig.axes[i], f'panel {i}'
            assert (tmi, tma, dth) == tuple(info[k][i] for k in ('theta_min', 'theta_max',
                                                                'dtheta')), f'panel {i}'
            assert 0.0 < tmi < tma and dth < tma - tmi, f'panel {i}: {tmi} to {tma} by {dth}'
        ax = fig.axes[0]
        np_dz['adjust_ticks'](ax=ax, xtickbottom=case['ticks'][0], ytickleft=case['ticks'][1])
        np_dz['adjust_labels'](plot_xlabel=case['labels'][0], plot_ylabel=case['labels'][1], ax=ax)
        np_dz['add_text_label'](my_ax=ax, delta_omega_over_gamma_1=10.0**case['dec'],
                                text_color='k')
        side = [a.get_major_ticks()[0].label1.get_visible() for a in (ax.xaxis, ax.yaxis)]
        assert [bool(x) for x in side] == list(case['ticks']), f'labels of ticks {side}'
        got = ['vartheta_2' in ax.get_xlabel(), 'vartheta_3' in ax.get_ylabel()]
        assert got == list(case['labels']), f'axis labels {ax.get_xlabel()!r} {ax.get_ylabel()!r}'
        (text,) = [t.get_text() for t in ax.texts]
        assert f'10^{{{case["dec"]}}}' in text, f'annotation {text!r} for 10^{case["dec"]}'
    finally:
        plt.close('all')
    ctx.nontrivial(n > 1)


# ---------------------------------------------------------------- threshold
def threshold_strategy(st):
    from vplib import gen
    th_ = gen.logfloat(st, 1e-3, 50.0)
    return st.fixed_dictionaries({
        'k': st.integers(2, 5),
        'below': st.lists(st.tuples(th_, gen.floats(st, 0.01, 0.99)), min_size=2, max_size=20,
                          unique_by=lambda t: t[1]),
        'above': st.lists(st.tuples(th_, gen.floats(st, 1.01, 4.0)), min_size=2, max_size=20,
                          unique_by=lambda t: t[1]),
        'seed': st.integers(0, 10**6)})


def line(x, y):
    """Least squares of y on x, in exact arithmetic: slope, intercept and their variances."""
    x, y = [Fr(float(v)) for v in x], [Fr(float(v)) for v in y]
    n = len(x)
    mx, my = sum(x) / n, sum(y) / n
    sxx = sum((a - mx)**2 for a in x)
    b = sum((a - mx) * (c - my) for a, c in zip(x, y)) / sxx
    a0 = my - b * mx
    res = sum((c - a0 - b * a)**2 for a, c in zip(x, y)) / (n - 2)
    var = res / sxx
    return float(b), float(a0), float(var), float(var * sum(a * a for a in x) / n)


def nearest(pairs, k):
    out = []
    for side in (1, -1):
        rows = sorted([p for p in pairs if (p[1] - 1.0) * side > 0.0], key=lambda p: abs(p[1] - 1.0))
        out.append(rows[:k])
    return out


def judge_line(res, unc, bound, rows):
    b, a, vb, va = line([r[1] for r in rows], [r[0] for r in rows])
    sc = max(r[0] for r in rows)
    tol = {'rtol': 1e-6, 'atol': 1e-7 * sc}
    g.close(bound, a + b, msg='threshold', **tol)
    g.close([res.slope, res.intercept], [b, a], msg='slope, intercept', **tol)
    g.close(unc, np.sqrt(va + vb), msg='uncertainty', rtol=1e-5, atol=1e-5 * sc)
    return a + b, np.sqrt(va + vb)


@chk.prop('threshold', threshold_strategy, quick=600, thorough=10000, shards=2)
def threshold(case, ctx):
    """The line is fitted to the k triads closest to equal amplitudes on either side."""
    rng = g.rng(case['seed'])
    pairs = [tuple(p) for p in case['below'] + case['above']]
    rng.shuffle(pairs)
    pairs = [(float(a), float(b)) for a, b in pairs]
    k = min(case['k'], len(case['below']), len(case['above']), len(pairs) - 1)
    df = th['generate_plot_dataframe'](theta_2=[p[0] for p in pairs],
                                       ratio_2_1=[p[1] for p in pairs])
    assert list(df['theta_2']) == [p[0] for p in pairs], 'table: damping'
    assert list(df['ratio_2_1']) == [p[1] for p in pairs], 'table: amplitude ratios'
    pos, neg = th['get_difference_arrays'](my_df=df)
    r = np.array([p[1] for p in pairs]) - 1.0
    assert np.array_equal(pos, np.where(r > 0, r, np.nan), equal_nan=True), f'above: {pos}'
    assert np.array_equal(neg, np.where(r > 0, np.nan, r), equal_nan=True), f'below: {neg}'
    mp, mn = th['get_k_smallest_points_masks'](k=k, my_pos_diff=pos, my_neg_diff=neg)
    x, y = th['get_k_smallest_points'](k=k, X=np.array([p[0] for p in pairs]),
                                       Y=np.array([p[1] for p in pairs]), pos_closest_k=mp,
                                       neg_closest_k=mn)
    rows = sum(nearest(pairs, k), [])
    assert sorted(zip(map(float, x), map(float, y))) == sorted(rows), \
        f'{k} closest: {sorted(zip(y, x))}, not {sorted((q, p) for p, q in rows)}'
    ctx.nontrivial(k < min(len(case['below']), len(case['above'])))
    res, unc, bound = th['perform_linear_regression'](xx_k=x, yy_k=y)
    a, u = judge_line(res, unc, bound, rows)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        th['print_result'](lin_result=res, uncertainty_boundary=unc, boundary=bound)
    nums = [[float(v) for v in re.findall(r'[-+]?\d+\.?\d*(?:e[-+]?\d+)?', ln)]
            for ln in out.getvalue().split('\n') if '+/-' in ln]
    want = [[bound, unc], [res.slope, res.stderr], [res.intercept, res.intercept_stderr]]
    assert len(nums) == 3, f'printed {out.getvalue()!r}'
    for got, exp in zip(nums, want):
        g.close(got, exp, rtol=1e-9, atol=1e-12, msg='printed')


def published_strategy(st):
    return st.fixed_dictionaries({'show': st.booleans()})


@chk.prop('published', published_strategy, quick=2, thorough=2, shards=1)
def published(case, ctx):
    """The script as it is run: its threshold is that of the triads it lists."""
    pairs = list(zip(*th['get_values_for_interpolation']()))
    out, show = io.StringIO(), plt.show
    plt.show = lambda *a, **k: None
    try:
        with contextlib.redirect_stdout(out):
            done = runpy.run_path(DIR + '/compute_threshold_theta.py', run_name='__main__')
    finally:
        plt.show = show
        plt.close('all')
    rows = sum(nearest(pairs, done['my_nr_closest_points']), [])
    judge_line(done['lin_result'], done['uncertainty_boundary'], done['boundary'], rows)
    assert f'{done["boundary"]} +/- {done["uncertainty_boundary"]}' in out.getvalue(), 'printed'
    ctx.nontrivial()


if __name__ == '__main__':
    sys.exit(chk.main())
