"""C10: histograms whose binning maximises the jackknife likelihood of Hogg (2008)."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C10', needs=('histogram_maker',),
    rule='Data sets (continuous, clustered, lattice; with NaN values), smoothing parameters, '
         'numbers of bins and phases are generated, for all nine implementations. Non-trivial: at '
         'least two candidate binnings and three data points.',
    assumptions=['at least one candidate has a defined likelihood',
                 'values within 1e-9 of an inner bin edge may be counted on either side'])

LINEAR = ('numpy', 'iter', 'blas', 'numexpr', 'cython')


def setup():
    global np, g, hj
    import numpy as np
    import hogg_jacky as hj
    from vplib import gen as g


chk.setup = setup


def strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'n': st.one_of(st.integers(0, 6), st.integers(2, 150)),
        'kind': st.sampled_from(['normal', 'uniform', 'clusters', 'lattice', 'lognormal']),
        'seed': gen.seeds(st), 'scale': gen.logfloat(st, 1e-4, 1e4),
        'shift': gen.floats(st, -5, 5),
        'nan': st.sampled_from([0.0, 0.0, 0.1, 0.5, 1.0]),
        'alphas': st.lists(st.one_of(st.sampled_from([1.0, 2.0, 1.5]), gen.floats(st, 0.3, 6.0)),
                           min_size=1, max_size=4, unique=True),
        'bins': st.lists(st.integers(1, 25), min_size=1, max_size=5, unique=True),
        'phases': st.lists(gen.floats(st, 0.0, 0.99), min_size=1, max_size=3),
        'mode': st.sampled_from(['probability', 'density', 'counts', 'both']),
        'params': st.booleans(), 'verbose': st.booleans(), 'parallel': st.booleans(),
        'checks': st.booleans(), 'width': gen.floats(st, 0.1, 3.0)})


def data(case, log):
    r = g.rng(case['seed'])
    n = case['n']
    kind = case['kind']
    x = {'normal': lambda: r.normal(size=n), 'uniform': lambda: r.uniform(size=n),
         'clusters': lambda: r.choice([0.0, 3.0, 10.0], n) + 0.1 * r.normal(size=n),
         'lattice': lambda: r.integers(0, 12, n).astype(float),
         'lognormal': lambda: np.exp(r.normal(size=n))}[kind]()
    if log:
        x = 10.0**np.clip(x, -30, 30) if kind != 'lognormal' else x
        x = x * case['scale']
    else:
        x = x * case['scale'] + case['shift']
    x[r.uniform(size=n) < case['nan']] = np.nan
    return x


def kwargs(case):
    m = case['mode']
    return {'empirical_probability': m in ('probability', 'both'),
            'empirical_density': m in ('density', 'both'), 'verbose': case['verbose'],
            'return_binning_parameters': case['params'], 'custom_bin_width': [case['width']]}


def call(fn, x, case, **kw):
    import contextlib
    import io
    keep = x.copy()
    with contextlib.redirect_stdout(io.StringIO()) as out:
        res = fn(x, case['alphas'], case['bins'], **kwargs(case), **kw)
    assert np.array_equal(keep, x, equal_nan=True), 'the data were changed'
    if not case['verbose']:
        assert not out.getvalue(), 'printed although not verbose'
    return res


def special(res, x, case):
    """Judges inputs without an optimisation; True when it was one."""
    if x.shape[0] == 1 and not np.isnan(x[0]):
        assert np.array_equal(res[0], [1]) and res[2] == case['width'] and res[3] is None, (
            f'a single value gives {res}')
        return True
    if np.isnan(x).all():
        assert res == (None,) * 4, f'no values at all give {res}'
        return True
    return False


def likelihood(counts, widths, n, m, alpha):
    with np.errstate(all='ignore'):
        return float(np.sum(counts * np.log((counts + alpha - 1.0)
                                            / (widths * (n - 1.0 + m * alpha)))))


def judge(case, res, values, cands, linear, name):
    """cands: {(alpha, bins, phase): (lo, hi, widths, edges)} with bounds of the counts."""
    hist, edges, width, params = res
    n = len(values)
    hist = np.asarray(hist, float)
    scores = {k: likelihood(lo, w, n, k[1], k[0]) for k, (lo, hi, w, e) in cands.items()}
    m = len(edges) - 1
    ws = np.diff(edges)
    fits = [k for k in cands if k[1] == m]
    assert fits, f'{name}: {m} bins were not among the candidates'
    full = np.zeros(m)
    full[:len(hist)] = hist
    full = full * {'probability': n, 'both': n, 'density': n * (ws if not linear else width),
                   'counts': 1.0}[case['mode']]
    if case['params']:
        key = (params['binning alpha'], params['nr of bins'], params['binning phase'])
        got = [k for k in fits if k[0] == key[0] and abs(k[2]) == key[2]]
        assert got and key[1] == m, f'{name}: parameters {params} but {m} bins'
    else:
        assert params is None, f'{name}: unasked parameters {params}'
        got = fits
    g.close(edges, cands[fits[0]][3], rtol=1e-10, atol=1e-12 * abs(edges[-1]), msg=name + ' edges')
    if linear:
        g.close(width, cands[fits[0]][2][0], rtol=1e-12, atol=0, msg=name + ' bin width')
    else:
        g.close(width, ws, rtol=1e-9, atol=1e-300, msg=name + ' bin widths')
    ok = [k for k in got if np.all(full > cands[k][0] - 1e-6) and np.all(full < cands[k][1] + 1e-6)]
    assert ok and abs(full.sum() - n) < 1e-6, (
        f'{name}: {full.tolist()} for counts between {[c.tolist() for c in cands[got[0]][:2]]}')
    sharp = all(np.array_equal(lo, hi) for lo, hi, w, e in cands.values())
    if sharp:
        good = {k: v for k, v in scores.items() if np.isfinite(v)}
        best = max(good.values())
        mine = max((scores[k] for k in ok if np.isfinite(scores[k])), default=-np.inf)
        assert mine > best - 1e-8 * max(1.0, abs(best)), (
            f'{name}: chose {got} with likelihood {mine}, but the best candidate has {best}')
    return sharp


def bounds(pos, m):
    """Lowest and highest possible counts for positions in units of bins."""
    lo, hi = np.zeros(m), np.zeros(m)
    for p in pos:
        near = abs(p - round(p)) < 1e-9 and 0 < round(p) < m
        if near:
            hi[[round(p) - 1, round(p)]] += 1
        else:
            i = min(max(int(np.floor(p + 1e-9)), 0), m - 1)
            lo[i] += 1
            hi[i] += 1
    return lo, hi


def prepare(case, log):
    x = data(case, log)
    v = x[~np.isnan(x)]
    return x, v


@chk.prop('linear', strategy, quick=4000, thorough=20000, shards=5)
def linear(case, ctx):
    """Every implementation returns the candidate of highest likelihood, with its histogram."""
    x, v = prepare(case, False)
    trivial = x.shape[0] <= 1 or len(v) == 0
    if not trivial and (len(v) < 2 or np.ptp(v) <= 1e-9 * np.abs(v).max()):
        return
    if x.shape[0] == 1 and np.isnan(x[0]):
        return
    for name in LINEAR:
        fn = getattr(hj, f'histogram_likelihood_{name}')
        kw, phases = {}, [0.0]
        if name in ('blas', 'numexpr', 'cython'):
            kw['additional_checks'] = case['checks']
        if name == 'cython':
            kw['use_parallel'] = case['parallel']
        if name == 'blas':
            phases = kw['my_bin_phases'] = case['phases']
        elif name in ('numexpr', 'cython') and case['checks'] and not trivial:
            # the bins are shifted upwards, so that only the lowest value lies below them
            gap = np.partition(v, 1)[1] - v.min()
            top = 0.9 * min(gap / np.ptp(v) * min(case['bins']), 1.0)
            kw['my_bin_phases'] = [p * top for p in case['phases']]
            phases = [-p for p in kw['my_bin_phases']]
        if trivial:
            assert special(call(fn, x, case, **kw), x, case)
            continue
        n, bw = len(v), np.ptp(v)
        cands = {}
        for m in case['bins']:
            for p in phases:
                lo, hi = bounds((v - v.min()) / (bw / m) + p, m) if m > 1 else (
                    np.array([n]), np.array([n]))
                for a in case['alphas']:
                    cands[(a, m, p)] = (lo, hi, np.full(m, bw / m),
                                        np.linspace(v.min(), v.max(), m + 1))
        if not any(np.isfinite(likelihood(c[0], c[2], n, k[1], k[0])) for k, c in cands.items()
                   if np.array_equal(c[0], c[1])):
            return
        sharp = judge(case, call(fn, x, case, **kw), v, cands, True, name)
    ctx.label('trivial' if trivial else case['kind'] + ('' if sharp else '/edge values'))
    ctx.nontrivial(len(v) > 2 and len(case['bins']) * len(case['alphas']) > 1)


@chk.prop('logarithmic', strategy, quick=4000, thorough=20000, shards=5)
def logarithmic(case, ctx):
    """The same for bins of equal width in the logarithm."""
    x, v = prepare(case, True)
    trivial = x.shape[0] <= 1 or len(v) == 0
    if not trivial and (len(v) < 2 or v.max() < v.min() * (1 + 1e-6)):
        return
    if x.shape[0] == 1 and np.isnan(x[0]):
        return
    for name in LINEAR[1:]:
        fn = getattr(hj, f'log_histogram_likelihood_{name}')
        kw = {'use_parallel': case['parallel']} if name == 'cython' else {}
        if trivial:
            assert special(call(fn, x, case, **kw), x, case)
            continue
        n = len(v)
        cands = {}
        lv = np.log(v)
        for m in case['bins']:
            e = np.exp(np.linspace(lv.min(), lv.max(), m + 1))
            # bins are open below and closed above
            pos = (lv - lv.min()) / (lv.max() - lv.min()) * m
            lo, hi = bounds(pos, m)
            for a in case['alphas']:
                cands[(a, m, 0.0)] = (lo, hi, np.diff(e), e)
        if not any(np.isfinite(likelihood(c[0], c[2], n, k[1], k[0])) for k, c in cands.items()
                   if np.array_equal(c[0], c[1])):
            return
        res = call(fn, x, case, **kw)
        judge(case, res, v, cands, False, name + ' log')
        neg = call(fn, x, case, negative_values=True, **kw)
        assert neg == (None,) * 4, f'{name}: negative values give {neg}'
    ctx.label('trivial' if trivial else case['kind'])
    ctx.nontrivial(len(v) > 2 and len(case['bins']) * len(case['alphas']) > 1)


@chk.prop('missing', lambda st: st.tuples(st.integers(0, 2), st.integers(0, 8)),
          quick=60, thorough=60, shards=1)
def missing(case, ctx):
    """Without data, smoothing parameters or numbers of bins the program ends."""
    which, fn = case
    names = [f'histogram_likelihood_{n}' for n in LINEAR] + [
        f'log_histogram_likelihood_{n}' for n in LINEAR[1:]]
    args = [np.array([1.0, 2.0, 4.0]), [1.5], [2]]
    args[which] = None
    try:
        getattr(hj, names[fn])(*args)
    except SystemExit:
        return
    raise AssertionError(f'{names[fn]} answered without its argument {which}')


if __name__ == '__main__':
    sys.exit(chk.main())
