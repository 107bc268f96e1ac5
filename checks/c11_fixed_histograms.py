"""C11: histograms of prescribed bin widths or logarithmic bin edges."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C11', needs=('histogram_maker',),
    rule='Data, bin widths, phases, lower bounds and logarithmic edges are generated. Non-trivial: '
         'more than one bin and more than two values.',
    assumptions=['no NaN values', 'values within 1e-9 of an inner bin edge may be counted on '
                 'either side'])


def setup():
    global np, g, hj
    import numpy as np
    import hogg_jacky as hj
    from vplib import gen as g


chk.setup = setup


def strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'n': st.one_of(st.integers(0, 5), st.integers(2, 120)), 'seed': gen.seeds(st),
        'lattice': st.booleans(), 'm': st.integers(1, 25), 'scale': gen.logfloat(st, 1e-4, 1e4),
        'shift': gen.floats(st, -5, 5), 'fill': gen.floats(st, 0.2, 1.0),
        'phase': gen.floats(st, 0.0, 0.9), 'explicit_min': st.booleans(),
        'gap': gen.floats(st, 0.0, 3.0), 'min_bins': st.integers(0, 30),
        'mode': st.sampled_from(['probability', 'density', 'counts', 'both']),
        'parallel': st.booleans(), 'checks': st.booleans(), 'below': st.booleans(),
        'none': st.sampled_from([False] * 6 + ['data', 'width'])})


def flags(case):
    m = case['mode']
    return {'empirical_probability': m in ('probability', 'both'),
            'empirical_density': m in ('density', 'both')}


def expected(lo, hi, case, n, widths):
    f = {'probability': 1.0 / n, 'both': 1.0 / n, 'density': 1.0 / n / widths,
         'counts': 1.0}[case['mode']]
    return lo * f, hi * f


def compare(got, lo, hi, case, n, widths, name, length=None):
    """Between the bounds, padded with empty bins up to the asked number."""
    got = np.asarray(got, float)
    elo, ehi = expected(lo, hi, case, n, widths)
    size = max(len(lo), len(got))
    pad = [np.concatenate([a, np.zeros(size - len(a))]) for a in (got, elo, ehi)]
    tol = 1e-9 * (pad[2] + np.abs(pad[2]).max())
    assert np.all(pad[0] >= pad[1] - tol) and np.all(pad[0] <= pad[2] + tol), (
        f'{name}: {got.tolist()}, expected {elo.tolist()} to {ehi.tolist()}')
    if np.array_equal(lo, hi):
        last = int(np.max(np.nonzero(lo)[0])) + 1
        want = length if length is not None else max(last, case['min_bins'])
        assert len(got) == want, f'{name}: {len(got)} bins instead of {want}'
    return np.array_equal(lo, hi)


def bounds(pos, m, end):
    lo, hi = np.zeros(m), np.zeros(m)
    for p in pos:
        k = round(p)
        if abs(p - k) < 1e-9 and 0 < k < m:
            hi[[k - 1, k]] += 1
        elif abs(p - k) < 1e-9 and k == 0 and end:
            hi[0] += 1
            lo[0] += 1
        else:
            i = min(max(int(np.floor(p + 1e-9)), 0), m - 1)
            lo[i] += 1
            hi[i] += 1
    return lo, hi


@chk.prop('spec_width', strategy, quick=10000, thorough=40000, shards=5)
def spec_width(case, ctx):
    """Counts (or probabilities, densities) of [lowest + i width, lowest + (i + 1) width)."""
    r = g.rng(case['seed'])
    n, m, bw = case['n'], case['m'], case['scale']
    pos = r.integers(0, m + 1, n) * 1.0 if case['lattice'] else r.uniform(0, m * case['fill'], n)
    low = case['shift']
    x = low + pos * bw
    if n and not case['explicit_min']:
        low = x.min()
        pos = (x - low) / bw
    data = None if case['none'] == 'data' else x
    width = None if case['none'] == 'width' else bw
    kw = dict(flags(case), additional_checks=case['checks'],
              my_data_min=low if case['explicit_min'] else None)
    keep = x.copy()
    sharp = True
    phase = case['phase'] if np.all(pos + case['phase'] < m + 1) else 0.0
    for name in ('blas', 'numexpr', 'cython'):
        ph = phase if name == 'blas' else 0.0
        if name == 'blas':
            got = hj.histogram_blas_spec_width(
                data, width, m, ph, min_nr_bins=case['min_bins'], **kw)
        elif name == 'numexpr':
            got = hj.histogram_numexpr_spec_width(
                data, width, 0.0, nr_bins=m, min_nr_bins=case['min_bins'], **kw)
        else:
            got = hj.histogram_cython_spec_width(
                data, width, 0.0, nr_bins=m, min_nr_bins=case['min_bins'],
                use_parallel=case['parallel'], **kw)
        assert np.array_equal(keep, x), f'{name} changed the data'
        if case['none'] or n == 0:
            assert got is None, f'{name}: {got} without data or width'
            continue
        if m == 1:
            sharp = compare(got, np.array([n * 1.0]), np.array([n * 1.0]), case, n, bw, name, 1)
        else:
            lo, hi = bounds(pos + ph, m, True)
            sharp = compare(got, lo, hi, case, n, bw, name) and sharp
        # mass is conserved
        total = float(np.sum(got)) * (bw if case['mode'] == 'density' else 1.0)
        assert abs(total / (n if case['mode'] == 'counts' else 1.0) - 1) < 1e-9, (
            f'{name}: adds up to {total}')
    if case['none'] != 'width' and (n == 0 or np.ptp(x) > 1e-9 * (1 + np.abs(x).max())):
        got = hj.histogram_spec_width(data, m, **flags(case))
        if data is None or n == 0:
            assert got is None
        else:
            w = np.ptp(x) / m
            lo, hi = bounds((x - x.min()) / w, m, True)
            compare(got, lo, hi, case, n, w, 'numpy', m)
    ctx.label(('lattice' if case['lattice'] else 'continuous') + ('' if sharp else '/edge'))
    ctx.nontrivial(n > 2 and m > 1)


@chk.prop('below', strategy, quick=1500, thorough=8000, shards=2)
def below(case, ctx):
    """With additional checks only the lowest value may lie below the lowest bin: it is counted
    there; anything else ends the program."""
    r = g.rng(case['seed'])
    m, bw = max(case['m'], 2), case['scale']
    pos = r.uniform(0.01, m - 0.01, max(case['n'], 2))
    k = int(r.integers(0, len(pos)))
    pos[k] = -r.uniform(0.01, 0.99)
    two = case['below']
    if two:
        pos[:2] = -r.permutation([r.uniform(0.01, 0.4), r.uniform(0.5, 1.9)])
    lo, hi = bounds(np.maximum(pos, 0.0), m, True)
    for name in ('blas', 'numexpr', 'cython'):
        fn = getattr(hj, f'histogram_{name}_spec_width')
        # the phase shifts the bins upwards, for BLAS downwards
        phase = case['phase'] * (-1 if name == 'blas' else 1)
        x = (pos + case['phase']) * bw
        args = (x, bw, m, phase) if name == 'blas' else (x, bw, phase)
        kw = dict(flags(case), additional_checks=True, my_data_min=0.0, min_nr_bins=m)
        if name != 'blas':
            kw['nr_bins'] = m
        if name == 'cython':
            kw['use_parallel'] = case['parallel']
        try:
            got = fn(*args, **kw)
        except SystemExit:
            assert two, f'{name}: the lowest value slightly below the lowest bin is refused'
            continue
        assert not two, f'{name}: several values below the lowest bin are accepted'
        compare(got, lo, hi, {**case, 'min_bins': m}, len(x), bw, name)
    ctx.nontrivial(True)


def log_strategy(st):
    from vplib import gen
    return st.builds(lambda base, steps: {**base, 'steps': steps}, strategy(st),
                     st.lists(gen.floats(st, 0.01, 1.5), min_size=1, max_size=15))


@chk.prop('log_edges', log_strategy, quick=10000, thorough=40000, shards=5)
def log_edges(case, ctx):
    """Counts (or probabilities, densities) of (edge i, edge i+1], the outer bins taking what
    lies outside."""
    r = g.rng(case['seed'])
    e = 10.0**(-2.0 + np.cumsum([0.0] + case['steps']))
    m, n = len(e) - 1, case['n']
    x = 10.0**r.uniform(-2.5, np.log10(e[-1]) + 0.5, n)
    if case['lattice'] and n:
        on = r.uniform(size=n) < 0.5
        x[on] = r.choice(e, int(on.sum()))
    i = np.clip([int(np.sum(e < v)) - 1 for v in x], 0, m - 1).astype(int)
    counts = np.bincount(i, minlength=m).astype(float) if n else np.zeros(m)
    density = case['mode'] == 'density'
    mb = m if density else case['min_bins']
    data = None if case['none'] == 'data' else x
    edges = None if case['none'] == 'width' else e
    for name in ('', 'blas_', 'numexpr_', 'cython_'):
        fn = getattr(hj, f'histogram_{name}log_spec_edges')
        kw = dict(flags(case), min_nr_bins=mb)
        if name == 'cython_':
            kw['use_parallel'] = case['parallel']
        got = fn(data, edges, **kw)
        if case['none'] or n == 0:
            assert got is None, f'{name}: {got} without data or edges'
            continue
        assert fn(data, edges, negative_values=True, **kw) is None, f'{name}: negative values'
        compare(got, counts, counts, {**case, 'min_bins': mb}, n,
                np.diff(e) if density else 1.0, name + 'log')
    if n and not case['none']:
        got = hj.histogram_log_counts(x, e, 0.0, min_nr_bins=case['min_bins'])
        compare(got, counts, counts, {**case, 'mode': 'counts'}, n, 1.0, 'log counts')
    ctx.label('on edges' if case['lattice'] else 'between edges')
    ctx.nontrivial(n > 2 and m > 1)


if __name__ == '__main__':
    sys.exit(chk.main())
