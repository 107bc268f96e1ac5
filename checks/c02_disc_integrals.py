"""C02: limb darkening and disc integrals."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C02', needs=('cpp-ld-funcs', 'cpp-disc-integrator'),
    rule='mu grids covering [-1, 1] or part of it (equally spaced, 3..3000 points), angular '
         'functions and derivatives, method, thread count, parallel flag, array layout are '
         'generated. Non-trivial: points on both sides of mu=0 or a non-contiguous view.',
    assumptions=['the grid has at least two points with 0 <= mu <= 1, as every caller provides'])


def setup():
    global np, ldf, di, g
    import numpy as np
    from ld_funcs import ldf
    from disc_integrator import di
    from vplib import gen as g


chk.setup = setup


def ld_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'mu': gen.vec(st, 1, 9, -1.0, 1.0, big=3000),
        'threads': st.integers(1, 8), 'par': st.booleans(),
        'layout': st.sampled_from(['plain', 'plain', 'plain', 'step2', 'reversed', 'column']),
        'out_layout': st.sampled_from(['plain', 'plain', 'plain', 'step3', 'reversed'])})


def lay(base, layout, np):
    """A view with the values of `base` in a given memory layout, plus its guard buffer."""
    n = base.size
    if layout == 'plain':
        buf = np.full(n + 8, -7.25)
        view = buf[4:4 + n]
    elif layout in ('step2', 'step3'):
        s = int(layout[-1])
        buf = np.full(s * n + 8, -7.25)
        view = buf[4:4 + s * n:s]
    elif layout == 'reversed':
        buf = np.full(2 * n + 8, -7.25)
        view = buf[3 + n:3:-1]
    else:
        buf = np.full((n, 3), -7.25)
        view = buf[:, 1]
    assert view.shape == (n,)
    view[:] = base
    return view, buf


@chk.prop('limb_darkening', ld_strategy, quick=5000, thorough=20000, shards=3)
def limb_darkening(case, ctx):
    """Values are 1 + 1.5 mu, whatever the layout; nothing outside the output is written."""
    mu, _ = lay(g.arr(case['mu']), case['layout'], np)
    out, buf = lay(np.zeros(mu.size), case['out_layout'], np)
    contiguous = mu.flags.c_contiguous and out.flags.c_contiguous
    guard = buf.copy()
    keep = mu.copy()
    try:
        ldf.compute(mu, out, 'eddington', case['threads'], case['par'])
    except ValueError:
        # rejecting a layout that cannot be handled is fine, as long as nothing happens
        assert not contiguous, 'a contiguous array was rejected'
        assert np.array_equal(buf, guard), 'a rejected call wrote to its output'
        ctx.label('rejected view')
        ctx.nontrivial()
        return
    g.close(out, 1.0 + 1.5 * keep, 1e-14, 1e-14, f"LD values ({case['layout']})")
    assert np.array_equal(mu, keep), 'the input was changed'
    written = out.copy()
    out[:] = 0.0
    assert np.array_equal(buf, guard), 'memory outside of the output was written'
    out[:] = written
    ctx.label(f"{case['layout']}/{case['out_layout']}")
    ctx.label('parallel' if case['par'] else 'serial')
    ctx.nontrivial(mu.size > 1)


def di_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'n': st.one_of(st.integers(3, 40), st.integers(41, 3000)),
        'lo': st.sampled_from([-1.0, -1.0, -0.9, -0.35, 0.0, 0.1, 0.5]),
        'hi': st.sampled_from([1.0, 1.0, 0.95, 1.25]),
        'desc': st.booleans(),
        'strays': st.one_of(st.just([]), st.just([]), st.lists(st.tuples(
            st.floats(0.0, 1.0), st.sampled_from([-1.0, -0.3, -1e-9, 1.0 + 1e-9, 1.5, 40.0])),
            min_size=1, max_size=4)),
        'seed': gen.seeds(st),
        'scale': gen.logfloat(st, 1e-3, 1e3),
        'method': st.sampled_from(['trapz', 'simpson']),
        'threads': st.integers(1, 8), 'par': st.booleans()})


def reference(mu, f, d1, d2, method):
    keep = (mu >= 0.0) & (mu <= 1.0)
    m, f, d1, d2 = mu[keep], f[keep], d1[keep], d2[keep]
    ld = 1.0 + 1.5 * m
    h = m[1] - m[0]
    n = m.size
    if method == 'simpson' and n % 2 == 1:
        w = np.ones(n)
        w[1:-1:2] = 4.0
        w[2:-1:2] = 2.0
        w *= h / 3.0
    else:
        w = np.full(n, h)
        w[0] = w[-1] = 0.5 * h
    first = m * f * ld
    second = m * ld * (2.0 * m * d1 + (m**2 - 1.0) * d2)
    return (w @ first, w @ second, np.abs(w) @ np.abs(first),
            np.abs(w) @ (m * ld * (2.0 * m * np.abs(d1) + np.abs((m**2 - 1.0) * d2))), n)


@chk.prop('disc_integrals', di_strategy, quick=5000, thorough=20000, shards=4)
def disc_integrals(case, ctx):
    mu = np.linspace(case['lo'], case['hi'], case['n'])
    if case['desc']:
        mu = np.ascontiguousarray(mu[::-1])
    # values outside of the hemisphere, wherever they are, play no role
    for where, value in case['strays']:
        mu = np.insert(mu, int(where * mu.size), value)
    if np.count_nonzero((mu >= 0) & (mu <= 1)) < 3:
        ctx.label('too few points')
        return
    if case['strays']:
        ctx.label('strays')
    r = g.rng(case['seed'])
    f, d1, d2 = (case['scale'] * r.uniform(-1, 1, mu.size) for _ in range(3))
    saved = [a.copy() for a in (mu, f, d1, d2)]
    got = di.get_integrals(mu, f, d1, d2, 'eddington', case['method'], case['threads'],
                           case['par'])
    e1, e2, s1, s2, n = reference(mu, f, d1, d2, case['method'])
    assert abs(got[0] - e1) <= 1e-11 * s1 + 1e-15, f'first disc integral {got[0]!r} != {e1!r}'
    assert abs(got[1] - e2) <= 1e-11 * s2 + 1e-15, f'second disc integral {got[1]!r} != {e2!r}'
    for a, b in zip((mu, f, d1, d2), saved):
        assert np.array_equal(a, b), 'an input array was changed'
    for threads, par in ((1, False), (case['threads'], not case['par'])):
        o = di.get_integrals(mu, f, d1, d2, 'eddington', case['method'], threads, par)
        assert abs(o[0] - got[0]) <= 1e-12 * s1 and abs(o[1] - got[1]) <= 1e-12 * s2, \
            f'threads={threads} parallel={par} gives {o!r} instead of {got!r}'
    ctx.label(f"{case['method']}/{'odd' if n % 2 else 'even'}/{'par' if case['par'] else 'ser'}")
    ctx.nontrivial(n < mu.size)


def sched_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'n': st.integers(500, 20000), 'seed': gen.seeds(st),
        'method': st.sampled_from(['trapz', 'simpson']), 'threads': st.integers(2, 8)})


@chk.prop('schedules', sched_strategy, quick=60, thorough=500, shards=2)
def schedules(case, ctx):
    """However the threads take turns, the parallel integrals and limb-darkening values are
    those of the serial computation: each case is run many times."""
    mu = np.linspace(-0.2, 1.0, case['n'])
    r = g.rng(case['seed'])
    f, d1, d2 = (r.uniform(-1, 1, mu.size) for _ in range(3))
    ref = di.get_integrals(mu, f, d1, d2, 'eddington', case['method'], 1, False)
    e1, e2, s1, s2, _ = reference(mu, f, d1, d2, case['method'])
    for k in range(40):
        got = di.get_integrals(mu, f, d1, d2, 'eddington', case['method'], case['threads'], True)
        assert abs(got[0] - e1) <= 1e-11 * s1 and abs(got[1] - e2) <= 1e-11 * s2, \
            f'run {k} with {case["threads"]} threads: {got!r} != {(e1, e2)!r} (serial: {ref!r})'
        out = np.zeros(mu.size)
        ldf.compute(mu, out, 'eddington', case['threads'], True)
        g.close(out, 1.0 + 1.5 * mu, 1e-14, 1e-14, f'LD values, run {k}')
    ctx.label(f"{case['threads']} threads")
    ctx.nontrivial()


if __name__ == '__main__':
    sys.exit(chk.main())
