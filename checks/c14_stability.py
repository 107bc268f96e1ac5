"""C14: stability criteria and hyperbolicity against the Jacobian of the amplitude equations."""

import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C14', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv'),
    rule='Driving and damping rates, angular frequencies, detunings and coupling coefficients of '
         'resonant triads and of harmonic pairs are generated over several decades; matrices for '
         'the hyperbolicity test come with known spectra. Non-trivial: a fixed point exists.',
    assumptions=['cases within 1e-7 of a stability boundary are not judged',
                 'parametric harmonic pairs for which the known finding decides are not judged',
                 'Jacobians may have the signs of their off-diagonal elements reversed, as in the '
                 'known finding'])


def setup():
    global S, T, Q3, np, stab, g
    import numpy as np
    import aesolver.stability_checker as S
    import aesolver.stability_checker.three_mode as T
    import aesolver.stability_checker.three_mode.stab_checker_quadratic_three_sum as Q3
    from vplib import stab
    from vplib import gen as g


chk.setup = setup


def rates(st):
    from vplib import gen
    mag = gen.logfloat(st, 0.02, 50.0)
    return {
        'mag': st.tuples(mag, mag, mag), 'scale': st.sampled_from([1.0, 1e-7, 1e3]),
        'q': st.one_of(gen.floats(st, -6.0, 6.0).filter(lambda x: abs(x) > 1e-6),
                       gen.logfloat(st, 1e-3, 1e3, signed=True))}


def triad_strategy(st):
    return st.fixed_dictionaries({
        **rates(st), 'near': st.booleans(),
        'qs': st.lists(st.floats(-5, 5).filter(lambda x: abs(x) > 1e-6), max_size=4)})


@chk.prop('three modes', triad_strategy, quick=1500, thorough=20000, shards=4)
def three(case, ctx):
    """Sum of rates negative and quartic criterion: all eigenvalues have negative real parts."""
    a, b, c = case['mag']
    if case['near']:
        a = a / (a + b + c) * (b + c)      # parent driven less than the children are damped
    gam = np.array([a, -b, -c]) * case['scale']
    for q in [case['q']] + case['qs']:
        exp = stab.triad(gam, q)
        if exp is None or abs(gam.sum()) < 1e-6 * np.abs(gam).sum():
            ctx.label('near boundary')
            continue
        gss = S.gss(gam)
        assert bool(gss) == (gam.sum() < 0), f'gss({gam}) = {gss}'
        got = bool(gss and S.check_van_beeck_conditions(gam, q))
        assert got == exp, f'gammas {gam.tolist()}, q {q}: criterion {got}, eigenvalues {exp}'
        same = bool(gss and Q3.check_additional_condition_equivalent(gam, q))
        assert same == exp, f'gammas {gam.tolist()}, q {q}: equivalent criterion {same}, ' \
            f'eigenvalues {exp}'
        orig, ratio = stab.original_quartic(gam, q)
        if orig is not None:
            o = bool(Q3.check_original_dziembowski_conditions(gam, q))
            assert o == orig, f'gammas {gam.tolist()}, q {q}: original criterion {o}, not {orig}'
        if ratio is not None:
            g.close(Q3.ratio_coefficients_q4_dziembowski(gam), ratio, 1e-7, 0.0,
                    'ratio of the coefficients of q^4')
        ctx.label(f'stable={exp}')
        ctx.nontrivial()
    if case['qs']:
        arr = S.check_van_beeck_conditions(gam, np.array(case['qs']))
        one = [bool(S.check_van_beeck_conditions(gam, q)) for q in case['qs']]
        assert np.array_equal(np.asarray(arr, dtype=bool), one), f'array of q: {arr}, one by one {one}'
        for f in (Q3.check_additional_condition_equivalent,
                  Q3.check_original_dziembowski_conditions):
            one = [bool(f(gam, q)) for q in case['qs']]
            arr = f(gam, np.array(case['qs']))
            assert np.array_equal(np.asarray(arr, dtype=bool), one), f'{f.__name__}: {arr}, {one}'


def gss_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'v': st.lists(gen.floats(st, -5, 5), min_size=1, max_size=4),
        'kind': st.sampled_from(['array', 'list', 'float'])})


@chk.prop('sum of rates', gss_strategy, quick=2000, thorough=8000, shards=1)
def sums(case, ctx):
    """The sum of rates decides, whether given as array, list or number."""
    tot = math.fsum(case['v'])
    if abs(tot) < 1e-9:
        tot = sum(case['v'])
        ctx.label('about zero')
        if tot != 0.0:
            return
    arg = {'array': np.array(case['v']), 'list': list(case['v']), 'float': tot}[case['kind']]
    assert bool(S.gss(arg)) == (tot < 0.0), f'gss({arg!r}) = {S.gss(arg)}'
    ctx.nontrivial()


def pair_strategy(st):
    return st.fixed_dictionaries({**rates(st), 'direct': st.booleans(),
                                  'strict': st.just(False)})


@chk.prop('harmonic pairs', pair_strategy, quick=2500, thorough=40000, shards=3)
def pairs(case, ctx):
    """The criteria of Dziembowski (1982) for two modes agree with the eigenvalues."""
    a, b, _ = case['mag']
    sg = -1 if case['direct'] else 1
    gam = np.array([a, -b, -b]) * case['scale'] * sg
    q = case['q']
    if not case['strict'] and stab.in_finding(gam[0], gam[1], q):
        ctx.label('known finding')
        return
    exp = stab.harmonic(gam[0], gam[1], q)
    if exp is None:
        ctx.label('near boundary')
        return
    if case['direct']:
        got = bool(S.check_dziembowski_direct(gam))
    else:
        got = bool(S.check_dziembowski_parametric(gam, q))
    assert got == exp, f'{"direct" if case["direct"] else "parametric"} pair, gammas ' \
        f'{gam.tolist()}, q {q}: criterion {got}, eigenvalues {exp}'
    ctx.label(f'direct={case["direct"]} stable={exp}')
    ctx.nontrivial()


def jac_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        **rates(st), 'w': st.tuples(*[gen.logfloat(st, 0.1, 10.0)] * 3),
        'eta': gen.logfloat(st, 1e-3, 1e3), 'as_list': st.booleans(), 'strict': st.just(False)})


@chk.prop('jacobian', jac_strategy, quick=3000, thorough=40000, shards=3)
def jacobian(case, ctx):
    """The Jacobian is that of the four real amplitude equations in their fixed point."""
    a, b, c = case['mag']
    gam = np.array([a, -b, -c]) * case['scale']
    w = np.array(case['w']) * case['scale'] * 1e3
    q, eta = case['q'], case['eta']
    if abs(gam.sum()) < 1e-6 * np.abs(gam).sum():
        return
    qf = w / gam
    amp = 0.5 * np.sqrt(1 + q * q) / eta * np.sqrt(
        np.array([1 / (qf[1] * qf[2]), -1 / (qf[0] * qf[2]), -1 / (qf[0] * qf[1])]))
    M = np.array(stab.jac_triad([float(x) for x in gam], q))
    sc = np.append(amp, 1.0)
    true = M * sc[:, None] / sc[None, :]
    got = S.hyper_jac(gam, w, q, [eta] if case['as_list'] else eta)
    other = 2.0 * np.diag(np.diag(true)) - true
    wts = sc[:, None] / sc[None, :]                     # compare in relative amplitudes
    err = [np.max(np.abs(got - x) / wts) / np.abs(M).max() for x in (true, other)]
    if case['strict']:
        err = err[:1]
    assert min(err) < 1e-9, f'gammas {gam.tolist()}, omegas {w.tolist()}, q {q}, eta {eta}: ' \
        f'got\n{got}\nof the equations\n{true}'
    ctx.nontrivial()


def hyper_strategy(st):
    ev = st.integers(-5, 5)
    return st.fixed_dictionaries({
        'ev': st.lists(ev, min_size=1, max_size=4), 'rot': st.sampled_from([0, 0, 1, 2]),
        'up': st.booleans(), 'bad': st.sampled_from([None, None, None, 'nan', 'inf']),
        'seed': st.integers(0, 2**32 - 1), 'dense': st.booleans()})


@chk.prop('hyperbolicity', hyper_strategy, quick=4000, thorough=20000, shards=2)
def hyper(case, ctx):
    """A fixed point is hyperbolic unless an eigenvalue has no real part (or values are missing)."""
    r = g.rng(case['seed'])
    ev = [float(x) for x in case['ev']]
    n = len(ev)
    if case['dense'] and min(map(abs, ev)) > 0:
        # similarity transform of separated eigenvalues: real parts stay away from zero
        P = r.uniform(-1, 1, (n, n)) + 3.0 * np.eye(n)
        M = P @ np.diag(ev) @ np.linalg.inv(P)
        exp = True
        if np.linalg.cond(P) > 1e3:
            return
        kind = 'dense'
    else:
        M = np.diag(ev)
        if case['up']:
            M = M + np.triu(r.uniform(-1, 1, (n, n)), 1)
        exp = 0.0 not in ev
        kind = 'triangular'
    if case['rot'] and kind == 'triangular':
        b = r.uniform(0.5, 2.0)
        d = 0.0 if case['rot'] == 1 else float(r.choice([-1, 1]))
        full = np.zeros((n + 2, n + 2))
        full[:n, :n] = M
        full[n:, n:] = [[d, b], [-b, d]]
        M = full
        exp = exp and d != 0.0
        kind += ' with oscillation'
    if case['bad']:
        i, j = r.integers(0, len(M), 2)
        M = M.astype(float)
        M[i, j] = math.nan if case['bad'] == 'nan' else math.inf
        exp = False
        kind = case['bad']
    got = S.check_hyper(M)
    assert bool(got) == exp, f'{M.tolist()}: hyperbolic={got}, not {exp}'
    ctx.label(f'{kind} hyperbolic={exp}')
    ctx.nontrivial()


@chk.prop('missing values', jac_strategy, quick=800, thorough=5000, shards=1)
def missing(case, ctx):
    """Without one of the rates, frequencies, detuning or coupling nothing is called hyperbolic."""
    a, b, c = case['mag']
    gam = np.array([a, -b, -c]) * case['scale']
    w = np.array(case['w']) * case['scale'] * 1e3
    for bad in ('gam', 'w', 'q', 'eta'):
        args = {'gam': gam.copy(), 'w': w.copy(), 'q': case['q'], 'eta': case['eta']}
        if bad in ('gam', 'w'):
            args[bad][1] = math.nan
        else:
            args[bad] = math.nan
        assert not S.check_hyper(S.hyper_jac(*args.values())), f'missing {bad}: hyperbolic'
    ctx.nontrivial()


if __name__ == '__main__':
    sys.exit(chk.main())
