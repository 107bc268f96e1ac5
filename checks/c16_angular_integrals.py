"""C16: angular integrals of products of Hough functions, and the functions handed to them."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C16', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv'),
    rule='Products of 1 to 4 arrays on uniform, Chebyshev and irregular grids in mu, with azimuthal '
         'orders, conjugations and integration options. Non-trivial: the selection rule holds and '
         'the integral is not zero (integrals); rotation is not zero (functions).',
    assumptions=['grids ascend inside (-1, 1)',
                 'integrals below minus the blow-up factor are not judged (either rule is taken)'])


def setup():
    global HI, HFHandler, HF, np, g
    import numpy as np
    from aesolver.angular_integration.rotating_tar_angular import HFHandler, HI
    from hough_function import HF
    from vplib import gen as g


chk.setup = setup


def strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'n': st.one_of(st.integers(3, 12), st.integers(3, 250)), 'seed': gen.seeds(st),
        'grid': st.sampled_from(['uniform', 'hough', 'random', 'full']),
        'k': st.integers(1, 4), 'ms': st.tuples(*[st.integers(-3, 3)] * 3),
        'rule': st.sampled_from([True, True, False]),
        'check': st.sampled_from(['list', 'list', 'list', 'none', 'theta']),
        'conj': st.one_of(st.none(), st.booleans(), st.tuples(*[st.booleans()] * 3)),
        'div': st.booleans(), 'mul': st.booleans(), 'method': st.sampled_from(['trapz', 'simpson']),
        'cheby': st.sampled_from(['no', 'no', 'no', 'use', 'protect', 'protect']),
        'order': st.integers(1, 6), 'factor': gen.logfloat(st, 1e-3, 1e4),
        'scale': gen.logfloat(st, 1e-3, 1e3), 'threads': st.integers(1, 3),
        'parallel': st.booleans(), 'smooth': st.booleans()})


@chk.prop('integrals', strategy, quick=12000, thorough=80000, shards=5)
def integrals(case, ctx):
    """The integral is 2 pi times that over mu, or zero if the azimuthal orders do not cancel."""
    r = g.rng(case['seed'])
    n = case['n']
    if case['grid'] == 'uniform':
        mu = np.linspace(-0.97, 0.97, n)
    elif case['grid'] == 'full':
        mu = np.linspace(-1.0 + 1e-15, 1.0 - 1e-15, n)
    elif case['grid'] == 'hough':
        mu = -np.cos(np.pi * (np.arange(n) + 0.5) / n)
    else:
        mu = np.sort(r.uniform(-0.999, 0.999, n))
    fs = []
    for _ in range(case['k']):
        if case['smooth']:
            f = np.polynomial.Polynomial(r.normal(size=4))(mu) * (1.0 - mu**2)
        else:
            f = r.normal(size=n)
        fs.append(f * case['scale']**(1.0 / case['k']))

    class Obj:
        pass
    o = Obj()
    o._mu_values = mu
    names = [f'_f_{i}_mode_{i % 3 + 1}' for i in range(case['k'])]
    for nm, f in zip(names, fs):
        setattr(o, nm, f.copy())
    ms = list(case['ms'])
    cj = case['conj']
    sgn = [1, 1, 1]
    if cj is True:
        sgn = [-1, 1, 1]
    elif isinstance(cj, (tuple, list)):
        cj = tuple(cj)
        sgn = [-1 if c else 1 for c in cj]
    if case['rule']:                       # make the orders cancel
        ms[0] = -sgn[0] * (sgn[1] * ms[1] + sgn[2] * ms[2])
    holds = sum(s * m for s, m in zip(sgn, ms)) == 0
    kw = {}
    if case['check'] == 'list':
        kw = {'m_list_for_azimuthal_check': list(ms), 'conj': cj}
    elif case['check'] == 'theta':
        kw, holds = {'m_list_for_azimuthal_check': list(ms), 'conj': cj, 'only_theta': True}, True
    else:
        holds = True
    kw.update(div_by_sin=case['div'], mul_with_mu=case['mul'], nr_omp_threads=case['threads'],
              use_parallel=case['parallel'], num_integ_method=case['method'],
              use_cheby_integration=case['cheby'] == 'use',
              cheby_blow_up_protection=case['cheby'] == 'protect',
              cheby_order_multiplier=case['order'], cheby_blow_up_factor=case['factor'])
    y = np.prod(fs, axis=0) * (mu if case['mul'] else 1.0)
    s = np.sqrt(1.0 - mu**2)
    full = y / s if case['div'] else y
    regular = float(np.sum((full[1:] + full[:-1]) / 2.0 * np.diff(mu)))
    order = case['order'] * n
    x = np.cos(np.pi * (2.0 * np.arange(1, order + 1) - 1.0) / (2.0 * order))
    out = max(x[0] - mu[-1], mu[0] - x[-1])
    cheb = np.pi / order * np.interp(x, mu, y if case['div'] else y * s).sum()
    if case['cheby'] != 'no' and abs(out) < 1e-12 and holds:
        ctx.label('Chebyshev nodes at the end of the grid: not judged')
        return
    try:
        got = HI.quadratic_angular_integral(o, names, **kw)
    except SystemExit:
        assert case['cheby'] == 'use' and holds and out > 0, 'exited'
        ctx.label('Chebyshev quadrature outside of the grid')
        return
    for nm, f in zip(names, fs):
        assert np.array_equal(getattr(o, nm), f), 'the functions were changed'
    scale = 2 * np.pi * (np.abs(full) * np.gradient(mu)).sum() * 1e-11 + 1e-13
    if not holds:
        assert got == 0.0, f'orders {ms}, conjugation {cj}: integral {got} instead of zero'
        ctx.label('selection rule fails')
        return
    if case['cheby'] == 'no':
        want = [regular]
    elif case['cheby'] == 'use':
        assert out <= 0, 'no nodes outside of the grid were reported'
        want = [cheb]
    else:
        alt = cheb if out <= 0 else regular
        want = [alt] if regular > case['factor'] else [regular]
        if regular < -case['factor'] or abs(regular - case['factor']) < 1e-9 * case['factor']:
            want = [alt, regular]
    assert any(abs(got - 2 * np.pi * w) <= scale + 1e-10 * abs(2 * np.pi * w) for w in want), (
        f'{case["cheby"]}: integral {got}, expected {[2 * np.pi * w for w in want]}')
    ctx.label(f'{case["grid"]}/{case["cheby"]}')
    ctx.nontrivial(got != 0.0)


def bad_strategy(st):
    return st.fixed_dictionaries({
        'conj': st.one_of(st.lists(st.booleans(), min_size=0, max_size=5).map(tuple),
                          st.sampled_from(['True', 1.5, [True, False, False]]))})


@chk.prop('bad conjugation', bad_strategy, quick=100, thorough=400, shards=1)
def bad_conj(case, ctx):
    """A conjugation that is neither a flag nor three of them is refused."""
    cj = case['conj']

    class Obj:
        _mu_values = np.linspace(-0.9, 0.9, 5)
        _a = np.ones(5)
    if isinstance(cj, tuple) and len(cj) == 3:
        return
    try:
        got = HI.quadratic_angular_integral(Obj(), ['_a'], m_list_for_azimuthal_check=[2, 1, 1],
                                            conj=cj)
    except SystemExit:
        ctx.nontrivial(True)
        return
    raise AssertionError(f'conjugation {cj!r} was accepted: {got}')


# ---------------------------------------------------------------- functions
NAMES = {'hr': 'hr_range', 'ht': 'ht_range', 'hp': 'hp_range', 'theta_der_hr': 'hrp_range',
         'theta_der_ht': 'htp_range', 'theta_der_hp': 'hpp_range', 'theta_der2_hr': 'hrpp_range',
         'theta_phi': 'theta_phi_hough_tilde', 'phi_phi': 'phi_phi_hough_tilde',
         'mhr': 'hr_range_m', 'theta_der_hr_theta': 'hrp_range_theta',
         'theta_der2_hr_theta': 'hrpp_range_theta', 'theta_der_ht_theta': 'htp_range_theta',
         'theta_der_hp_theta': 'hpp_range_theta'}


def hough_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'm': st.integers(-3, 3), 'k': st.integers(0, 3), 'nu': gen.floats(st, -0.9, 0.9),
        'n': st.integers(30, 60), 'def': st.sampled_from([None, 'prat', 'lee_saio_equivalent',
                                                          'townsend']),
        'lmbd': st.sampled_from(['no', 'scalar', 'list', 'array']), 'adjust': st.booleans(),
        'off': gen.floats(st, -0.3, 0.3), 'cplx': st.booleans()})


@chk.prop('functions', hough_strategy, quick=500, thorough=4000, shards=3)
def functions(case, ctx):
    """Each name stands for its Hough function (derivative) on the grid of both hemispheres."""
    m, l = case['m'], abs(case['m']) + case['k']
    if l == 0:
        return
    n = 2 * case['n']
    kw = {'nu': case['nu'], 'l': l, 'm': m, 'npts': n}
    if case['def']:
        kw['definition'] = case['def']
    lm = l * (l + 1.0) * (1.0 + case['off']) * (1.0 if case['adjust'] else -1.0)
    extra = {}
    if case['lmbd'] != 'no':
        extra['lmbd_adjust'] = case['adjust']
        if case['cplx'] and case['lmbd'] == 'scalar':
            lm = complex(lm)
        extra['lmbd'] = {'scalar': lm, 'list': [lm, -5.0], 'array': np.array([lm, 77.0])}[
            case['lmbd']]
    out, mu, th = HFHandler.get_relevant_hough_output(**kw, **extra)
    if 'lmbd' in extra:
        extra['lmbd'] = lm
    ref = HF(**{'definition': 'lee_saio_equivalent', **kw, **extra})
    ref()
    assert set(out) == set(NAMES) == set(HFHandler.get_functional_names()), sorted(out)
    assert mu.shape == th.shape == (n,) and (np.diff(mu) > 0).all()
    g.close(np.cos(th), mu, rtol=0, atol=1e-12, msg='cos(theta)')
    g.close(mu, ref.mu_range, msg='mu')
    for nm, at in NAMES.items():
        g.close(out[nm], getattr(ref, at), rtol=1e-9, atol=1e-9, msg=nm)
    # the derivatives are those of the functions they are named after
    s = np.sqrt(1.0 - mu**2)
    g.close(out['mhr'], -float(m) * out['hr'], rtol=1e-12, atol=0, msg='m hr')
    for a in ('hr', 'ht', 'hp'):
        g.close(out[f'theta_der_{a}_theta'], -s * out[f'theta_der_{a}'], rtol=1e-9, atol=1e-9,
                msg=f'theta derivative of {a}')
        t = th[::-1]                           # equally spaced, ascending
        f = out[a][::-1]
        h = t[1] - t[0]
        fd = (8 * (f[3:-1] - f[1:-3]) - (f[4:] - f[:-4])) / (12 * h)
        got = out[f'theta_der_{a}_theta'][::-1][2:-2]
        inner = slice(n // 5, -n // 5)         # away from the singular poles
        ref_ = np.abs(fd[inner]).max() + np.abs(f).max()
        assert np.abs(fd - got)[inner].max() <= 2e-2 * ref_, (
            f'theta derivative of {a} deviates by {np.abs(fd - got)[inner].max():.2e} of {ref_:.2e}')
    ctx.label(case['lmbd'])
    ctx.nontrivial(case['nu'] != 0.0)


if __name__ == '__main__':
    sys.exit(chk.main())
