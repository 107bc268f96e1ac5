"""C13: which triads are let through: selection rules and linear stability."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C13', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv'),
    rule='Sets of modes (degree, azimuthal order, frequency, driving rate), triads of them in any '
         'order and with repetitions, and conjugations are generated. Non-trivial: at least one '
         'rule holds and a mode is not axisymmetric, or the triad is parametric or direct.',
    assumptions=['cases within 1e-7 of a stability boundary are not judged'])


def setup():
    global PQ, P3, FH, np, stab, g, check_direct, check_driven, check_parametric
    import numpy as np
    from aesolver.frequency_handling import FH
    from aesolver.pre_checks import (PreCheckQuadratic as PQ, PreThreeQuad as P3,
                                    check_direct, check_driven, check_parametric)
    from vplib import stab
    from vplib import gen as g


chk.setup = setup


def mode_st(st):
    # mostly low orders, so that many triads fulfil the rules
    orders = st.sampled_from([4, 4, 4, 4, 30, 300])
    return orders.flatmap(lambda top: st.integers(-top, top).flatmap(
        lambda m: st.integers(0, top).map(lambda k: [abs(m) + k, m])))


def generic_strategy(st):
    triad = st.tuples(*[st.integers(0, 50)] * 3)
    return st.fixed_dictionaries({
        'modes': st.lists(mode_st(st), min_size=3, max_size=7),
        'triads': st.one_of(st.none(), st.lists(triad, min_size=1, max_size=4)),
        'fix': st.lists(st.booleans(), min_size=4, max_size=4),
        'conj': st.one_of(st.none(), st.just('flag'),
                          st.lists(st.tuples(*[st.booleans()] * 3), min_size=4, max_size=4)),
        'all': st.booleans(), 'numpy': st.booleans()})


@chk.prop('selection rules', generic_strategy, quick=9000, thorough=60000, shards=4)
def selection(case, ctx):
    """sum of (conjugated) m is zero and sum of l - |m| is even, for each triad."""
    modes = [list(m) for m in case['modes']]
    n = len(modes)
    triads = None if case['triads'] is None else \
        [tuple(t % n + 1 for t in tr) for tr in case['triads']]
    used = triads or [(1, 2, 3)]
    conj = case['conj']
    if conj == 'flag':
        conj, conjs = [True], [(True, False, False)] * len(used)
    elif conj is None:
        conjs = [(True, False, False)] * len(used)
    else:
        conj = conjs = [tuple(c) for c in conj[:len(used)]]
    # steer towards triads that satisfy the azimuthal rule
    for fix, tr, cj in zip(case['fix'], used, conjs):
        if fix and len({*tr}) == 3:
            sg = [-1 if c else 1 for c in cj]
            i, j, k = (t - 1 for t in tr)
            m = -(sg[1] * modes[j][1] + sg[2] * modes[k][1]) * sg[0]
            modes[i] = [abs(m) + modes[i][0] - abs(modes[i][1]), m]
    cast = (lambda v: np.int32(v)) if case['numpy'] else int
    gyre = [{'l': cast(l), 'm': cast(m)} for l, m in modes]
    obj = PQ(gyre, triads=triads, conjugation=conj, all_fulfilled=case['all'])
    exp, some = [], False
    for tr, cj in zip(used, conjs):
        lm = [modes[t - 1] for t in tr]
        az = sum(-m if c else m for c, (_, m) in zip(cj, lm)) == 0
        mer = sum(l - abs(m) for l, m in lm) % 2 == 0
        exp.append(az and mer)
        some |= (az or mer) and any(m for _, m in lm)
        ctx.label(f'az={az} mer={mer}')
    got = obj.generic_check()
    want = all(exp) if case['all'] else exp
    assert got == want, f'modes {modes}, triads {used}, conjugations {conjs}: {got}, not {want}'
    assert [list(map(int, x)) for x in obj.l_list] == [[modes[t - 1][0] for t in tr] for tr in used]
    assert [list(map(int, x)) for x in obj.m_list] == [[modes[t - 1][1] for t in tr] for tr in used]
    assert [list(map(int, x)) for x in obj.k_list] == \
        [[modes[t - 1][0] - abs(modes[t - 1][1]) for t in tr] for tr in used], \
        f'meridional orders {obj.k_list} of triads {used} of {modes}'
    ctx.nontrivial(some)


def full_strategy(st):
    from vplib import gen
    mag = gen.logfloat(st, 0.05, 20.0)
    return st.fixed_dictionaries({
        'lm': st.lists(mode_st(st), min_size=3, max_size=3), 'fix': st.sampled_from([1, 1, 1, 0]),
        'even': st.sampled_from([1, 1, 1, 0]),
        'signs': st.sampled_from(['+--', '+--', '+--', '-++', '-++', '+++', '---', '++-', '+-+',
                                  '-+-']),
        'mag': st.tuples(mag, mag, mag), 'equal': st.booleans(),
        'q': st.one_of(gen.floats(st, -6.0, 6.0), gen.logfloat(st, 1e-3, 1e3, signed=True)),
        'f': st.tuples(gen.floats(st, 0.5, 3.0), gen.floats(st, 0.5, 3.0)),
        'harm': st.booleans(), 'unit': st.sampled_from(['HZ', 'CYC_PER_DAY', 'RAD_PER_SEC'])})


@chk.prop('stability', full_strategy, quick=7000, thorough=50000, shards=4)
def stability(case, ctx):
    """A triad passes when both rules hold and its fixed point is linearly stable."""
    lm = [list(x) for x in case['lm']]
    if case['fix']:
        m = lm[1][1] + lm[2][1]
        lm[0] = [abs(m) + lm[0][0] - abs(lm[0][1]), m]
    if case['even'] and sum(l - abs(m) for l, m in lm) % 2:
        lm[0][0] += 1
    gam = 1e-7 * np.array([x if s == '+' else -x for x, s in zip(case['mag'], case['signs'])])
    f2, f3 = (1e-5 * x for x in case['f'])
    if case['harm'] and case['equal']:
        gam[2], f3 = gam[1], f2
        lm[2] = list(lm[1])
        if case['fix']:
            lm[0] = [abs(2 * lm[1][1]) + lm[0][0] - abs(lm[0][1]), 2 * lm[1][1]]
            lm[0][0] += sum(l - abs(m) for l, m in lm) % 2
    f1 = f2 + f3 + case['q'] * gam.sum()
    freqs = [f1, f2, f3]
    ad = [{'freq': np.array([complex(f)]), 'm': m, 'l': l, 'freq_units': b'HZ',
           'freq_frame': b'COROT', 'G': 6.67e-8, 'M_star': 1e33, 'R_star': 1e11,
           'Omega_rot_dim': np.array([1e-6])} for f, (l, m) in zip(freqs, lm)]
    nad = [{**a, 'freq': np.array([complex(f, x)])} for a, f, x in zip(ad, freqs, gam)]
    fh = FH(*ad, my_freq_units=case['unit'])
    fh.set_mode_nonadiabatic_info(*nad)
    q = (f1 - f2 - f3) / gam.sum()
    harm = case['harm']
    az = lm[0][1] == lm[1][1] + lm[2][1]
    mer = sum(l - abs(m) for l, m in lm) % 2 == 0
    if harm:
        if not np.isclose(gam[1], gam[2], rtol=1e-12):
            gam2 = None
        st = stab.harmonic(gam[0], gam[1], q) if gam[1] == gam[2] else None
        if gam[1] != gam[2]:
            ctx.label('harmonic with unequal damping: not judged')
            return
    else:
        st = stab.triad(gam, q)
    if st is None or abs(gam.sum()) < 1e-4 * np.abs(gam).sum() or \
            (harm and stab.in_finding(gam[0], gam[1], q)):
        ctx.label('not judged')
        return
    got = bool(P3(ad, fh, triads=[(1, 2, 3)], conjugation=[(True, False, False)],
                  two_mode_harmonic=harm).check())
    exp = az and mer and st
    assert got == exp, f'gammas {gam.tolist()}, q {q}, (l, m) {lm}, harmonic {harm}: passes={got},' \
        f' azimuthal rule {az}, meridional rule {mer}, stable {st}'
    ctx.label(f'{"harmonic" if harm else "triad"} {case["signs"]} stable={st}')
    ctx.nontrivial(case['signs'] in ('+--', '-++'))


def scenario_strategy(st):
    from vplib import gen
    rate = st.one_of(st.just(0.0), gen.logfloat(st, 1e-12, 1e3, signed=True),
                     gen.logfloat(st, 1e-200, 1e100, signed=True))
    return st.fixed_dictionaries({
        'rates': st.tuples(rate, rate, rate), 'flip': st.sampled_from([None, '+--', '-++', '+++',
                                                                       '---']),
        'zero': st.sampled_from([None, None, 0, 1, 2])})


@chk.prop('scenarios', scenario_strategy, quick=3000, thorough=20000, shards=2)
def scenarios(case, ctx):
    """A stored triad counts as parametric, direct or driven by the signs of its driving rates."""
    rates = np.array(case['rates'])
    if case['flip']:
        rates = np.array([abs(x) if s == '+' else -abs(x) for x, s in zip(rates, case['flip'])])
    if case['zero'] is not None:
        rates[case['zero']] = 0.0
    info = {'linear driving rates': rates.copy(), 'linear damping rates': -rates}
    signs = ''.join('+' if x > 0 else '-' if x < 0 else '0' for x in rates)
    for fn, want in ((check_parametric, '+--'), (check_direct, '-++'), (check_driven, '+++')):
        got = fn(info)
        assert bool(got) == (signs == want), f'{fn.__name__} for rates {rates.tolist()}: {got}'
    assert np.array_equal(info['linear driving rates'], rates), 'the rates were changed'
    ctx.label(signs)
    ctx.nontrivial(signs in ('+--', '-++', '+++') or '0' in signs)


if __name__ == '__main__':
    sys.exit(chk.main())
