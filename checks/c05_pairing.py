"""C05: pairing functions are bijections."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C05', needs=(),
    rule='Pairs of integers at or above a lower bound (both orders, equal members, up to 3e4 '
         'above the bound) as tuples, lists or arrays, and paired integers. Non-trivial: the '
         'members differ or the lower bound is not zero.',
    assumptions=['paired integers stay below 2**52, the documented functions use double '
                 'precision square roots'])


def setup():
    global np, FUN
    import numpy as np
    import pairing_functions as pf
    FUN = {'cantor': (pf.cantor_pair, pf.invert_cantor_pair, 0),
           'symmetric': (pf.symmetric_pair, pf.invert_symmetric_pair, 1),
           'xie': (pf.xie_symmetric_pair, pf.invert_xie_symmetric_pair, 1)}


chk.setup = setup
NAMES = ['cantor', 'symmetric', 'xie']


def pair_strategy(st):
    off = st.one_of(st.integers(0, 6), st.integers(0, 200), st.integers(0, 30000))
    return st.tuples(off, off, st.booleans()).flatmap(lambda t: st.fixed_dictionaries({
        'a': st.just(t[0]), 'b': st.one_of(st.just(t[1]), st.just(t[0]), st.just(t[0] + 1)),
        'lo': st.one_of(st.just(0), st.integers(-300, 300)),
        'kind': st.sampled_from(['tuple', 'array', 'list'] if t[2] else ['tuple', 'array']),
        'fun': st.sampled_from(NAMES)}))


def mk(pair, kind):
    return np.array(pair) if kind == 'array' else list(pair) if kind == 'list' else tuple(pair)


def as_pair(p):
    p = [int(x) for x in p]
    assert len(p) == 2
    return tuple(p)


@chk.prop('roundtrip', pair_strategy, quick=16000, thorough=60000, shards=3)
def roundtrip(case, ctx):
    pair_f, inv_f, sym = FUN[case['fun']]
    lo = case['lo']
    pair = (case['a'] + lo, case['b'] + lo)
    num = pair_f(mk(pair, case['kind']), lo)
    assert int(num) == num and num >= 0, f'{pair} maps onto {num!r}'
    back = as_pair(inv_f(int(num), lo))
    if sym:
        assert sorted(back) == sorted(pair), f'{pair} -> {num} -> {back} (lower bound {lo})'
        swapped = pair_f(mk(pair[::-1], case['kind']), lo)
        assert swapped == num, f'{pair} -> {num} but swapped -> {swapped}'
    else:
        assert back == pair, f'{pair} -> {num} -> {back} (lower bound {lo})'
    # the lower bound only shifts the members
    assert pair_f(mk((case['a'], case['b']), case['kind']), 0) == num, 'depends on the bound'
    ctx.label(case['fun'] + ('/equal' if pair[0] == pair[1] else ''))
    ctx.nontrivial(pair[0] != pair[1] or lo != 0)


def number_strategy(st):
    tri = st.integers(1, 20000).map(lambda b: b * (b + 1) // 2)
    sq = st.integers(1, 20000).map(lambda b: b * b)
    base = st.one_of(tri, sq, st.integers(1, 400), st.integers(1, 4 * 10**8))
    return st.fixed_dictionaries({
        'num': st.tuples(base, st.integers(-2, 2)).map(lambda t: max(1, t[0] + t[1])),
        'lo': st.integers(-50, 50), 'fun': st.sampled_from(NAMES)})


@chk.prop('onto', number_strategy, quick=16000, thorough=60000, shards=2)
def onto(case, ctx):
    """Every integer is the image of exactly one pair within the bounds."""
    pair_f, inv_f, sym = FUN[case['fun']]
    num = case['num']
    back = as_pair(inv_f(num, case['lo']))
    assert min(back) >= case['lo'], f'{num} -> {back}: below the bound {case["lo"]}'
    assert pair_f(back, case['lo']) == num, f'{num} -> {back} -> {pair_f(back, case["lo"])}'
    ctx.label(case['fun'])
    ctx.nontrivial()


if __name__ == '__main__':
    sys.exit(chk.main())
