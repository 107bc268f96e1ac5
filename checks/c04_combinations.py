"""C04: enumeration of combinations and of mode triads."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C04', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv'),
    rule='Operands (ranges, lists in any order, arrays, sets; ints of either sign, floats; '
         'disjoint, overlapping, nested, equal, empty) and radial-order ranges are generated. '
         'Non-trivial: at least one pair results and the operands have two or more elements.',
    assumptions=['operands of symmetric products and single-set combinations hold distinct '
                 'elements (they are documented as sets)'])


def setup():
    global np, CC, SS, SP, InputGen
    import numpy as np
    from py_combinations import CartesianCombos as CC
    from py_combinations import SingleSetCombos as SS
    from py_combinations import SymmetricProductCombos as SP
    from aesolver.mode_input_generator import InputGen


chk.setup = setup


def operand(st):
    ints = st.one_of(st.integers(-12, 12), st.integers(0, 80), st.integers(-2000, 2000))
    return st.one_of(
        st.tuples(st.integers(-60, 120), st.integers(0, 24)).map(
            lambda t: {'kind': 'range', 'v': list(range(t[0], t[0] + t[1]))}),
        st.fixed_dictionaries({'kind': st.sampled_from(['list', 'set', 'array', 'tuple']),
                               'v': st.lists(ints, max_size=10, unique=True)}),
        st.fixed_dictionaries({'kind': st.sampled_from(['list', 'array']),
                               'v': st.lists(st.integers(-40, 40).map(lambda i: i / 4.0),
                                             max_size=8, unique=True)}))


def pair_strategy(st):
    def derive(a):
        # overlapping / nested / equal second operands are frequent
        v = a['v']
        opts = [operand(st)]
        if v:
            opts.append(st.fixed_dictionaries({
                'kind': st.sampled_from(['list', 'array', 'set']),
                'v': st.lists(st.sampled_from(v), min_size=1, max_size=8, unique=True)}))
            opts.append(st.permutations(v).map(lambda p: {'kind': 'list', 'v': list(p)}))
            if all(isinstance(x, int) for x in v):
                opts.append(st.tuples(st.integers(-6, 20), st.integers(1, 25)).map(
                    lambda t: {'kind': 'range', 'v': list(range(v[0] + t[0], v[0] + t[0] + t[1]))}))
        return st.fixed_dictionaries({'A': st.just(a), 'B': st.one_of(opts),
                                      'diag': st.booleans(), 'swap': st.booleans()})
    return operand(st).flatmap(derive)


def make(o):
    v = o['v']
    k = o['kind']
    if k == 'range':
        return range(v[0], v[-1] + 1) if v else range(0)
    if k == 'set':
        return set(v)
    if k == 'array':
        return np.array(v)
    if k == 'tuple':
        return tuple(v)
    return list(v)


def plain(pairs):
    out = []
    for p in pairs:
        assert len(p) == 2, f'not a pair: {p!r}'
        out.append((float(p[0]), float(p[1])))
    return out


def order_dependent(A, B):
    """Pairs whose order differs between the operands and the sets made of them: for these the
    listed finding applies (see KNOWN_FINDINGS.txt)."""
    sa, sb = set(A), set(B)
    orders = [list(A), list(B), list(sa), list(sb)]
    A, B = orders[:2]
    orders += [list(set(A)), list(set(B)), list(set(A) | set(B)), list(set(B) | set(A))]
    orders += [list(set(A) - set(B)), list(set(B) - set(A))]
    for u in (sa | sb, sb | sa, sa.union(B), set(A + B), set(B + A)):
        orders.append(list(u))
    for x, y in ((sa, sb), (sb, sa)):
        orders += [list(x - y), list(x.difference(y)), list({e for e in x if e not in y})]
    pos = [{float(e): i for i, e in enumerate(o)} for o in orders]
    out = set()
    elements = sorted({float(e) for e in A + B})
    for i, x in enumerate(elements):
        for y in elements[:i]:
            if len({p[x] < p[y] for p in pos if x in p and y in p}) == 2:
                out.add((y, x))
    return out


def judge_pairs(got, exp, A, B, strict=False):
    """Exactly the expected pairs, each once; except for pairs hit by the listed finding, which
    may only occur in addition and only when they are pairs of elements of one operand."""
    missing = exp - set(got)
    assert not missing, f'missing pairs {sorted(missing)[:4]}'
    count = {}
    for p in got:
        count[p] = count.get(p, 0) + 1
    extra = {p for p in count if p not in exp or count[p] > 1}
    if extra and not strict:
        fa, fb = {float(e) for e in A}, {float(e) for e in B}
        listed = {p for p in order_dependent(A, B) if set(p) <= fa or set(p) <= fb}
        bad = {p for p in extra if p not in listed or count[p] > 2}
    else:
        bad = extra
    assert not bad, f'spurious or repeated pairs {sorted(bad)[:4]} (operands {A}, {B})'
    return len(extra)


@chk.prop('symmetric_product', pair_strategy, quick=6000, thorough=30000, shards=3)
def symmetric_product(case, ctx):
    a, b = case['A'], case['B']
    if case['swap']:
        a, b = b, a
    obj = SP(make(a), make(b), include_diagonal=case['diag'])
    got = [tuple(sorted(p)) for p in plain(obj.l)]
    exp = set()
    for x in a['v']:
        for y in b['v']:
            if x != y or case['diag']:
                exp.add(tuple(sorted((float(x), float(y)))))
    extra = judge_pairs(got, exp, make(a), make(b), case.get('strict'))
    if extra:
        ctx.label('excluded: known finding (set iteration order)')
    assert obj.c == len(exp), f'cardinality {obj.c} for {len(exp)} pairs'
    av, bv = set(a['v']), set(b['v'])
    rel = 'disjoint' if not av & bv else 'equal' if av == bv else \
        'nested' if av <= bv or bv <= av else 'overlap'
    ctx.label(rel)
    ctx.nontrivial(len(exp) > 0 and len(av) > 1 and len(bv) > 1)


@chk.prop('cartesian', pair_strategy, quick=2000, thorough=10000)
def cartesian(case, ctx):
    a, b = case['A'], case['B']
    obj = CC(make(a), make(b))
    got = sorted(plain(obj.l))
    exp = sorted((float(x), float(y)) for x in a['v'] for y in b['v'])
    assert got == exp, f'{got[:5]} != {exp[:5]}'
    assert obj.c == len(exp), f'cardinality {obj.c} for {len(exp)} pairs'
    ctx.nontrivial(len(a['v']) > 1 and len(b['v']) > 1)


@chk.prop('single_set', operand, quick=2000, thorough=10000)
def single_set(case, ctx):
    obj = SS(make(case))
    got = sorted(tuple(sorted(p)) for p in plain(obj.l))
    v = [float(x) for x in case['v']]
    exp = sorted(tuple(sorted((v[i], v[j]))) for i in range(len(v)) for j in range(i))
    assert got == exp, f'{got[:5]} != {exp[:5]}'
    assert obj.c == len(exp), f'cardinality {obj.c} for {len(exp)} pairs'
    ctx.nontrivial(len(exp) > 1)


def triad_strategy(st):
    rng = st.tuples(st.one_of(st.integers(1, 60), st.integers(-60, 60), st.integers(-8, 2)),
                    st.integers(0, 18)).map(lambda t: [t[0], t[0] + t[1]])

    def second(d1):
        near = st.tuples(st.integers(-8, 20), st.integers(0, 18)).map(
            lambda t: [d1[0] + t[0], d1[0] + t[0] + t[1]])
        return st.one_of(st.none(), near, rng)
    return rng.flatmap(lambda d1: st.fixed_dictionaries({
        'driven': st.tuples(st.one_of(st.integers(1, 40), st.integers(-40, 5)), st.integers(0, 6)).map(
            lambda t: [t[0], t[0] + t[1]]),
        'd1': st.just(d1), 'd2': second(d1),
        'l': st.lists(st.integers(0, 3), min_size=3, max_size=3),
        'm': st.lists(st.integers(-1, 1), min_size=3, max_size=3), 'same': st.booleans()}))


@chk.prop('mode_triads', triad_strategy, quick=1200, thorough=6000)
def mode_triads(case, ctx):
    """Every triad in the requested radial-order ranges is enumerated exactly once."""
    d, d1, d2 = case['driven'], case['d1'], case['d2']
    kw = {} if d2 is None else {'damped_n_low2': d2[0], 'damped_n_high2': d2[1]}
    ls, ms = list(case['l']), list(case.get('m', case['l']))
    if case.get('same'):
        ls[2], ms[2] = ls[1], ms[1]
    distinct = ls[1] != ls[2] or ms[1] != ms[2]   # daughters with another geometry
    obj = InputGen(mode_l=ls, mode_m=ms, driven_n_low=d[0], driven_n_high=d[1],
                   damped_n_low1=d1[0], damped_n_high1=d1[1], **kw)
    r1 = range(d1[0], d1[1] + 1)
    if d2 is None:
        pairs = {(i, j) for i in r1 for j in r1 if i < j}
    elif distinct:
        pairs = {(i, j) for i in r1 for j in range(d2[0], d2[1] + 1)}
    else:
        pairs = {tuple(sorted((i, j))) for i in r1 for j in range(d2[0], d2[1] + 1)}
    exp = {(p, *q) for p in range(d[0], d[1] + 1) for q in pairs}
    combos = obj.combinations_radial_orders
    assert all(len(t) == 3 for t in combos)
    ordered = distinct and d2 is not None
    got = [(t[0], *(t[1:] if ordered else sorted(t[1:]))) for t in combos]
    assert {t[0] for t in got} == {t[0] for t in exp}, 'wrong parent radial orders'
    for parent in range(d[0], d[1] + 1):
        mine = [tuple(map(float, t[1:])) for t in got if t[0] == parent]
        if d2 is None:
            assert sorted(mine) == sorted((float(i), float(j)) for i, j in pairs), 'wrong triads'
        elif distinct:
            assert sorted(mine) == sorted((float(i), float(j)) for i, j in pairs), 'wrong triads'
        elif judge_pairs(mine, {(float(i), float(j)) for i, j in pairs}, r1,
                         range(d2[0], d2[1] + 1), case.get('strict')):
            ctx.label('excluded: known finding (set iteration order)')
    avg, wu = obj.average_radial_orders, obj.wu_difference_statistics
    assert len(avg) == len(wu) == len(combos), 'statistics do not cover all triads'
    for t, a, w in zip(combos, avg, wu):
        assert abs(a - sum(t) / 3.0) < 1e-12, f'average radial order {a} of {t}'
        assert w == t[0] - abs(t[1] - t[2]), f'difference statistic {w} of {t}'
    assert list(obj.mode_l) == ls and list(obj.mode_m) == ms
    ctx.label('one range' if d2 is None else 'two ranges')
    ctx.label('distinct daughters' if distinct else 'equal daughters')
    ctx.nontrivial(len(exp) > 1)


if __name__ == '__main__':
    sys.exit(chk.main())
