"""C27: the helpers that the tests of the repository compare and look up values with."""

import copy
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C27', needs=(),
    rule='Pairs of values (numbers, strings, None, functions, lists of them, arrays) of which one is '
         'a copy of the other, or has one edit; dictionaries and lists of them; lists for which '
         'types and lengths are asserted; enumerations of values and parameters. Non-trivial: the '
         'values are not the same, or a copy holds more than one value.',
    assumptions=['arrays of equal size are compared as NumPy broadcasts them (tests rely on it), so '
                 'a different shape of equal size is not judged, nor are arrays within lists'])


def setup():
    global np, pf, pc, json, pytest, g
    import json
    import numpy as np
    import pytest
    import pytest_util_classes as pc
    import pytest_util_functions as pf
    from vplib import gen as g


chk.setup = setup

NUM = ['int', 'float', 'complex', 'bool']
KINDS = NUM + ['str', 'none', 'bytes', 'fun', 'list', 'funs', 'array']
BODIES = ['x', 'x + {}', 'x * {}', '{} - x', 'x.real', 'x.imag', 'x[{}]', 'abs(x)', 'str(x)']


# ---------------------------------------------------------------- values
def value(st):
    whole = st.integers(-999, 999)
    frac = st.integers(1, 10**6).map(lambda i: i / 977) | st.integers(1, 10**6).map(lambda i: -i / 9770)
    text = st.text('abcxyz 0123', max_size=6)
    fun = st.tuples(st.sampled_from(BODIES), st.integers(2, 9))
    one = {'int': whole, 'float': frac, 'complex': st.tuples(frac, frac).map(list),
           'bool': st.booleans(), 'str': text, 'bytes': text, 'none': st.none(),
           'fun': fun.map(list)}
    part = st.sampled_from(['int', 'float', 'bool', 'str', 'none']).flatmap(
        lambda k: one[k].map(lambda v: [k, v]))
    one['list'] = st.lists(part, max_size=5)
    one['funs'] = st.lists(fun.map(list), min_size=1, max_size=4)
    one['array'] = st.tuples(st.sampled_from(['float64', 'int64', 'complex128', 'float32', 'bool']),
                             st.lists(whole, max_size=6), st.booleans()).map(list)
    return st.sampled_from(KINDS).flatmap(lambda k: one[k].map(lambda v: [k, v]))


def build(kv):
    k, v = kv
    if k == 'complex':
        return complex(*v)
    if k == 'bytes':
        return v.encode()
    if k == 'fun':
        return eval('lambda x: ' + v[0].format(v[1]))
    if k == 'list':
        return [build(x) for x in v]
    if k == 'funs':
        return [build(['fun', x]) for x in v]
    if k == 'array':
        a = np.array(v[1], dtype=v[0]) if v[0] != 'bool' else np.array(v[1], dtype=int) % 2 == 1
        return a.reshape(2, -1) if v[2] and a.size and a.size % 2 == 0 else a
    return v


def edited(kv, how, i):
    """Another value (None: this edit does not exist)."""
    k, v = kv
    if how == 'kind':       # another type, with the value as similar as possible
        if k == 'int':
            return ['float', float(v)]
        if k == 'float':
            return ['complex', [v, 0.0]]
        if k == 'bool':
            return ['int', int(v)]
        if k == 'none':
            return ['bool', False]
        if k == 'str':
            return ['bytes', v]
        if k == 'fun':
            return ['none', None]
        if k == 'array':
            return ['array', ['float32' if v[0] != 'float32' else 'float64', *v[1:]]]
        return ['none', None]
    if k in ('list', 'funs', 'array'):
        w = copy.deepcopy(v)
        seq = w[1] if k == 'array' else w
        if how == 'longer':
            seq.insert(i % (len(seq) + 1), 1 if k == 'array' else ['int', 1] if k == 'list'
                       else ['x', 2])
        elif not seq:
            return None
        elif how == 'shorter':
            del seq[i % len(seq)]
        else:
            j = i % len(seq)
            if k == 'array':
                seq[j] += 1
            else:
                new = edited(seq[j] if k == 'list' else ['fun', seq[j]], 'value', i)
                if new is None:
                    return None
                seq[j] = new if k == 'list' else new[1]
        return [k, w]
    if how != 'value' or k == 'none':
        return None
    if k == 'fun':
        others = [b for b in BODIES if b != v[0]]
        if '{}' in v[0] and i % 2:
            return ['fun', [v[0], v[1] + 1]]
        return ['fun', [others[i % len(others)], v[1]]]
    if k == 'bool':
        return [k, not v]
    if k in ('str', 'bytes'):
        return [k, v + 'q' if i % 2 or not v else v[:-1]]
    if k == 'complex':
        return [k, [v[0], -v[1]] if i % 2 else [v[0] * 1.5, v[1]]]
    if k == 'float':
        return [k, [v * 1.0001, -v, v + 1.0][i % 3]]
    return [k, [v + 1, -v - 1, v + 1000][i % 3]]


def as_bool(x, what):
    assert isinstance(x, (bool, int, np.bool_)), f'{what} is a {type(x).__name__}: {x!r}'
    return bool(x)


def pair_strategy(st):
    return st.fixed_dictionaries({
        'a': value(st), 'how': st.sampled_from(['same', 'near', 'kind', 'value', 'value', 'longer',
                                                'shorter', 'other']),
        'i': st.integers(0, 30), 'b': value(st)})


@chk.prop('values', pair_strategy, quick=6000, thorough=120000)
def values(case, ctx):
    """Two values are equal exactly if they are of one type and have equal contents."""
    a, how, same = case['a'], case['how'], False
    if how == 'same':
        b, same = copy.deepcopy(a), True
    elif how == 'near':
        b, same = copy.deepcopy(a), True
        if a[0] == 'float':
            b[1] *= 1.0 + 1e-13
    elif how == 'other':
        b = case['b']
        if b[0] == a[0] or {a[0], b[0]} & {'list', 'funs'} and 'array' in (a[0], b[0]) or \
                {a[0], b[0]} == {'list', 'funs'}:
            return
    else:
        b = edited(a, how, case['i'])
        if b is None:
            return
    x, y = build(a), build(b)
    for p, q, way in ((x, y, ''), (y, x, ', swapped')):
        got = as_bool(pf.value_comparison(p, q), f'comparison of {a} and {b}')
        assert got == same, f'{a} and {b} ({how}{way}): equal is {got}'
    ctx.label(f'{a[0]} {how}')
    ctx.nontrivial(not same or a[0] in ('list', 'funs', 'array') and len(a[1]) > 1)


# ---------------------------------------------------------------- elements
def elements_strategy(st):
    return st.fixed_dictionaries({
        'v': st.lists(value(st), min_size=1, max_size=5), 'i': st.integers(0, 30),
        'how': st.sampled_from(['same', 'edit', 'edit', 'more', 'fewer', 'key']),
        'seq': st.booleans(), 'enforce': st.booleans(), 'reorder': st.booleans()})


@chk.prop('elements', elements_strategy, quick=4000, thorough=80000)
def elements(case, ctx):
    """Dictionaries and lists are equal exactly if all of their elements are."""
    v, how, i = case['v'], case['how'], case['i']
    w = {f'k{j}': x for j, x in enumerate(copy.deepcopy(v))}
    j = i % len(v)
    if how == 'edit':
        new = edited(v[j], 'value', i) or edited(v[j], 'longer', i) or edited(v[j], 'kind', i)
        w[f'k{j}'] = new
    elif how == 'more':
        w['z'] = v[j]
    elif how == 'fewer':
        del w[f'k{j}']
    elif how == 'key' and not case['seq']:
        w['z'] = w.pop(f'k{j}')
    else:
        how = 'same'
    if case['reorder'] and not case['seq']:
        w = dict(reversed(w.items()))
    one, two = {f'k{j}': build(x) for j, x in enumerate(v)}, {k: build(x) for k, x in w.items()}
    if case['seq']:
        one, two = list(one.values()), list(two.values())
        got = as_bool(pf.compare_elements(one, two), 'comparison')
        assert got == (how == 'same'), f'lists {v} and {list(w.values())}: equal is {got}'
    else:
        # further keys of the second dictionary do not matter unless lengths do
        want = how == 'same' or how == 'more' and not case['enforce']
        got = as_bool(pf.compare_dicts(one, two, len_enforced=case['enforce']), 'comparison')
        assert got == want, f'{v} and {w} (lengths enforced: {case["enforce"]}): equal is {got}'
        got = as_bool(pf.compare_dicts(one, two), 'comparison')
        assert got == (how == 'same'), f'{v} and {w} by default: equal is {got}'
        got = as_bool(pf.compare_elements(one, two), 'comparison')
        assert got == (how in ('same', 'more')), f'elements {v} and {w}: equal is {got}'
    ctx.label(f'{"list" if case["seq"] else "dict"} {how}')
    ctx.nontrivial(how != 'same' or len(v) > 1)


# ---------------------------------------------------------------- assertions
TYPES = {'list': list, 'tuple': tuple, 'int': int, 'str': str, 'float': float}


def assert_strategy(st):
    el = st.one_of(st.integers(0, 9), st.text('ab', max_size=3), st.lists(st.integers(0, 3), max_size=3),
                   st.just(0.5))
    same = st.sampled_from([st.integers(0, 9), st.text('ab', min_size=2, max_size=2), st.just([1]),
                            st.just([]), st.lists(st.integers(0, 3), max_size=2)]).flatmap(
        lambda s: st.lists(s, max_size=4))
    return st.fixed_dictionaries({
        'v': st.lists(el, max_size=4) | same, 'tuple': st.booleans(),
        'top_type': st.sampled_from([None, 'list', 'tuple']),
        'top_length': st.none() | st.integers(0, 4),
        'element_type': st.sampled_from([None, None, 'list', 'int', 'str', 'float']),
        'element_length': st.none() | st.integers(0, 3)})


@chk.prop('assertions', assert_strategy, quick=4000, thorough=80000)
def assertions(case, ctx):
    """An assertion fails exactly if a type or length that is asked for differs."""
    v = tuple(case['v']) if case['tuple'] else list(case['v'])
    if case['element_length'] is not None and any(isinstance(x, (int, float)) for x in v):
        case = dict(case, element_length=None)
    top, el = TYPES.get(case['top_type']), TYPES.get(case['element_type'])
    n, m = case['top_length'], case['element_length']
    want = ((top is None or type(v) is top) and (n is None or len(v) == n)
            and (el is None or all(type(x) is el for x in v))
            and (m is None or all(len(x) == m for x in v)))
    try:
        pf.check_assertions(v, top_type=top, top_length=n, element_type=el, element_length=m)
        got = True
    except AssertionError:
        got = False
    assert got == want, f'{v!r} for {case}: accepted is {got}'
    ctx.label(f'accepted={got}')
    ctx.nontrivial(len(v) > 0)


# ---------------------------------------------------------------- enumerations
def enum_strategy(st):
    val = st.one_of(
        st.integers(-99, 99).map(lambda v: ['plain', v]),
        st.integers(1, 9999).map(lambda v: ['plain', v / 7]),
        st.text('gjkxz_', min_size=1, max_size=6).map(lambda v: ['plain', v]),
        st.lists(st.integers(-9, 9), max_size=4).map(lambda v: ['json', v]),
        st.lists(st.integers(-9, 9), max_size=4).map(lambda v: ['list', v]),
        st.lists(st.integers(-9, 9), min_size=1, max_size=4).map(lambda v: ['array', v]))
    return st.fixed_dictionaries({
        'v': st.dictionaries(st.text('abcdefg', min_size=1, max_size=4), val, min_size=1, max_size=5),
        'other': st.lists(st.integers(-9, 9), min_size=1, max_size=4),
        'dt': st.sampled_from(['complex128', 'int64', 'float32']), 'cap': st.booleans(),
        'new': st.sampled_from([1, 2.5, 'x', 'list', 'array']), 'i': st.integers(0, 30),
        'why': st.lists(st.none() | st.text('pqr ', max_size=5), min_size=1, max_size=5)})


def same(a, b, what):
    if isinstance(b, np.ndarray):
        assert isinstance(a, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b), \
            f'{what}: {a!r}, not {b!r}'
    else:
        assert type(a) is type(b) and a == b, f'{what}: {a!r}, not {b!r}'


@chk.prop('enumerations', enum_strategy, quick=1500, thorough=30000)
def enumerations(case, ctx):
    """Values and parameters that are listed come back by name, whatever else is listed."""
    stored, want = {}, {}
    for k, (kind, v) in case['v'].items():
        want[k] = np.array(v, dtype=float) if kind == 'array' else v
        stored[k.upper()] = want[k].tobytes() if kind == 'array' else json.dumps(v) \
            if kind == 'json' else v
    buf = np.array(case['other']).astype(case['dt'])
    cls = pc.EVs('cls', {**stored, 'ZBUF': buf.tobytes()})
    for k, v in want.items():
        same(cls.get_value(k.upper() if case['cap'] else k), v, f'value of {k}')
    same(cls.get_value('zbuf', dtype_buffered=case['dt']), buf, 'buffered value')
    whole = pc.EVs('whole', stored).get_enumeration_dict()
    assert list(whole) == list(want), f'keys {list(whole)}, not {list(want)}'
    for k, v in want.items():
        same(whole[k], v, f'listed value of {k}')
    # parameters: those with a reason are expected to fail
    names = [f'p{j}' for j in range(len(case['why']))]
    pars = pc.EPPs('pars', dict(zip(names, case['why']))).get_all_pytest_parameters()
    got = [(p.values, [(m.name, m.kwargs) for m in p.marks]) for p in pars]
    exp = [((n,), [] if w is None else [('xfail', {'reason': w})]) for n, w in zip(names, case['why'])]
    assert got == exp, f'parameters {got}, not {exp}'
    fail = pc.EFPVs('fail', {n: (n + 'key', j) for j, n in enumerate(names)})
    for j, n in enumerate(names):
        assert fail.get_failing_parameter_and_value(n) == (n + 'key', j), n
    # one value of the expected ones is replaced, for this time only
    base = dict(want)
    obj = pc.IIFTs({'in': 1}, base)
    key = list(want)[case['i'] % len(want)]
    new = {'list': [1, 2], 'array': np.arange(3.0)}.get(case['new'], case['new'])
    out = obj.get_output_dictionary(key, new)
    assert obj.input_dictionary == {'in': 1} and list(out) == list(want), f'{out}'
    for k in want:
        same(out[k], new if k == key else want[k], f'{k} after a replacement of {key}')
        same(obj.get_output_dictionary(None, None)[k], want[k], f'{k} by default')
        same(base[k], want[k], f'{k} of the expected values')
    ctx.nontrivial(len(want) > 1)


if __name__ == '__main__':
    sys.exit(chk.main())
