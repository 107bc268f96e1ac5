"""Generators shared by the checks. Cases stay plain data; `arr` turns them into arrays."""

import numpy as np


def floats(st, lo=-10.0, hi=10.0):
    """Finite, well-scaled doubles with `nice` values mixed in."""
    nice = [v for v in (0.0, 1.0, -1.0, 0.5, 2.0, -0.25, 3.0) if lo <= v <= hi]
    base = st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)
    return st.one_of(base, st.sampled_from(nice)) if nice else base


def logfloat(st, lo, hi, signed=False):
    """Log-uniform magnitudes between lo and hi."""
    s = st.floats(np.log10(lo), np.log10(hi), allow_nan=False).map(lambda e: float(10.0**e))
    if signed:
        return st.tuples(s, st.booleans()).map(lambda t: -t[0] if t[1] else t[0])
    return s


def vec(st, min_size, max_size, lo=-10.0, hi=10.0, big=0):
    """A vector description: an explicit list when small, a seeded one when large."""
    small = st.lists(floats(st, lo, hi), min_size=min_size, max_size=max_size)
    if not big:
        return small
    seeded = st.fixed_dictionaries({
        'n': st.integers(max(min_size, max_size), big), 'seed': st.integers(0, 2**32 - 1),
        'lo': st.just(lo), 'hi': st.just(hi)})
    return st.one_of(small, seeded)


def arr(desc, dtype=float):
    """The array a `vec` case describes."""
    if isinstance(desc, dict):
        rng = np.random.Generator(np.random.PCG64(desc['seed']))
        return rng.uniform(desc['lo'], desc['hi'], desc['n']).astype(dtype)
    return np.array(desc, dtype=dtype)


def rng(seed):
    return np.random.Generator(np.random.PCG64(seed))


def seeds(st):
    return st.integers(0, 2**32 - 1)


def close(a, b, rtol=1e-10, atol=1e-12, msg=''):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f'{msg}: shape {a.shape} != expected {b.shape}'
    both_nan = np.isnan(a) & np.isnan(b)
    bad = ~(np.isclose(a, b, rtol=rtol, atol=atol) | both_nan)
    if np.any(bad):
        i = np.argwhere(bad)[0]
        i = tuple(i) if a.ndim else ()
        raise AssertionError(f'{msg}: got {a[i]!r}, expected {b[i]!r} at {tuple(map(int, i))} '
                             f'({int(bad.sum())} of {bad.size} differ)')
