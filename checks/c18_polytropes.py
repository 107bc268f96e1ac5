"""C18: structure of polytropic stars."""

import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C18', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv'),
    rule='Solutions of the Lane-Emden equation (integrated numerically, and in closed form for '
         'indices 1 and 5) for indices between 0.5 and 4.9, on uneven grids that may contain the '
         'center and the surface or be truncated below it, for random masses, radii, adiabatic '
         'exponents and gravitational constants. Non-trivial: at least five radii that are neither '
         'center nor surface.',
    assumptions=['the grid ascends and ends at the outer boundary, to which the mass and radius '
                 'belong, as in the output of the GYRE tool build_poly'])


def setup():
    global PaSi, np, g, solve_ivp
    import numpy as np
    from scipy.integrate import solve_ivp
    from aesolver.polytropic_computations import PaSi
    from vplib import gen as g


chk.setup = setup


# ---------------------------------------------------------------- Lane-Emden solutions
def series(n, z):
    """Expansion around the center."""
    t = 1 - z**2 / 6 + n * z**4 / 120 - n * (8 * n - 5) * z**6 / 15120
    d = -z / 3 + n * z**3 / 30 - n * (8 * n - 5) * z**5 / 2520
    return t, d


def lane_emden(n, theta_end):
    """(outer boundary, callable of the grid that yields theta and its derivative)."""
    if n == 5.0:
        f = lambda z: (1 / np.sqrt(1 + z**2 / 3), -z / 3 * (1 + z**2 / 3)**-1.5)  # noqa: E731
        return math.sqrt(3 / theta_end**2 - 3), f
    if n == 1.0:
        def f(z):
            zz = np.where(z == 0, 1.0, z)
            return (np.where(z == 0, 1.0, np.sin(zz) / zz),
                    np.where(z == 0, 0.0, np.cos(zz) / zz - np.sin(zz) / zz**2))
        lo, hi = 0.1, math.pi
        for _ in range(80):
            mid = 0.5 * (lo + hi)
            lo, hi = (mid, hi) if math.sin(mid) / mid > theta_end else (lo, mid)
        return 0.5 * (lo + hi), f

    def rhs(z, y):
        return [y[1], -max(y[0], 0.0)**n - 2 * y[1] / z]
    z0 = 1e-2

    def hit(z, y):
        return y[0] - theta_end
    hit.terminal = True
    sol = solve_ivp(rhs, (z0, 1e4), list(series(n, z0)), method='DOP853', rtol=1e-12,
                    atol=1e-14, events=hit, dense_output=True)
    zs = float(sol.t_events[0][0])

    def f(z):
        z = np.asarray(z, dtype=float)
        out = sol.sol(np.clip(z, z0, zs))
        t, d = series(n, z)
        return np.where(z < z0, t, out[0]), np.where(z < z0, d, out[1])
    return zs, f


def case_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'n': st.one_of(st.sampled_from([1.0, 1.5, 2.0, 3.0, 4.0, 5.0]),
                       gen.floats(st, 0.5, 4.9)),
        'end': st.sampled_from([0.0, 1e-6, 1e-3, 0.1, 0.5]), 'npts': st.integers(4, 60),
        'grid': st.sampled_from(['uniform', 'uneven', 'edge']), 'seed': st.integers(0, 10**6),
        'center': st.booleans(), 'M': gen.logfloat(st, 1e-3, 1e35),
        'R': gen.logfloat(st, 1e-2, 1e12), 'G': st.sampled_from([6.6743e-8, 6.6743e-11, 1.0]),
        'g1': gen.floats(st, 1.1, 2.5), 'array': st.booleans(), 'g1_profile': st.booleans()})


def make(case):
    n, end = case['n'], case['end']
    if n > 4.0 and end == 0.0:        # these extend to (nearly) infinity
        end = 1e-3
    zs, f = lane_emden(n, end)
    u = np.linspace(0.0, 1.0, case['npts'])
    if case['grid'] == 'uneven':
        u[1:-1] += g.rng(case['seed']).uniform(-0.45, 0.45, u.size - 2) / (u.size - 1)
    elif case['grid'] == 'edge':
        u = np.sin(0.5 * np.pi * u)
    z = zs * u
    if not case['center']:
        z = z[1:]
    t, d = f(z)
    if end == 0.0:
        t[-1] = 0.0
    g1 = case['g1'] + (0.1 * np.cos(z) if case['g1_profile'] else 0.0)
    info = {'n_poly': np.array([n]) if case['array'] else n, 'z': z, 'theta': t, 'dtheta': d,
            'Gamma_1': g1, 'G': case['G'], 'n_r': 1}
    return info, f


# ---------------------------------------------------------------- truncated power series
class Jet:
    """Value and first three derivatives (Taylor coefficients)."""

    def __init__(self, c):
        self.c = c

    def __mul__(self, o):
        a, b = self.c, o.c
        return Jet([sum(a[i] * b[k - i] for i in range(k + 1)) for k in range(4)])

    def power(self, e):
        a, out = self.c, [self.c[0]**e]
        for k in range(1, 4):
            out.append(sum((e * i - (k - i)) * a[i] * out[k - i] for i in range(1, k + 1))
                       / (k * a[0]))
        return Jet(out)

    def derivatives(self):
        return [self.c[0], self.c[1], 2 * self.c[2], 6 * self.c[3]]


def theta_jet(n, z, t, d):
    """The higher coefficients follow from (z^2 theta')' = - z^2 theta^n, i.e. from
    (k+1)(k+2) z c_{k+2} + ... of the recurrence z theta'' + 2 theta' + z theta^n = 0."""
    c2 = -(t**n + 2 * d / z) / 2
    # derivative: z theta''' + 3 theta'' + theta^n + n z theta^(n-1) theta' = 0
    third = -(3 * 2 * c2 + t**n + n * z * t**(n - 1) * d) / z
    return Jet([t, d, c2, third / 6])


@chk.prop('structure', case_strategy, quick=2500, thorough=40000, shards=6)
def structure(case, ctx):
    """Mass, hydrostatic equilibrium, Poisson's equation, buoyancy, and all derivatives."""
    info, _ = make(case)
    n, big_g, m_tot, r_tot = case['n'], case['G'], case['M'], case['R']
    keep = {k: np.array(v, copy=True) for k, v in info.items()}
    with np.errstate(all='ignore'):
        out = PaSi([info], m_tot, r_tot).property_dict
    assert all(np.array_equal(keep[k], info[k]) for k in keep), 'the input was modified'
    z, t, d, g1 = info['z'], info['theta'], info['dtheta'], np.broadcast_to(
        info['Gamma_1'], info['z'].shape)
    arr = {k: np.broadcast_to(np.asarray(v, dtype=float), z.shape) for k, v in out.items()
           if k not in ('p0', 'rho0')}
    zs, aux = z[-1], -z[-1]**2 * d[-1]
    alpha = r_tot / zs
    rho0 = m_tot / (4 * math.pi * alpha**3 * aux)
    p0 = 4 * math.pi * big_g * (alpha * rho0)**2 / (n + 1)
    assert math.isclose(float(out['rho0']), rho0, rel_tol=1e-10), 'central density'
    assert math.isclose(float(out['p0']), p0, rel_tol=1e-9), 'central pressure'
    inner = (z > 0) & (t > 0)
    with np.errstate(all='ignore'):
        jet = theta_jet(n, z, t, d)
        rho = [rho0 * v / alpha**k for k, v in enumerate(jet.power(n).derivatives())]
        p = [p0 * v / alpha**k for k, v in enumerate(jet.power(n + 1).derivatives())]
    r = alpha * z
    mass = 4 * math.pi * rho0 * alpha**3 * (-z**2 * d)
    with np.errstate(all='ignore'):
        grav = big_g * mass / r**2
        grav2 = 4 * math.pi * big_g * rho[0] - 2 * grav / r
        grav3 = 4 * math.pi * big_g * rho[1] - 2 * grav2 / r + 2 * grav / r**2
        # buoyancy: N^2 = g (1 / Gamma_1 dlnP/dr - dln rho/dr), which is g A* / r
        n2 = grav * (p[1] / (g1 * p[0]) - rho[1] / rho[0])
        v = grav * r * rho[0] / p[0]
        x = r / r_tot
        want = dict(r=r, rho=rho[0], drho=rho[1], drho2=rho[2], drho3=rho[3], p=p[0], dp=p[1],
                    dp2=p[2], dp3=p[3], dgravpot=grav, dgravpot2=grav2, dgravpot3=grav3,
                    mr=mass, surfgrav=grav, v=v, v2=v / x**2,
                    u=4 * math.pi * rho[0] * r**3 / mass, c1=x**3 * m_tot / mass,
                    brunt_n2=n2)
        want['as'] = n2 * r / grav
        # magnitudes of what adds up, against which rounding errors count
        c2 = np.abs(t**n) + 2 * np.abs(d / z)
        c3 = (2 / z * t**n + (n * t**(n - 1) + 6 / z**2) * np.abs(d))
        mag = dict(want)
        big = Jet([t, np.abs(d), c2 / 2, c3 / 6])
        mag['drho2'], mag['drho3'] = rho0 * absjet(big, n)[2] / alpha**2, rho0 * absjet(big, n)[3] / alpha**3
        mag['dp2'], mag['dp3'] = p0 * absjet(big, n + 1)[2] / alpha**2, p0 * absjet(big, n + 1)[3] / alpha**3
        mag['dgravpot2'] = (n + 1) * p0 / rho0 / alpha**2 * c2
        mag['dgravpot3'] = (n + 1) * p0 / rho0 / alpha**3 * c3
        mag['as'] = v * (n / (n + 1) + 1 / g1)
        mag['brunt_n2'] = mag['as'] * grav / r
    assert set(out) == set(want) | {'p0', 'rho0'}, f'quantities {sorted(out)}'
    for k, w in want.items():
        dev = np.abs(arr[k] - w)[inner]
        lim = 1e-8 * np.abs(mag[k])[inner] + 1e-300
        if not (dev <= lim).all():
            i = int(np.argmax(~(dev <= lim)))
            raise AssertionError(f'{k}: {arr[k][inner][i]!r}, expected {w[inner][i]!r} at '
                                 f'z = {z[inner][i]!r} (of {zs})')
    # limits at the center and the surface
    if case['center']:
        c = {'r': 0.0, 'rho': rho0, 'p': p0, 'drho': 0.0, 'dp': 0.0, 'dgravpot': 0.0, 'mr': 0.0,
             'surfgrav': 0.0, 'v': 0.0, 'as': 0.0, 'dgravpot2': 4 * math.pi * big_g * rho0 / 3,
             'dgravpot3': 0.0, 'drho2': -n * rho0 / (3 * alpha**2), 'drho3': 0.0,
             'dp2': -(n + 1) * p0 / (3 * alpha**2), 'dp3': 0.0, 'u': 3.0,
             'c1': 3 * aux / zs**3, 'v2': (n + 1) * zs**2 / 3, 'brunt_n2': 0.0}
        for k, w in c.items():
            assert math.isclose(arr[k][0], w, rel_tol=1e-9, abs_tol=0.0), (
                f'{k} at the center: {arr[k][0]!r}, expected {w!r}')
        ctx.label('center')
    if t[-1] == 0.0:
        s = {'r': r_tot, 'rho': 0.0, 'p': 0.0, 'dp': 0.0, 'mr': m_tot, 'c1': 1.0, 'u': 0.0,
             'surfgrav': big_g * m_tot / r_tot**2, 'dgravpot': big_g * m_tot / r_tot**2}
        for k, w in s.items():
            assert math.isclose(arr[k][-1], w, rel_tol=1e-9, abs_tol=0.0), (
                f'{k} at the surface: {arr[k][-1]!r}, expected {w!r}')
        ctx.label('surface')
    ctx.nontrivial(inner.sum() >= 5)


def absjet(big, e):
    """Derivatives of the power if all contributions had the same sign."""
    t, d1, d2, d3 = big.c[0], big.c[1], 2 * big.c[2], 6 * big.c[3]
    a, b, c = abs(e), abs(e * (e - 1)), abs(e * (e - 1) * (e - 2))
    return [t**e, a * t**(e - 1) * d1, b * t**(e - 2) * d1**2 + a * t**(e - 1) * d2,
            c * t**(e - 3) * d1**3 + 3 * b * t**(e - 2) * d1 * d2 + a * t**(e - 1) * d3]


@chk.prop('integrals', case_strategy, quick=500, thorough=8000, shards=3)
def integrals(case, ctx):
    """The mass within r is the integral of the density, the pressure the weight of what lies
    above, and successive derivatives are those of one another along the radius."""
    info, f = make(dict(case, array=False))
    n, big_g, m_tot, r_tot = case['n'], case['G'], case['M'], case['R']
    z = info['z']
    with np.errstate(all='ignore'):
        out = PaSi([info], m_tot, r_tot).property_dict
    nodes, wts = np.polynomial.legendre.leggauss(24)
    alpha = r_tot / z[-1]
    mass, drop = 0.0, []
    lo = 0.0
    for i, end in enumerate(z):
        down = 0.0
        while lo < end:
            hi = min(end, 1.5 * lo + 0.5, 0.5 * (lo + z[-1]))
            q = 0.5 * (lo + hi) + 0.5 * (hi - lo) * nodes
            w = 0.5 * (hi - lo) * wts * alpha
            if end == z[-1] and end - lo < 0.3 * end:
                # fractional powers of the distance to the surface
                hi, v = end, 0.5 * (1.0 - nodes)
                q, w = hi - (hi - lo) * v**4, 2.0 * (hi - lo) * v**3 * wts * alpha
            t, d = f(q)
            rho = out['rho0'] * np.maximum(t, 0.0)**n
            mass += float((w * 4 * np.pi * (alpha * q)**2 * rho).sum())
            m_q = -4 * np.pi * out['rho0'] * alpha**3 * q**2 * d
            down += float((w * rho * big_g * m_q / (alpha * q)**2).sum())
            lo = hi
        drop.append(down)
        assert abs(out['mr'][i] - mass) <= 1e-5 * m_tot, (
            f'mass {out["mr"][i]!r} within z = {end!r}; its density integrates to {mass!r}')
    assert math.isclose(out['mr'][-1], m_tot, rel_tol=1e-12)
    pres = out['p0'] - np.cumsum(drop)
    g.close(out['p'], pres, rtol=0, atol=1e-5 * out['p0'], msg='weight of the layers above')
    ctx.nontrivial(z.size >= 5)


if __name__ == '__main__':
    sys.exit(chk.main())
