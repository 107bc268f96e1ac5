"""Linear stability of the fixed points of the amplitude equations, decided exactly.

Three modes (Van Beeck et al. 2024, Dziembowski 1982), amplitudes a_i, phase P:
  a1' = g1 a1 + 2 w1 eta a2 a3 sin P      a2' = g2 a2 - 2 w2 eta a1 a3 sin P  (a3 alike)
  P'  = delta + 2 eta cos P (w1 a2 a3/a1 - w2 a1 a3/a2 - w3 a1 a2/a3)
In its fixed point (cot P = q = delta/sum(g)) and with relative amplitudes as variables, the
Jacobian depends on the g_i and q only.  Two modes (w1 = 2 w2) likewise."""

from fractions import Fraction as Fr


def jac_triad(g, q):
    s = sum(g)
    return [[g[i] if i == j else -g[i] for j in range(3)] + [-q * g[i]] for i in range(3)] + \
        [[q * (2 * g[j] - s) for j in range(3)] + [s]]


def jac_harmonic(g1, g2, q):
    return [[g1, -2 * g1, -q * g1], [-g2, 0 * g2, -q * g2],
            [q * (g1 - 2 * g2), -2 * q * g1, g1 + 2 * g2]]


def charpoly(M):
    """Coefficients c_1..c_n of l^n + c_1 l^(n-1) + ... (Faddeev-LeVerrier)."""
    n = len(M)
    A = [[Fr(0)] * n for _ in range(n)]
    c, out = Fr(1), []
    for k in range(1, n + 1):
        B = [[A[i][j] + (c if i == j else 0) for j in range(n)] for i in range(n)]
        A = [[sum(M[i][x] * B[x][j] for x in range(n)) for j in range(n)] for i in range(n)]
        c = -sum(A[i][i] for i in range(n)) / k
        out.append(c)
    return out


def hurwitz(M):
    c = charpoly(M)
    if min(c) <= 0:
        return False
    if len(c) == 3:
        return c[0] * c[1] > c[2]
    return c[0] * c[1] * c[2] > c[2]**2 + c[0]**2 * c[3]


def _robust(fun, vals):
    """The verdict when it stays the same under tiny changes of all values, else None."""
    base = [Fr(float(v)) for v in vals]
    sc = max(abs(b) for b in base[:-1])
    base = [b / sc for b in base[:-1]] + [base[-1]]
    eps = Fr(1, 10**7)
    seen = {fun(*base)}
    for i in range(len(base)):
        for s in (1, -1):
            seen.add(fun(*[b * (1 + s * eps) if i == j else b for j, b in enumerate(base)]))
    return seen.pop() if len(seen) == 1 else None


def physical(g):
    """Fixed points with real amplitudes exist: one sign for the parent, the other for the rest."""
    return (g[0] > 0 and max(g[1:]) < 0) or (g[0] < 0 and min(g[1:]) > 0)


def triad(g, q):
    if not physical(g):
        return False
    return _robust(lambda a, b, c, x: hurwitz(jac_triad((a, b, c), x)), [*g, q])


def harmonic(g1, g2, q):
    if not physical((g1, g2)):
        return False
    return _robust(lambda a, b, x: hurwitz(jac_harmonic(a, b, x)), [g1, g2, q])


def in_finding(g1, g2, q):
    """Parametric two-mode cases for which the quotient and its inverse decide differently."""
    if not (g1 > 0 > g2):
        return False
    th = -g2 / g1
    den, num = 2 * th * (th - 1) + 1, 2 * th * (th - 1) - 1
    if num <= 0:
        return False
    return num / den * (1 - 1e-6) <= q * q <= den / num * (1 + 1e-6)


def original_quartic(g, q):
    """The condition of Dziembowski (1982) as printed there (None if it is decided by rounding),
    and the ratio of the corrected coefficient of q^4 to the one printed."""
    g, q = [Fr(float(v)) for v in g], Fr(float(q))
    a, b = -g[1] / g[0], -g[2] / g[0]
    s = a + b - 1
    c0 = [-s**3, -2 * a * b]
    c2 = [-12 * a * b, s * 4 * (a**2 + b**2 + 1) / 2]
    c4 = [-18 * a * b, 3 * s * (3 * a**2 + 3 * b**2 + 2 * a * b + 1)]
    new = [-18 * a * b, 3 * s * (s**2 + 4 * (a + b - a * b))]
    tot = sum(c0) + sum(c2) * q**2 + sum(c4) * q**4
    size = sum(map(abs, c0)) + sum(map(abs, c2)) * q**2 + sum(map(abs, c4)) * q**4
    cond = None if abs(tot) < size / 10**9 else tot > 0
    well = all(abs(sum(c)) > sum(map(abs, c)) / 10**4 for c in (c4, new))
    near = abs(s) < (a + b + 1) / 10**5
    return (None if near else cond), (float(sum(new) / sum(c4)) if well and not near else None)
