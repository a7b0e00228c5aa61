"""Independent oracle for the canonical formalism: LS-coupled two-body decays in canonical (pure-boost) rest frames,
spherical harmonics and Clebsch-Gordan coefficients, Wigner rotations of the external spins by SL(2,C)."""
import math, cmath, amps
from functools import lru_cache
import numpy as np
F = math.factorial
@lru_cache(None)
def cg(j1, m1, j2, m2, J, M):
    """Clebsch-Gordan coefficient, all arguments doubled (Racah's formula)"""
    if m1 + m2 != M or J < abs(j1 - j2) or J > j1 + j2 or (j1 + j2 + J) % 2 or abs(m1) > j1 or abs(m2) > j2 or abs(M) > J: return 0.0
    h = lambda x: x // 2
    pre = math.sqrt((J + 1) * F(h(J + j1 - j2)) * F(h(J - j1 + j2)) * F(h(j1 + j2 - J)) / F(h(j1 + j2 + J) + 1)) * math.sqrt(F(h(J + M)) * F(h(J - M)) * F(h(j1 - m1)) * F(h(j1 + m1)) * F(h(j2 - m2)) * F(h(j2 + m2)))
    s = 0.0
    for k in range(0, 60):
        a = [k, h(j1 + j2 - J) - k, h(j1 - m1) - k, h(j2 + m2) - k, h(J - j2 + m1) + k, h(J - j1 - m2) + k]
        if min(a) < 0: continue
        d = 1
        for x in a: d *= F(x)
        s += (-1) ** k / d
    return pre * s
def legendre(l, m, x):
    """associated Legendre function with Condon-Shortley phase"""
    p = 1.0; r = math.sqrt(max(0.0, 1 - x * x))
    for i in range(1, m + 1): p *= -(2 * i - 1) * r
    if l == m: return p
    q = x * (2 * m + 1) * p
    for n in range(m + 2, l + 1): p, q = q, (x * (2 * n - 1) * q - (n + m - 1) * p) / (n - m)
    return q
def Y(l, m, n):
    x, y, z = n; r = math.sqrt(x * x + y * y + z * z); a = abs(m)
    v = math.sqrt((2 * l + 1) / (4 * math.pi) * F(l - a) / F(l + a)) * legendre(l, a, z / r) * cmath.exp(1j * a * math.atan2(y, x))
    return v if m >= 0 else (-1) ** a * v.conjugate()
SIG = [np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]], complex)]
def sl2(p):
    m = math.sqrt(p[3] ** 2 - p[0] ** 2 - p[1] ** 2 - p[2] ** 2)
    return ((p[3] + m) * np.eye(2) + sum(SIG[k] * p[k] for k in range(3))) / math.sqrt(2 * m * (p[3] + m))
def label(t, it): return (t[0], t[1], [label(k, it) for k in t[2]], None if t[2] else next(it))
def psum(t, p):
    if t[3] is not None: return p[t[3]]
    v = [psum(k, p) for k in t[2]]; return [sum(x[i] for x in v) for i in range(4)]
def quantum(T, t):
    """(J, L, S) of the vertex, doubled except L"""
    d1, d2 = t[2]; L = None; S = 0
    for m in t[1]:
        if m and m[0] in "SPDFGH" and (len(m) == 1 or len(m) == 2 and m[1].isdigit()): L = "SPDFGH".index(m[0])
        if m and m[-1].isdigit() and (len(m) == 1 or len(m) == 2 and m[0] in "SPDFGH"): S = int(m[-1])     # a number selects 2S
    if not L: L = T.minL((t[0], [], [d1, d2]))
    return T.p[t[0]]["s2"], L, S or [x for x in T.pairs((t[0], [], [d1, d2]), parity=False) if x[0] == L][0][1]
def sign(T, t):
    """phase convention of the helicity recoupling, for integer spins: (-1)^(s1-J) per vertex"""
    if not t[2]: return 1
    if len(t[2]) == 1: return sign(T, t[2][0])
    return (-1) ** ((T.p[t[2][0][0]]["s2"] - T.p[t[0]]["s2"]) // 2) * sign(T, t[2][0]) * sign(T, t[2][1])
def amp(T, t, p, pol):
    """{2M: amplitude} of the labelled tree t for momenta p (head at rest) and polarisation states of the leaves"""
    def go(t, p, chain):
        J = T.p[t[0]]["s2"]
        if not t[2]:
            i = t[3]
            if J == 0: return {0: 1.0 + 0j}
            W = np.linalg.inv(sl2(lab[i])) @ chain @ sl2(p[i])      # Wigner rotation: successive boosts against the direct one
            if J == 1: k = 0 if pol[i] == 1 else 1; return {1: W[k, 0].conjugate(), -1: W[k, 1].conjugate()}
            a, b, c, d = W[0, 0], W[0, 1], W[1, 0], W[1, 1]; r = math.sqrt(2)
            D = [[a * a, r * a * b, b * b], [r * a * c, a * d + b * c, r * b * d], [c * c, r * c * d, d * d]][1 - pol[i]]
            return {2: D[0].conjugate(), 0: D[1].conjugate(), -2: D[2].conjugate()}
        if len(t[2]) == 1: return go(t[2][0], p, chain)
        P = psum(t, p); q = {i: amps.boostv(v, [-P[k] / P[3] for k in range(3)]) for i, v in p.items()}; ch = chain @ sl2(P)
        d1, d2 = t[2]; J, L, S = quantum(T, t); a1, a2 = go(d1, q, ch), go(d2, q, ch); n = psum(d1, q)[:3]; s1, s2 = T.p[d1[0]]["s2"], T.p[d2[0]]["s2"]; out = {}
        for M in range(-J, J + 1, 2):
            r = 0
            for mS in range(-S, S + 1, 2):
                mL = M - mS
                if mL % 2 or abs(mL) > 2 * L: continue
                c = cg(2 * L, mL, S, mS, J, M)
                if c == 0: continue
                for m1 in range(-s1, s1 + 1, 2):
                    if abs(mS - m1) <= s2: r += c * cg(s1, m1, s2, mS - m1, S, mS) * Y(L, mL // 2, n).conjugate() * math.sqrt(4 * math.pi / (J + 1)) * a1[m1] * a2[mS - m1]
            out[M] = r
        return out
    lab = p
    return go(t, p, np.eye(2))
