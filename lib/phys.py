"""Specification vocabulary for the spin algebra (written independently of the code under contract):
contravariant components (x,y,z,t), metric diag(-1,-1,-1,+1), Dirac representation."""
import itertools, math
from alg import conj
g = [-1, -1, -1, 1]
def zero(o): return o.q(0)
def S(o, xs):
    r = None
    for x in xs: r = x if r is None else r + x
    return o.q(0) if r is None else r
def cnum(o, x):
    if isinstance(x, complex): return o.q(int(x.real)) + o.I() * o.q(int(x.imag)) if x.imag else o.q(int(x.real))
    return o.q(x)
SIG = [[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]]
GAM = [[[0, 0, 0, 1], [0, 0, 1, 0], [0, -1, 0, 0], [-1, 0, 0, 0]], [[0, 0, 0, -1j], [0, 0, 1j, 0], [0, 1j, 0, 0], [-1j, 0, 0, 0]],
       [[0, 0, 1, 0], [0, 0, 0, -1], [-1, 0, 0, 0], [0, 1, 0, 0]], [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, -1, 0], [0, 0, 0, -1]]]
G5 = [[0, 0, 1, 0], [0, 0, 0, 1], [1, 0, 0, 0], [0, 1, 0, 0]]
ID4 = [[1 if i == j else 0 for j in range(4)] for i in range(4)]
def cm(o, M): return [[cnum(o, x) for x in r] for r in M]
def mm(o, A, B): return [[S(o, (A[i][k] * B[k][j] for k in range(len(B)))) for j in range(len(B[0]))] for i in range(len(A))]
def mv(o, A, v): return [S(o, (A[i][k] * v[k] for k in range(len(v)))) for i in range(len(A))]
def cmv(o, M, v):
    """constant matrix times vector (skips zeros)"""
    return [S(o, (v[k] * cnum(o, M[i][k]) for k in range(len(v)) if M[i][k])) for i in range(len(M))]
def add(A, B): return [[x + y for x, y in zip(r, s)] for r, s in zip(A, B)]
def sub(A, B): return [[x - y for x, y in zip(r, s)] for r, s in zip(A, B)]
def sc(c, A): return [[c * x for x in r] for r in A]
def vs(c, v): return [c * x for x in v]
def va(u, v): return [x + y for x, y in zip(u, v)]
def vm(u, v): return [x - y for x, y in zip(u, v)]
def dag(A): return [[conj(A[j][i]) for j in range(len(A))] for i in range(len(A[0]))]
def dot(o, a, b): return S(o, (a[i] * b[i] * g[i] for i in range(4)))
def low(v): return [v[i] * g[i] for i in range(4)]
def slash(o, p):
    """gamma^mu p_mu"""
    M = [[o.q(0)] * 4 for _ in range(4)]
    for mu in range(4):
        for a in range(4):
            for b in range(4):
                if GAM[mu][a][b]: M[a][b] = M[a][b] + p[mu] * g[mu] * cnum(o, GAM[mu][a][b])
    return M
def slashv(o, p, v): return mv(o, slash(o, p), v)
def gv(o, mu, v): return cmv(o, GAM[mu], v)
def g5v(o, v): return cmv(o, G5, v)
def bar(o, u):
    """u^dagger gamma^0"""
    return [conj(u[0]), conj(u[1]), -conj(u[2]), -conj(u[3])]
def parity(p):
    s = 1
    for i in range(len(p)):
        for j in range(i):
            if p[j] > p[i]: s = -s
    return s
PERM4 = [(p, parity(p)) for p in itertools.permutations(range(4))]
def eps(o, *vecs):
    """eps_{mu nu alpha beta} contracted with contravariant vectors for the non-None slots (all indices lowered with the metric, time last);
    one None slot: returns the stored components of the free index (lowered index, i.e. without the metric factor of the missing contraction)"""
    free = [i for i, v in enumerate(vecs) if v is None]
    if not free:
        return S(o, (S2(o, p, s, vecs) for p, s in PERM4))
    if len(free) == 1:
        f = free[0]; out = []
        for k in range(4): out.append(S(o, (S2(o, p, s, vecs) for p, s in PERM4 if p[f] == k)))
        return out
    f, h = free
    return [[S(o, (S2(o, p, s, vecs) for p, s in PERM4 if p[f] == k and p[h] == l)) for l in range(4)] for k in range(4)]
def S2(o, p, s, vecs):
    t = None
    for i, v in enumerate(vecs):
        if v is None: continue
        x = v[p[i]] * g[p[i]]
        t = x if t is None else t * x
    return t if s > 0 else -t
def pwave(o, p, q):
    f = dot(o, p, q) / dot(o, p, p)
    return [q[i] - p[i] * f for i in range(4)]
def proj1(o, p):
    m2 = dot(o, p, p)
    return [[(o.q(g[i]) if i == j else o.q(0)) - p[i] * p[j] / m2 for j in range(4)] for i in range(4)]
def dwave(o, p, q):
    L = pwave(o, p, q); l2 = dot(o, L, L); P1 = proj1(o, p)
    return [[L[i] * L[j] - l2 * P1[i][j] / 3 for j in range(4)] for i in range(4)]
def tv(o, T, v):
    """T^{mu nu} v_nu"""
    return [S(o, (T[i][j] * v[j] * g[j] for j in range(4))) for i in range(4)]
def tdot(o, A, B): return S(o, (A[i][j] * B[i][j] * (g[i] * g[j]) for i in range(4) for j in range(4)))
def eqv(nm, a, b):
    for i in range(max(len(a), len(b))): yield ("%s[%d]" % (nm, i), a[i], b[i])
def eqm(nm, A, B):
    for i in range(len(A)):
        for j in range(len(A[0])): yield ("%s[%d,%d]" % (nm, i, j), A[i][j], B[i][j])
