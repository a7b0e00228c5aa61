"""P09: the constant spin matrices obey the Clifford, su(2), so(3) and su(3) algebras they are documented to represent."""
import build, oblig, itertools
from oblig import Group
from phys import *
from alg import conj
LEVEL = "proof"
F3 = {(0, 1, 2): (1, 1), (0, 3, 6): (1, 2), (0, 4, 5): (-1, 2), (1, 3, 5): (1, 2), (1, 4, 6): (1, 2), (2, 3, 4): (1, 2), (2, 5, 6): (-1, 2)}
def matrices(o):
    G = [o["G%d" % i].mat() for i in range(5)]; I4 = cm(o, ID4); I = o.I()
    yield ("I", o["I"], I); yield ("Z", o["Z"], o.q(0))
    for i in range(4):
        for j in range(4): yield from eqm("{gamma%d,gamma%d} = 2 g" % (i, j), add(mm(o, G[i], G[j]), mm(o, G[j], G[i])), sc(o.q(2 * g[i] if i == j else 0), I4))
        yield from eqm("gamma0 gamma%d^dagger gamma0 = gamma%d" % (i, i), mm(o, mm(o, G[3], dag(G[i])), G[3]), G[i])
        yield from eqm("{gamma5,gamma%d} = 0" % i, add(mm(o, G[4], G[i]), mm(o, G[i], G[4])), sc(o.q(0), I4))
        yield from eqm("gamma%d in the Dirac representation" % i, G[i], cm(o, GAM[i]))
        for a in range(4):
            for b in range(4): yield ("Gamma4Vec[%d,%d,%d]" % (i, a, b), o["GV"][i, a, b], G[i][a][b])
    yield from eqm("gamma5 = i gamma0 gamma1 gamma2 gamma3", G[4], sc(I, mm(o, mm(o, G[3], G[0]), mm(o, G[1], G[2]))))
    yield from eqm("gamma5^2 = 1", mm(o, G[4], G[4]), I4)
    Sg = [o["S%d" % i].mat() for i in range(3)]; F = [o["F%d" % i].mat() for i in range(3)]; J = [o["J%d" % i].mat() for i in range(3)]
    I2 = [[o.q(1), o.q(0)], [o.q(0), o.q(1)]]
    e3 = {(0, 1): (2, 1), (1, 2): (0, 1), (2, 0): (1, 1), (1, 0): (2, -1), (2, 1): (0, -1), (0, 2): (1, -1)}
    for i in range(3):
        yield from eqm("sigma%d hermitian" % i, Sg[i], dag(Sg[i]))
        yield from eqm("sigma%d" % i, Sg[i], cm(o, SIG[i]))
        for j in range(3):
            k, s = e3.get((i, j), (0, 0))
            pr = sc(o.q(1 if i == j else 0), I2)
            yield from eqm("sigma%d sigma%d = delta + i eps sigma" % (i, j), mm(o, Sg[i], Sg[j]), add(pr, sc(I * s, Sg[k])))
            yield from eqm("[J%d,J%d] = eps J" % (i, j), sub(mm(o, J[i], J[j]), mm(o, J[j], J[i])), sc(o.q(s), J[k]))
        blk = [[o.q(0)] * 4 for _ in range(4)]
        for a in range(2):
            for b in range(2): blk[a][b] = Sg[i][a][b]; blk[a + 2][b + 2] = Sg[i][a][b]
        yield from eqm("Sigma4_%d = diag(sigma,sigma)" % i, F[i], blk)
        yield from eqm("Sigma4_%d = gamma5 gamma0 gamma_%d" % (i, i), F[i], mm(o, mm(o, G[4], G[3]), G[i]))
        jk = [[o.q(0)] * 4 for _ in range(4)]; a, b = (i + 1) % 3, (i + 2) % 3
        jk[a][b] = o.q(-1); jk[b][a] = o.q(1)
        yield from eqm("SO3_%d generates the rotation about axis %d" % (i, i), J[i], jk)
    L = [o["L%d" % i].mat() for i in range(8)]
    f = {}
    for k, (n, d) in F3.items():
        for p in itertools.permutations(range(3)): f[tuple(k[x] for x in p)] = o.q(n * parity(p), d)
    h = o.sqrt(o.q(3)) / 2
    for k in ((3, 4, 7), (5, 6, 7)):
        for p in itertools.permutations(range(3)): f[tuple(k[x] for x in p)] = h * parity(p)
    Z = [[o.q(0)] * 3 for _ in range(3)]
    for a in range(8):
        yield from eqm("lambda%d hermitian" % (a + 1), L[a], dag(L[a]))
        yield ("lambda%d traceless" % (a + 1), L[a][0][0] + L[a][1][1] + L[a][2][2], o.q(0))
        for b in range(8):
            t = mm(o, L[a], L[b])
            yield ("tr(lambda%d lambda%d) = 2 delta" % (a + 1, b + 1), t[0][0] + t[1][1] + t[2][2], o.q(2 if a == b else 0))
            r = Z
            for c in range(8):
                if (a, b, c) in f: r = add(r, sc(2 * I * f[(a, b, c)], L[c]))
            yield from eqm("[lambda%d,lambda%d] = 2i f lambda" % (a + 1, b + 1), sub(t, mm(o, L[b], L[a])), r)
def slash_(o):
    p = [o.v("p" + c) for c in "xyzt"]; s = o["s"].mat()
    yield from eqm("slash(p) = gamma^mu p_mu", s, slash(o, p))
    yield from eqm("slash(p)^2 = p^2", mm(o, s, s), sc(dot(o, p, p), cm(o, ID4)))
    u = [o.v("u%d" % i) + o.I() * o.v("ui%d" % i) for i in range(4)]
    yield from eqv("Bar(u) = u^dagger gamma0", o["bar"].el, bar(o, u))
    gt = o["gt"]
    for a in range(4):
        for b in range(4):
            yield ("p_mu gamma_twiddle^mu = 0 [%d%d]" % (a, b), S(o, (gt[mu, a, b] * p[mu] * g[mu] for mu in range(4))), o.q(0))
            for mu in range(4): yield ("gamma_twiddle[%d%d%d]" % (mu, a, b), gt[mu, a, b], cnum(o, GAM[mu][a][b]) - p[mu] * s[a][b] / dot(o, p, p))
def run(rep, deep, seed):
    exe = build.harness("spin")
    gs = [Group("spin matrices", "matrices", [], matrices, nsamp=1, funcs=["Gamma", "Sigma", "Sigma4", "SO3", "SU3", "I", "Z", "Gamma4Vec"]),
          Group("slash, Bar, gamma_twiddle", "slash", ["px", "py", "pz", "pt"] + ["u%d" % i for i in range(4)] + ["ui%d" % i for i in range(4)], slash_, funcs=["slash", "Bar", "gamma_twiddle"], requires="p^2 != 0")]
    rep.merge(oblig.discharge(rep.pid, exe, gs, seed, deep))
    rep.assumptions += ["machine arithmetic treated as exact real arithmetic", "the value of an expression node is the one its operator()() defines (property P01)"]
    rep.trusted += ["term exporter harness/h.h", "exact normal form (sympy polynomial ring over Q)", "g++"]
