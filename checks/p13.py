"""P13: spin projectors and orbital tensors."""
import build, oblig
from oblig import Group
from phys import *
LEVEL = "proof"
X = "xyzt"
def P(o, n="p"): return [o.v(n + c) for c in X]
def pwave_(o):
    p, q = P(o), P(o, "q"); L = o["L"].el
    yield from eqv("L = q - p (p.q)/p^2", L, pwave(o, p, q))
    yield ("p.L = 0", dot(o, p, L), o.q(0))
def dwave_(o):
    p, q = P(o), P(o, "q"); D = o["D"].mat()
    for i in range(4):
        for j in range(i): yield ("symmetric[%d,%d]" % (i, j), D[i][j], D[j][i])
    yield from eqv("p_mu D^{mu nu} = 0", tv(o, D, p), [o.q(0)] * 4)
    yield ("traceless", S(o, (D[i][i] * g[i] for i in range(4))), o.q(0))
    yield from eqm("D = L L - L^2 S/3", D, dwave(o, p, q))
def spin1_(o):
    p = P(o); s = o["S"].mat()
    yield from eqm("S = g - p p/p^2", s, proj1(o, p))
    yield from eqv("p.S = 0", tv(o, s, p), [o.q(0)] * 4)
    for i in range(4):
        for j in range(4): yield ("S.S = S[%d,%d]" % (i, j), S(o, (s[i][k] * s[k][j] * g[k] for k in range(4))), s[i][j])
    yield ("trace = 3", S(o, (s[i][i] * g[i] for i in range(4))), o.q(3))
def spin2_(o):
    p = P(o); T = o["T"]; s = proj1(o, p); R = range(4)
    for a in R:
        for b in R:
            for c in R:
                for d in R:
                    t = T[a, b, c, d]
                    if a < b: yield ("symmetric in first pair[%d%d%d%d]" % (a, b, c, d), t, T[b, a, c, d])
                    if c < d: yield ("symmetric in second pair[%d%d%d%d]" % (a, b, c, d), t, T[a, b, d, c])
                    if a <= b and c <= d: yield ("T = (SS+SS)/2 - SS/3 [%d%d%d%d]" % (a, b, c, d), t, (s[a][c] * s[b][d] + s[a][d] * s[b][c]) / 2 - s[a][b] * s[c][d] / 3)
    for b in R:
        for c in R:
            for d in R: yield ("transverse[%d%d%d]" % (b, c, d), S(o, (T[a, b, c, d] * p[a] * g[a] for a in R)), o.q(0))
    for c in R:
        for d in R: yield ("traceless[%d%d]" % (c, d), S(o, (T[a, a, c, d] * g[a] for a in R)), o.q(0))
    yield ("trace = 5", S(o, (T[a, b, a, b] * (g[a] * g[b]) for a in R for b in R)), o.q(5))
def idem2(o):
    T = o["T"]; R = range(4)
    for a in R:
        for b in range(a + 1):
            for c in R:
                for d in range(c + 1): yield ("T.T = T [%d%d%d%d]" % (a, b, c, d), S(o, (T[a, b, e, f] * T[e, f, c, d] * (g[e] * g[f]) for e in R for f in R)), T[a, b, c, d])
def spinh_(o):
    p = P(o); m = o.sqrt(dot(o, p, p)); F = o["F"].mat(); B = o["B"].mat(); I4 = cm(o, ID4); s = slash(o, p)
    yield from eqm("F = (pslash/m + 1)/2", F, sc(o.q(1, 2), add(sc(o.q(1) / m, s), I4)))
    yield from eqm("B = (1 - pslash/m)/2", B, sc(o.q(1, 2), sub(I4, sc(o.q(1) / m, s))))
    yield from eqm("F F = F", mm(o, F, F), F)
    yield from eqm("B B = B", mm(o, B, B), B)
    yield from eqm("F B = 0", mm(o, F, B), sc(o.q(0), I4))
    yield from eqm("F + B = 1", add(F, B), I4)
    yield from eqm("pslash F = m F", mm(o, s, F), sc(m, F))
    yield from eqm("pslash B = -m B", mm(o, s, B), sc(-m, B))
def spin3h_(nm, sgn):
    def f(o):
        p = P(o); m = o.sqrt(dot(o, p, p)); T = o[nm]; R = range(4); s = slash(o, p)
        for n in R:
            for a in R:
                for b in R:
                    yield ("p_mu P^{mu nu} = 0 [%d%d%d]" % (n, a, b), S(o, (T[mu, n, a, b] * p[mu] * g[mu] for mu in R)), o.q(0))
                    yield ("gamma_mu P^{mu nu} = 0 [%d%d%d]" % (n, a, b), S(o, (T[mu, n, c, b] * g[mu] * cnum(o, GAM[mu][a][c]) for mu in R for c in R if GAM[mu][a][c])), o.q(0))
                    for mu in R: yield ("pslash P = %s m P [%d%d%d%d]" % ("+" if sgn > 0 else "-", mu, n, a, b), S(o, (s[a][c] * T[mu, n, c, b] for c in R)), m * T[mu, n, a, b] * sgn)
        yield ("trace = -4 (spin 3/2)", S(o, (T[mu, mu, a, a] * g[mu] for mu in R for a in R)), o.q(-4) * o.q(1) / 2 if False else o.q(-4))
        for mu in R:
            for n in R:
                for a in (0, 2):
                    for b in R: yield ("P.P = -P [%d%d%d%d]" % (mu, n, a, b), S(o, (T[mu, k, a, c] * T[k, n, c, b] * g[k] for k in R for c in R)), -T[mu, n, a, b])
    return f
V4 = lambda *n: [a + c for a in n for c in X]
def smp(*n):
    def f(rng):
        e = {}
        for a in n:
            for c in "xyz": e[a + c] = rng.uniform(-1, 1)
            e[a + "t"] = rng.uniform(1.9, 3)
        return e
    return f
def run(rep, deep, seed):
    exe = build.harness("spin")
    gs = [Group("Orbital_PWave", "pwave", V4("p", "q"), pwave_, smp("p", "q"), funcs=["Orbital_PWave"], requires="p^2 != 0"),
          Group("Orbital_DWave", "dwave", V4("p", "q"), dwave_, smp("p", "q"), funcs=["Orbital_DWave", "Tensor::imposeSymmetry", "Tensor::st"], requires="p^2 != 0"),
          Group("Spin1Projector", "spin1", V4("p"), spin1_, smp("p"), funcs=["Spin1Projector"], requires="p^2 != 0"),
          Group("Spin2Projector", "spin2", V4("p"), spin2_, smp("p"), funcs=["Spin2Projector"], requires="p^2 != 0", nsamp=5),
          Group("Spin2Projector idempotent", "spin2", V4("p"), idem2, smp("p"), funcs=["Spin2Projector"], requires="p^2 != 0", nsamp=3, modp=not deep, budget=400),
          Group("Spin1hProjector, Spin1hbProjector", "spinh", V4("p"), spinh_, smp("p"), funcs=["Spin1hProjector", "Spin1hbProjector"], requires="p^2 > 0"),
          Group("Spin3hProjector", "spinh", V4("p"), spin3h_("F3", 1), smp("p"), funcs=["Spin3hProjector", "gamma_twiddle"], requires="p^2 > 0", nsamp=5, modp=not deep, budget=400),
          Group("Spin3hbProjector", "spinh", V4("p"), spin3h_("B3", -1), smp("p"), funcs=["Spin3hbProjector", "gamma_twiddle"], requires="p^2 > 0", nsamp=5, modp=not deep, budget=400)]
    rep.merge(oblig.discharge(rep.pid, exe, gs, seed, deep))
    rep.std_assumptions()
