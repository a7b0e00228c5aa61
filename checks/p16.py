"""P16: K-matrix amplitudes are F = (1 - i K rho)^-1 P and unitary."""
import math
import build, oblig
from oblig import Group
from alg import conj, im, re
from p15 import csq, q2_, absr
LEVEL = "proof"
def matinv(o, M):
    n = len(M); A = [list(M[i]) + [o.q(1) if i == j else o.q(0) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = o.q(1) / A[c][c]; A[c] = [x * p for x in A[c]]
        for r in range(n):
            if r != c:
                f = A[r][c]; A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [row[n:] for row in A]
def Fmat(o, K, rho):
    n = len(rho); return matinv(o, [[(o.q(1) if i == j else o.q(0)) - o.I() * K[i][j] * rho[j] for j in range(n)] for i in range(n)])
def mul(A, B): return [[sum((A[i][k] * B[k][j] for k in range(1, len(B))), A[i][0] * B[0][j]) for j in range(len(B[0]))] for i in range(len(A))]
def unitarity(o, T, rho):
    n = len(rho)
    for i in range(n):
        for j in range(n):
            r = o.q(0)
            for k in range(n): r = r + conj(T[k][i]) * rho[k] * T[k][j]
            yield ("unitarity T-T^+ = 2i T^+ rho T (%d,%d)" % (i, j), T[i][j] - conj(T[j][i]), 2 * o.I() * r)
def f_prop(n):
    def fn(o):
        F = o["F"].mat() if n > 1 else [[o["F"][0, 0]]]; rho = [o.v("r%d" % i) for i in range(n)]
        M = [[(o.q(1) if i == j else o.q(0)) - o.I() * o.v("k%d%d" % (i, j)) * rho[j] for j in range(n)] for i in range(n)]
        L, R = mul(F, M), mul(M, F)
        for i in range(n):
            for j in range(n):
                d = o.q(1 if i == j else 0); yield ("F(1-iK rho)=1 (%d,%d)" % (i, j), L[i][j], d); yield ("(1-iK rho)F=1 (%d,%d)" % (i, j), R[i][j], d)
    return fn
def f_K(n, np):
    def fn(o):
        K = [[o["K"][i, j] for j in range(n)] for i in range(n)]; s = o.v("s"); rho = [o.v("r%d" % i) for i in range(n)]
        for i in range(n):
            for j in range(n):
                r = o.q(0)
                for p in range(np): r = r + o.v("g%d%d" % (p, i)) * o.v("g%d%d" % (p, j)) / (o.v("m%d" % p) - s)
                yield ("K(%d,%d) = sum of poles" % (i, j), K[i][j], r)
        F = [[o["F"][i, j] for j in range(n)] for i in range(n)]
        yield from unitarity(o, mul(F, K), rho)
    return fn
def f_phsp(o):
    s = o.v("s"); q = o.q
    yield ("two-body", o["two"], csq(o, 1 - q(9, 16) / s)); yield ("FOCUS two-body", o["focus"], csq(o, (1 - q(9, 16) / s) * (1 - q(1, 16) / s)))
    yield ("coupling from width", o["g"] * o["g"], o.v("m") * o.v("w") / o.v("r"))
    yield ("four pion", o["four"], four(o, s))
    for i in range(4): yield ("parameter %d" % i, o["x%d" % i], o.v("xx%d" % i))
    yield ("number of parameters", o["nx"], o.q(4))
def two(o, s, a, b):
    m = o.D.const(a) + o.D.const(b); return csq(o, 1 - m * m / s)
def four(o, s):
    if o.D.compare(">", s, o.q(1)): return two(o, s, 0.27914, 0.27914)
    r = o.q(0)
    for c in (1.07885, 0.13655, -0.29744, -0.20840, 0.13851, -0.01933, 0.00051): r = r * s + o.D.const(c)
    return r
CH = ["pipi", "KK", "4pi", "EtaEta", "EtapEta"]
def as_(o, fp):
    s = o.v("s"); c = o.D.const; sA, sA0, s0 = o.v("sA"), o.v("sA0"), o.v("s0_scatt")
    rho = [two(o, s, .139570, .139570), two(o, s, .493677, .493677), four(o, s), two(o, s, .547862, .547862), two(o, s, .547862, .967780)]
    m2 = [o.v("IS_p%d_mass" % p) * o.v("IS_p%d_mass" % p) + (o.I() * c(1e-6) if fp else o.q(0)) for p in range(1, 6)]
    g = [[o.v("IS_p%d_%s" % (p, n)) for n in CH] for p in range(1, 6)]
    adler = (1 - sA0) * (s - sA * c(.139570) * c(.139570) / 2) / (s - sA0); fs = (1 - s0) / (s - s0)
    K = [[None] * 5 for _ in range(5)]
    for i in range(5):
        for j in range(5):
            r = o.q(0)
            for p in range(5): r = r + g[p][i] * g[p][j] / (m2[p] - s)
            if i == 0 or j == 0: r = r + o.v("f_scatt%d" % max(i, j)) * fs
            K[i][j] = adler * r
    return s, rho, m2, g, K, Fmat(o, K, rho)
def f_kM(o):
    s, rho, m2, g, K, F = as_(o, False); T = mul(F, K); s0 = o.v("f(0)(980)0_s0_prod")
    for i in range(5):
        for j in range(5): yield ("scattering amplitude %d,%d" % (i, j), o["scatt%d%d" % (i, j)], T[j][i])
        for nm, row in (("", 0), ("KK", 1)):
            r = o.q(0)
            for k in range(5): r = r + F[row][k] * g[i][k]
            yield ("pole%s %d" % (nm, i), o["pole%s%d" % (nm, i)] * (m2[i] - s), r)
            yield ("slowly varying production%s %d" % (nm, i), o["prod%s%d" % (nm, i)], F[row][i] * (1 - s0) / (s - s0))
    if o.D.compare(">", s, o.D.const(2.3)):
        Tc = [[o["scatt%d%d" % (i, j)] for j in range(5)] for i in range(5)]
        yield from unitarity(o, Tc, rho)
def f_kM1(fp, p):
    def fn(o):
        s, rho, m2, g, K, F = as_(o, fp); r = o.q(0)
        for k in range(5): r = r + F[0][k] * g[p][k]
        yield ("pole term %d" % p, o["pole"] * (m2[p] - s), r)
    return fn
def f_simple(np, nc, C):
    ms = [("pi+", "pi+"), ("K+", "K+"), ("pi+", "K+")][:nc]
    def fn(o):
        s = o.v("s"); rho = [two(o, s, C[a], C[b]) for a, b in ms]; g = []; m2 = []
        for p in range(1, np + 1):
            m = o.v("kMatrix::pole::%d::mass" % p); m2.append(m * m)
            g.append([o.sqrt(m * o.v("kMatrix::pole::%d::width::%d" % (p, c)) / two(o, m * m, C[a], C[b])) for c, (a, b) in enumerate(ms)])
        K = [[sum((g[p][i] * g[p][j] / (m2[p] - s) for p in range(1, np)), g[0][i] * g[0][j] / (m2[0] - s)) for j in range(nc)] for i in range(nc)]
        F = Fmat(o, K, rho)
        for p in range(np):
            r = o.q(0)
            for k in range(nc): r = r + F[0][k] * g[p][k]
            yield ("pole term %d" % p, o["A%d" % p] * (m2[p] - s), r)
    return fn
X = "f(0)(980)0"
def f_gen(ty, nr, np, nc):
    def fn(o):
        s = o["s"]; rho = [o["rho%d" % i] for i in range(nc)]; m2 = []; g = []
        for p in range(1, np + 1):
            m = o.v("%s::pole::%d::mass" % (X, p)); m2.append(m * m); g.append([o.v("%s::pole::%d::g::%d" % (X, p, c + 1)) for c in range(nc)])
        def N(i, j):
            i, j = min(i, j) + 1, max(i, j) + 1; f = o.v("%s::f1::%d::%d" % (X, i, j))
            if nr == "flat": return f
            return (f + o.v("%s::f2::%d::%d" % (X, i, j)) * o.sqrt(s)) / (s - o.v("%s::s0::%d::%d" % (X, i, j)))
        K = [[sum((g[p][i] * g[p][j] / (m2[p] - s) for p in range(np)), N(i, j)) for j in range(nc)] for i in range(nc)]
        F = Fmat(o, K, rho)
        if ty == "QVec":
            r = o.q(0)
            for i in range(nc): r = r + F[0][i] * K[i][0]
            yield ("elastic scattering amplitude", o["A"], r)
        elif ty == "ZVec":
            for p in range(np):
                for ch in range(nc):
                    r = o.q(0)
                    for i in range(nc): r = r + F[ch][i] * g[p][i]
                    yield ("pole %d in channel %d" % (p, ch), o["A%dc%d" % (p, ch)] * (m2[p] - s), r)
                    if ch == 0: yield ("pole %d in the channel of the decay" % p, o["A%d" % p] * (m2[p] - s), r)
        else:
            a = [o.v("%s::a::%d" % (X, k + 1)) for k in range(nc)]; s0 = o.v(X + "::s0"); r = o.q(0)
            for k in range(nc):
                P = sum((a[q] * N(k, q) for q in range(nc)), o.q(0)) * (1 + s0) / (s - s0)
                for p in range(np): P = P + sum((a[q] * g[p][q] for q in range(nc)), o.q(0)) * g[p][k] / (m2[p] - s)
                r = r + F[0][k] * P
            yield ("production amplitude F = (1-iK rho)^-1 P", o["A"], r)
    return fn
def pl(o, cs, x):
    r = o.q(0)
    for c in reversed(cs): r = r * x + o.D.const(c)
    return r
def kpi(o, which, C):
    s = o.v("s"); mK, mP = o.D.const(C["K+"]), o.D.const(C["pi+"]); sN = mK * mK + mP * mP; c = o.D.const
    if which == "FOCUS":
        X = s / sN - 1; ad, ad3 = (s - c(.23)) / sN, (s - c(.27)) / sN; poles = [(1.7919, (.31072, -.02323))]
        sc = {(0, 0): (.79299, -.15099, .00811), (1, 1): (.17054, -.0219, .00085655), (0, 1): (.15040, -.038266, .0022596)}; d3 = (-.22147, .026637, -.00092057)
        ps = lambda a, b: csq(o, (1 - (a + b) * (a + b) / s) * (1 - (a - b) * (a - b) / s)); e = c(C["eta'(958)0"])
    else:
        X = (2 * s - c(5.832) - c(.360)) / c(5.472); ad, ad3 = s / sN - c(.87753), s / sN - c(1.0209); poles = [(1.7991, (.3139, -.00775)), (8.3627, (1.1804, -.22335))]
        sc = {(0, 0): (-.1553, .0909, .8618, .0629), (1, 1): (-.0036, .2590, 1.6950, 2.2300), (0, 1): (.0738, .3866, 1.2195, .8390)}; d3 = (-.04046, .08143, -.08849)
        ps = lambda a, b: csq(o, 1 - (a + b) * (a + b) / s); e = c(C["eta0"])
    rho = [ps(mK, mP), ps(mK, e)]; K = [[None] * 2 for _ in range(2)]
    for i in range(2):
        for j in range(2):
            r = pl(o, sc[(min(i, j), max(i, j))], X)
            for m, g in poles: r = r + c(g[i]) * c(g[j]) / (c(m) - s)
            K[i][j] = ad * r
    return rho, K, ad3 * pl(o, d3, X)
def f_kpi(which, C):
    def fn(o):
        rho, K, K3 = kpi(o, which, C); T = mul(Fmat(o, K, rho), K)
        yield ("T_11", o["Kpi"], T[0][0]); yield ("T_12", o["KEta"], T[0][1])
    return fn
def f_kpiU(which, C):
    def fn(o):
        rho, K, K3 = kpi(o, which, C); yield ("unitarity of the K pi wave", im(o["Kpi"]), rho[0] * o["Kpi"] * conj(o["Kpi"]) + rho[1] * o["KEta"] * conj(o["KEta"]))
    return fn
def f_kpi3(which, C):
    def fn(o):
        rho, K, K3 = kpi(o, which, C); yield ("I=3/2 propagator", o["A"] * (1 - o.I() * K3 * rho[0]), o.q(1))
    return fn
def uni(vs, lo=.2, hi=2., s=None):
    def f(rng):
        e = {v: rng.uniform(lo, hi) for v in vs}
        if s: e["s"] = rng.uniform(*s)
        return e
    return f
def groups(deep, C):
    g = []; B = 120 if deep else 8
    for n in range(1, 6):
        vs = ["r%d" % i for i in range(n)] + ["k%d%d" % (i, j) for i in range(n) for j in range(n)]
        g.append(Group("getPropagator n=%d" % n, "prop%d" % n, vs, f_prop(n), budget=B, modp=n > 2, funcs=["getPropagator"], nsamp=20, tol=1e-6, requires="non-vanishing pivots"))
    for n in range(1, 6):
        for np in range(6):
            if n > 3 and np > 3 and not (n == np == 5 or deep): continue
            vs = ["s"] + ["r%d" % i for i in range(n)] + ["m%d" % p for p in range(np)] + ["g%d%d" % (p, i) for p in range(np) for i in range(n)]
            g.append(Group("constructKMatrix %d channels %d poles" % (n, np), "K%d%d" % (n, np), vs, f_K(n, np), budget=B, modp=n * np > 2, funcs=["constructKMatrix", "getPropagator"], tol=1e-5, nsamp=20, requires="real couplings and phase space, s off the poles"))
    P_ = dict(paths="concolic", peval=True)
    g.append(Group("phase space", "phsp", ["s", "m", "w", "r"] + ["xx%d" % i for i in range(4)], f_phsp, uni(["m", "w", "r"] + ["xx%d" % i for i in range(4)], s=(.02, 3)), funcs=["phsp_twoBody", "phsp_FOCUS", "phsp_fourPi", "gFromGamma", "paramVector"], budget=20, **P_))
    kv = ["s", "sA", "sA0", "s0_scatt", X + "_s0_prod"] + ["f_scatt%d" % i for i in range(5)] + ["IS_p%d_mass" % p for p in range(1, 6)] + ["IS_p%d_%s" % (p, c) for p in range(1, 6) for c in CH]
    def ks(rng):
        e = {v: rng.uniform(-1, 1) for v in kv}; e["s"] = rng.uniform(.05, 4); e["sA0"] = rng.uniform(-1, -.1); e["s0_scatt"] = rng.uniform(-4, -.5); e[X + "_s0_prod"] = rng.uniform(-4, -.5)
        for p in range(1, 6): e["IS_p%d_mass" % p] = rng.uniform(.4, 2)
        return e
    g.append(Group("kMatrix: all amplitudes", "kM", kv, f_kM, ks, modp=True, funcs=["Lineshape::kMatrix::get"], tol=1e-5, nsamp=10, ntrace=40, **P_))
    for fp in (0, 1):
        for p in (0, 4): g.append(Group("kMatrix pole %d fp=%d" % (p, fp), "kM1_%d%d" % (fp, p), kv, f_kM1(fp, p), ks, modp=True, funcs=["Lineshape::kMatrix::get"], tol=1e-5, nsamp=10, ntrace=30, **P_))
    for np in range(1, 4):
        for nc in range(1, 4):
            if np * nc > 6: continue
            vs = ["s"] + ["kMatrix::pole::%d::mass" % p for p in range(1, np + 1)] + ["kMatrix::pole::%d::width::%d" % (p, c) for p in range(1, np + 1) for c in range(nc)]
            g.append(Group("kMatrixSimple %d poles %d channels" % (np, nc), "simple%d%d" % (np, nc), vs, f_simple(np, nc, C), uni(vs, 1.0, 2.5, (.05, 4)), modp=True, funcs=["Lineshape::kMatrixSimple::get"], tol=1e-5, ntrace=12, **P_))
    for np in range(1, 4):
        for nc in range(1, 4):
            for ty in ("PVec", "QVec", "ZVec"):
                for nr in ("flat", "pole"):
                    vs = ["%d_%s" % (i, c) for i in (0, 1) for c in ("Px", "Py", "Pz", "E")] + ["%s::pole::%d::mass" % (X, p) for p in range(1, np + 1)] + ["%s::pole::%d::g::%d" % (X, p, c) for p in range(1, np + 1) for c in range(1, nc + 1)]
                    vs += ["%s::%s::%d::%d" % (X, f, i, j) for f in (("f1",) if nr == "flat" else ("f1", "f2", "s0")) for i in range(1, nc + 1) for j in range(i, nc + 1)] + ["%s::a::%d" % (X, k) for k in range(1, nc + 1)] + [X + "::s0", X + "_radius"]
                    def smp(rng, vs=vs):
                        e = {v: rng.uniform(.2, 2) for v in vs}
                        for i in (0, 1):
                            for c in ("Px", "Py", "Pz"): e["%d_%s" % (i, c)] = rng.uniform(-.6, .6)
                            e["%d_E" % i] = math.sqrt(sum(e["%d_%s" % (i, c)] ** 2 for c in ("Px", "Py", "Pz")) + rng.uniform(.01, .2))
                        return e
                    g.append(Group("GenericKmatrix %s %s %d poles %d channels" % (ty, nr, np, nc), "gen%s%s%d%d" % (ty, nr, np, nc), vs, f_gen(ty, nr, np, nc), smp, modp=True, funcs=["Lineshape::GenericKmatrix::get"], tol=1e-5, nsamp=20, ntrace=30, **P_))
    for w in ("FOCUS", "PALANO"):
        g.append(Group(w, w, ["s"], f_kpi(w, C), uni([], s=(.3, 4)), budget=B * 3, funcs=["Lineshape::%s::get" % w], tol=1e-6, **P_))
        th = 2.2
        g.append(Group(w + " unitarity", w, ["s"], f_kpiU(w, C), uni([], s=(th, 5)), budget=B * 3, funcs=["Lineshape::%s::get" % w], tol=1e-6, requires="both channels open", **P_))
        g.append(Group(w + " I=3/2", w + ".I32", ["s"], f_kpi3(w, C), uni([], s=(.3, 4)), budget=B * 3, funcs=["Lineshape::%s::get" % w], tol=1e-6, **P_))
    return g
def run(rep, deep, seed):
    exe = build.harness("kmat")
    C = {r["out"]: r["num"] for r in oblig.run_harness(exe, ["const"])["recs"] if "num" in r}
    rep.merge(oblig.discharge(rep.pid, exe, groups(deep, C), seed, deep))
    d = [x["json"] for x in oblig.run_harness(exe, ["defaults"])["recs"] if "json" in x]; W = {"sA0": -.15, "sA": 1., "s0_scatt": -3.92637, "_s0_prod": -.07}; n = 0
    for k, x in (d[0] if d else {}).items():
        e = next((y for z, y in W.items() if k == z or (z[0] == "_" and k.endswith(z))), None)
        if e is None: continue
        n += 1
        if not abs(x - e) < 1e-12: rep.violate("Lineshape::kMatrix::get", "default value of %s" % k, True, "real code on a concrete input", parameter=k, default=x, published=e)
    if n: rep.ob_many("Lineshape::kMatrix::get", "the constants of the isoscalar matrix default to the published values", n, "evaluation")
    rep.std_assumptions()
