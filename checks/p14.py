"""P14: spin vertices: documented couplings, (anti)linearity, Lorentz covariance, spin content of the result."""
import build, oblig
from oblig import Group
from phys import *
from alg import conj
LEVEL = "proof"
X = "xyzt"
SPEC = {}
def vt(f): SPEC[f.__name__] = f; return f
def P(o, n="p"): return [o.v(n + c) for c in X]
def inp(o, c, n):
    if c == "S": return [o.v(n + "0")]
    if c in "VfF": return [o.v("%s%d" % (n, i)) + o.I() * o.v("%si%d" % (n, i)) for i in range(4)]
    if c == "T": return [[o.v("%s%d" % (n, 4 * min(i, j) + max(i, j))) for j in range(4)] for i in range(4)]
    return [[o.v("%s%d" % (n, 4 * i + j)) for j in range(4)] for i in range(4)]
def names(c, n):
    if c == "S": return [n + "0"]
    if c in "VfF": return ["%s%d" % (n, i) for i in range(4)] + ["%si%d" % (n, i) for i in range(4)]
    if c == "T": return ["%s%d" % (n, 4 * i + j) for i in range(4) for j in range(i, 4)]
    return ["%s%d" % (n, i) for i in range(16)]
L_ = lambda o, p, q: pwave(o, p, q)
D_ = lambda o, p, q: dwave(o, p, q)
def sv(o, p, v):
    """Spin-1 projector applied to v"""
    f = dot(o, p, v) / dot(o, p, p); return [v[i] - p[i] * f for i in range(4)]
def levi(o, *v): return eps(o, *v)                # eps^{...} with the non-None slots contracted with lowered vectors
def hproj(o, p, v, sg):
    m = o.sqrt(dot(o, p, p)); s = slashv(o, p, v)
    return [(v[i] + s[i] * sg / m) / 2 for i in range(4)]
def gslash(o, p, V, u):
    """gamma_twiddle^mu V_mu u = slash(V - p (p.V)/p^2) u"""
    return slashv(o, sv(o, p, V), u)
def bil(o, b, u): return S(o, (x * y for x, y in zip(bar(o, b), u)))
vec1 = lambda x: [x]
# ---- bosonic
SPEC["S_SS_S"] = lambda o, p, q, a, b: [a[0] * b[0]]
SPEC["S_VV_S"] = lambda o, p, q, a, b: [dot(o, a, b)]
SPEC["S_VV_S1"] = lambda o, p, q, a, b: [dot(o, sv(o, p, a), b)]
SPEC["S_VV_D"] = lambda o, p, q, a, b: [dot(o, tv(o, D_(o, p, q), b), a)]
SPEC["S_VV_P"] = lambda o, p, q, a, b: [levi(o, a, b, L_(o, p, q), p)]
SPEC["S_VS_P"] = lambda o, p, q, a, b: [dot(o, a, L_(o, p, q)) * b[0]]
SPEC["V_SS_P"] = lambda o, p, q, a, b: vs(a[0] * b[0], L_(o, p, q))
SPEC["V_VS_P"] = lambda o, p, q, a, b: vs(b[0], levi(o, None, a, L_(o, p, q), p))
SPEC["V_VS_S"] = lambda o, p, q, a, b: vs(b[0], sv(o, p, a))
SPEC["V_VS_D"] = lambda o, p, q, a, b: vs(b[0], sv(o, p, tv(o, D_(o, p, q), a)))
SPEC["V_VV_P"] = lambda o, p, q, a, b: vs(dot(o, a, b), L_(o, p, q))
SPEC["V_VV_S"] = lambda o, p, q, a, b: sv(o, p, levi(o, None, p, a, b))
SPEC["V_VV_P1"] = lambda o, p, q, a, b: levi(o, p, L_(o, p, q), sv(o, p, levi(o, None, p, a, b)), None)
def V_VV_P2(o, p, q, a, b):
    A, B, L = sv(o, p, a), sv(o, p, b), L_(o, p, q); la, lb, ab = dot(o, L, A), dot(o, L, B), dot(o, A, B)
    return [(B[i] * la + A[i] * lb) / 2 - L[i] * ab / 3 for i in range(4)]
SPEC["V_VV_P2"] = V_VV_P2
def T_VS_D(o, p, q, a, b):
    G = levi(o, None, p, q, a); L = L_(o, p, q)
    return [[-(G[i] * L[j] + L[i] * G[j]) * b[0] / 2 for j in range(4)] for i in range(4)]
SPEC["T_VS_D"] = T_VS_D
def T_TS_S(o, p, q, a, b):
    s = proj1(o, p); t = [sv(o, p, r) for r in a]; t = [[t[j][i] for j in range(4)] for i in range(4)]; t = [sv(o, p, r) for r in t]
    d = tdot(o, a, s)
    return [[(t[i][j] - s[i][j] * d / 3) * b[0] for j in range(4)] for i in range(4)]
SPEC["T_TS_S"] = T_TS_S
def T_VS_P(o, p, q, a, b):
    L = L_(o, p, q); V = sv(o, p, a); s = proj1(o, p); d = dot(o, L, a)
    return [[((L[i] * V[j] + L[j] * V[i]) / 2 - s[i][j] * d / 3) * b[0] for j in range(4)] for i in range(4)]
SPEC["T_VS_P"] = T_VS_P
SPEC["T_SS_D"] = lambda o, p, q, a, b: sc(a[0] * b[0], D_(o, p, q))
SPEC["S_TV_P"] = lambda o, p, q, a, b: [dot(o, tv(o, a, L_(o, p, q)), b)]
SPEC["S_TS_D"] = lambda o, p, q, a, b: [tdot(o, a, D_(o, p, q)) * b[0]]
def S_TV_D(o, p, q, a, b):
    D = D_(o, p, q); M = [[S(o, (a[i][k] * D[k][j] * g[k] for k in range(4))) for j in range(4)] for i in range(4)]
    E = levi(o, None, None, p, b)
    return [tdot(o, M, E)]
SPEC["S_TV_D"] = S_TV_D
SPEC["S_TT_S"] = lambda o, p, q, a, b: [tdot(o, a, b)]
SPEC["V_TS_P"] = lambda o, p, q, a, b: vs(b[0], sv(o, p, tv(o, a, L_(o, p, q))))
SPEC["V_TS_D"] = lambda o, p, q, a, b: vs(-b[0], levi(o, None, p, q, tv(o, a, L_(o, p, q))) if False else [S(o, (e * x * g[j] for j, (e, x) in enumerate(zip(r, tv(o, a, L_(o, p, q)))))) for r in levi2(o, p, q)])
def levi2(o, p, q):
    """eps^{mu alpha nu beta} p_alpha q_beta with free (mu,nu) at slots 0 and 3"""
    return [[S(o, (S2(o, pm, s, (None, p, q, None)) for pm, s in PERM4 if pm[0] == k and pm[3] == l)) for l in range(4)] for k in range(4)]
# ---- fermion bilinears: V1 = f, V2 = F
SPEC["S_fF_S"] = lambda o, p, q, a, b: [bil(o, b, a)]
SPEC["S_fF_S1"] = lambda o, p, q, a, b: [bil(o, b, g5v(o, a))]
SPEC["V_fF_S"] = lambda o, p, q, a, b: sv(o, p, [bil(o, b, gv(o, mu, a)) for mu in range(4)])
SPEC["V_fF_S1"] = lambda o, p, q, a, b: [bil(o, b, g5v(o, gv(o, mu, a))) for mu in range(4)]
SPEC["V_fF_PL"] = lambda o, p, q, a, b: sv(o, p, [bil(o, a, gv(o, mu, vm(b, g5v(o, b)))) for mu in range(4)])
SPEC["V_fF_PR"] = lambda o, p, q, a, b: sv(o, p, [bil(o, a, gv(o, mu, va(b, g5v(o, b)))) for mu in range(4)])
# ---- fermion vertices (sg=+1 particle projector, -1 antiparticle projector)
def ferm(sg):
    H = lambda o, p, v: hproj(o, p, v, sg)
    s = {}
    s["fS_S"] = lambda o, p, q, a, b: vs(b[0], H(o, p, a))
    s["fS_S1"] = lambda o, p, q, a, b: vs(b[0], H(o, p, g5v(o, a)))
    s["fS_SL"] = lambda o, p, q, a, b: vs(b[0], H(o, p, vm(a, g5v(o, a))))
    s["fS_SR"] = lambda o, p, q, a, b: vs(b[0], H(o, p, va(a, g5v(o, a))))
    s["fS_P"] = lambda o, p, q, a, b: vs(b[0], H(o, p, g5v(o, slashv(o, L_(o, p, q), a))))
    s["fS_P1"] = lambda o, p, q, a, b: vs(b[0], H(o, p, slashv(o, L_(o, p, q), a)))
    s["Vf_S"] = lambda o, p, q, a, b: H(o, p, g5v(o, gslash(o, p, a, b)))
    s["Vf_S1"] = lambda o, p, q, a, b: H(o, p, gslash(o, p, a, b))
    s["Vf_SL"] = lambda o, p, q, a, b: H(o, p, slashv(o, a, vm(b, g5v(o, b))))
    s["Vf_SR"] = lambda o, p, q, a, b: H(o, p, slashv(o, a, va(b, g5v(o, b))))
    s["Vf_P"] = lambda o, p, q, a, b: vs(dot(o, a, L_(o, p, q)), H(o, p, b))
    s["Vf_P2"] = lambda o, p, q, a, b: vs(dot(o, a, L_(o, p, q)), H(o, p, g5v(o, b)))
    s["Vf_P1"] = lambda o, p, q, a, b: H(o, p, g5v(o, gslash(o, p, levi(o, None, a, L_(o, p, q), p), b)))
    s["Vf_P3"] = lambda o, p, q, a, b: H(o, p, gslash(o, p, levi(o, None, L_(o, p, q), a, p), b))
    s["Vf_D"] = lambda o, p, q, a, b: H(o, p, g5v(o, gslash(o, p, tv(o, D_(o, p, q), a), b)))
    s["Vf_D1"] = lambda o, p, q, a, b: H(o, p, gslash(o, p, tv(o, D_(o, p, q), a), b))
    s["Tf_P"] = lambda o, p, q, a, b: H(o, p, gslash(o, p, tv(o, a, L_(o, p, q)), b))
    def rP(o, p, q, a, b):
        L = L_(o, p, q); Ha = H(o, p, a); sl = slashv(o, L, a); out = []
        for mu in range(4):
            gt = vm(gv(o, mu, sl), vs(p[mu] / dot(o, p, p), slashv(o, p, sl)))
            out.append([(-L[mu] * x + y / 3) * b[0] for x, y in zip(Ha, H(o, p, gt))])
        return out
    s["rfS_P"] = rP
    def rD(o, p, q, a, b):
        L = L_(o, p, q); l2 = dot(o, L, L); u = g5v(o, a); sl = slashv(o, L, u); out = []
        for mu in range(4):
            gt = vm(gv(o, mu, u), vs(p[mu] / dot(o, p, p), slashv(o, p, u)))
            out.append(vs(b[0], H(o, p, [L[mu] * x - l2 * y / 3 for x, y in zip(sl, gt)])))
        return out
    s["rfS_D"] = rD
    def con(o, a, L): return [S(o, (a[mu][i] * L[mu] * g[mu] for mu in range(4))) for i in range(4)]
    s["rS_P"] = lambda o, p, q, a, b: vs(b[0], H(o, p, con(o, a, L_(o, p, q))))
    s["rS_P1"] = lambda o, p, q, a, b: vs(b[0], H(o, p, g5v(o, con(o, a, L_(o, p, q)))))
    def frD(o, p, q, a, b):
        D = D_(o, p, q); acc = [o.q(0)] * 4
        for mu in range(4):
            w = con(o, a, D[mu]); gt = vm(gv(o, mu, w), vs(p[mu] / dot(o, p, p), slashv(o, p, w)))
            acc = va(acc, vs(o.q(g[mu]), gt))
        return vs(b[0], H(o, p, g5v(o, acc)))
    s["rS_D"] = frD
    return s
for k, v in ferm(1).items(): SPEC[("r_" if k.startswith("rf") else "f_") + (k[1:] if k.startswith("rf") else k)] = v
for k, v in ferm(-1).items():
    kk = k[1:] if k.startswith("rf") else k
    SPEC[("R_" if k.startswith("rf") else "F_") + kk.replace("f", "F").replace("r", "R")] = v
# ---- radiative B -> K_res gamma couplings: V1 = K_res, V2 = photon
def rad(o, p, q, b):
    P1 = [(x + y) / 2 for x, y in zip(p, q)]; P2 = [(x - y) / 2 for x, y in zip(p, q)]
    pP = o.sqrt(P2[0] * P2[0] + P2[1] * P2[1] + P2[2] * P2[2]); I = o.I()
    h = [I * x / pP for x in (P2[1] * b[2] - P2[2] * b[1], P2[2] * b[0] - P2[0] * b[2], P2[0] * b[1] - P2[1] * b[0])] + [o.q(0)]
    return P1, P2, h
def S_VV_r(flip):
    def f(o, p, q, a, b):
        P1, P2, h = rad(o, p, q, b); x, y = (h, b) if not flip else (b, h)
        return [-o.I() * levi(o, x, a, P1, P2) + dot(o, y, a) * dot(o, P1, P2) - dot(o, y, P1) * dot(o, a, P2)]
    return f
SPEC["S_VV_rp"] = S_VV_r(False); SPEC["S_VV_rm"] = S_VV_r(True)
def S_TV_r(flip):
    def f(o, p, q, a, b):
        P1, P2, h = rad(o, p, q, b); x, y = (b, h) if not flip else (h, b); r = tv(o, a, P1)
        return [-o.I() * levi(o, x, r, P1, P2) + dot(o, y, tv(o, a, P2)) * dot(o, P1, P2) - dot(o, y, P1) * dot(o, r, P2)]
    return f
SPEC["S_TV_rp"] = S_TV_r(False); SPEC["S_TV_rm"] = S_TV_r(True)
def el(t): return t.el if hasattr(t, "el") else [t]
def flat(x): return [z for r in x for z in (r if isinstance(r, list) else [r])]
def vars_(vn, extra=""):
    v = ["p" + c for c in X] + ["q" + c for c in X] + names(vn[2], "a") + names(vn[3], "b")
    return v
def formula(vn):
    def f(o):
        p, q = P(o), P(o, "q"); a = inp(o, vn[2], "a"); b = inp(o, vn[3], "b")
        A = el(o["A"])
        spec = flat(SPEC[vn](o, p, q, a, b))
        yield from eqv("%s = documented coupling" % vn, A, spec)
    return f
NOTRANS = {"V_fF_S1"}
def content(vn):
    c = vn[0]
    def f(o):
        p = P(o); T = o["A"]; R = range(4)
        if c == "V" and vn not in NOTRANS: yield ("p.V = 0", dot(o, p, T.el), o.q(0))
        if c == "T":
            M = T.mat()
            for i in R:
                for j in range(i): yield ("symmetric[%d%d]" % (i, j), M[i][j], M[j][i])
            yield from eqv("p_mu T^{mu nu} = 0", tv(o, M, p), [o.q(0)] * 4)
            yield ("traceless", S(o, (M[i][i] * g[i] for i in R)), o.q(0))
        if c in "fFrR":
            sg = 1 if c in "fr" else -1; m = o.sqrt(dot(o, p, p))
            rows = [T.el] if c in "fF" else T.mat()
            for k, r in enumerate(rows): yield from eqv("Dirac equation[%d]" % k, slashv(o, p, r), vs(m * sg, r))
            if c in "rR":
                for i in R:
                    yield ("p_mu psi^mu = 0 [%d]" % i, S(o, (rows[mu][i] * p[mu] * g[mu] for mu in R)), o.q(0))
                tot = [o.q(0)] * 4
                for mu in R: tot = va(tot, vs(o.q(g[mu]), gv(o, mu, rows[mu])))
                yield from eqv("gamma_mu psi^mu = 0", tot, [o.q(0)] * 4)
    return f
# vertices linear in both arguments except the Dirac-conjugated one
ANTI = {"S_fF_S": 2, "S_fF_S1": 2, "V_fF_S": 2, "V_fF_S1": 2, "V_fF_PL": 1, "V_fF_PR": 1}
def linear(vn):
    def f(o):
        s = o.v("s")
        A, C, AC, D, AD = (el(o[k]) for k in ("A", "C", "AC", "D", "AD"))
        for i in range(len(A)):
            yield ("linear in V1[%d]" % i, AC[i], A[i] * s + C[i])
            yield ("linear in V2[%d]" % i, AD[i], A[i] * s + D[i])
    return f
def cov(vn):
    def f(o):
        yield from eqv("covariant", el(o["LA"]), el(o["AL"]))
    return f
def nbody(o):
    yield from eqv("three-body vector: eps(p,q,r)", o["V"].el, levi(o, None, P(o, "p"), P(o, "q"), P(o, "r")))
    yield ("three-body scalar", o["S"][0], o.q(1))
NOCOV = {"S_VV_rp", "S_VV_rm", "S_TV_rp", "S_TV_rm"}
def smp(vs_, extra=()):
    def f(rng):
        e = {v: rng.uniform(-1, 1) for v in vs_}
        for a in "pqr":
            if a + "t" in e: e[a + "t"] = rng.uniform(1.9, 3)
        return e
    return f
def run(rep, deep, seed):
    exe = build.harness("spin")
    gs = []
    for vn in SPEC:
        v = vars_(vn); F = ["Vertex::" + vn, "Vertex::Factory::getSpinFactor"]
        heavy = not deep
        def G(nm, case, vv, fn, **k): gs.append(Group(nm + " " + vn, case, vv, fn, smp(vv), funcs=F, requires="p^2 > 0", nsamp=k.pop("nsamp", 6), modp=not deep, budget=20, tol=1e-6, **k))
        G("formula", "vtx:" + vn, v, formula(vn)); 
        if vn[0] in "VTfFrR" and vn not in NOTRANS: G("spin content", "vtx:" + vn, v, content(vn), nsamp=3)
        lv = v + [n for n in names(vn[2], "c") + names(vn[3], "d")] + ["s"]
        G("linearity", "lin:" + vn, lv, linear(vn), nsamp=2)
        if vn not in NOCOV:
            for g_ in ((0, 1, 2, 3, 4, 5) if deep else (0, 1, 5)): G("covariance gen %d" % g_, "cov%d:%s" % (g_, vn), v, cov(vn), nsamp=2)
    gs.append(Group("three-body vertices", "nbody", ["%s%s" % (a, c) for a in "pqr" for c in X] + ["a0", "b0", "c0"], nbody, smp(["%s%s" % (a, c) for a in "pqr" for c in X] + ["a0", "b0", "c0"]), funcs=["Vertex::Factory::getSpinFactorNBody"]))
    rep.merge(oblig.discharge(rep.pid, exe, gs, seed, deep))
    rep.std_assumptions()
    rep.extra["vertices"] = sorted(SPEC)
