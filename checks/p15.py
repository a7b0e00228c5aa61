"""P15: propagators and barrier factors are the documented functions of the invariant masses."""
import math
from fractions import Fraction
import build, oblig
from oblig import Group
from alg import conj, im, re
LEVEL = "proof"
# ---- oracle: barrier polynomials from the spherical Hankel functions, |x^(L+1) h_L(x)|^2 with z = x^2 (reverse Bessel recursion)
def barrier(L):
    # theta_n(ix): pairs (real poly in z, imag poly / x in z)
    def mulz(p): return [0] + p
    def add(a, b, k=1):
        n = max(len(a), len(b)); return [(a[i] if i < len(a) else 0) + k * (b[i] if i < len(b) else 0) for i in range(n)]
    # theta_0 = 1, theta_1 = y+1 with y = ix ; y^2 = -z
    t = [([1], [0]), ([1], [1])]
    for n in range(2, L + 1):
        a, b = t[n - 1], t[n - 2]
        t.append((add([(2 * n - 1) * c for c in a[0]], mulz(b[0]), -1), add([(2 * n - 1) * c for c in a[1]], mulz(b[1]), -1)))
    r, i = t[L]
    def mul(a, b):
        o = [0] * (len(a) + len(b) - 1)
        for x, u in enumerate(a):
            for y, v in enumerate(b): o[x + y] += u * v
        return o
    return add(mul(r, r), mulz(mul(i, i)))
def ev(p, z):
    r = 0 * z
    for c in reversed(p): r = r * z + c
    return r
def PL(L, z): return ev(barrier(L), z)
def lam(a, b, c): return a * a + b * b + c * c - 2 * a * b - 2 * a * c - 2 * b * c
def q2_(s, a, b): return lam(s, a, b) / (4 * s)
def absr(o, x): return x if o.D.compare(">=", x, o.q(0)) else -x
def B(o, L, z): return o.q(sum(barrier(L))) * z ** L / PL(L, z)
def N(o, L, z, z0): return PL(L, z0) / PL(L, z)
def kf(o, m, w):
    g = m * o.sqrt(m * m + w * w)
    return o.sqrt(o.sqrt(o.q(8)) / o.D.pi() * m * w * g / o.sqrt(m * m + g))
def width(o, s, s1, s2, m, w, r, L):
    q2 = q2_(s, s1, s2); q2 = q2 if o.D.compare(">", q2, o.q(0)) else o.q(0); q0 = absr(o, q2_(m * m, s1, s2))
    return w * N(o, L, q2 * r * r, q0 * r * r) * m * o.sqrt(q2 / q0 / s) * (q2 / q0) ** L
PN = "rho(770)0"
def par(o, n=PN): return o.v(n + "_mass"), o.v(n + "_width"), o.v(n + "_radius")
def kin(o): return o.v("s"), o.v("s1"), o.v("s2")
def f_q2(o):
    s, a, b = kin(o)
    yield ("4 s q^2 = Kallen function", 4 * s * o["q2"], lam(s, a, b)); yield ("symmetric in the masses", o["q2"], o["q2r"])
    yield ("k factor", o["kf"], kf(o, o.v("m"), o.v("w")))
    yield ("polynomial", o["pol"], a + b * s + o.v("m") * s * s + o.v("w") * s * s * s); yield ("empty polynomial", o["pol0"], o.q(0)); yield ("constant polynomial", o["pol1"], o.v("m"))
def f_bw(L):
    def fn(o):
        z, z0 = o.v("z"), o.v("z0")
        yield ("penetration factor", o["B"], B(o, L, z)); yield ("unity at qR = 1", o["B1"], o.q(1))
        yield ("relative barrier factor", o["N"], N(o, L, z, z0)); yield ("normalised at zero", o["N0"], N(o, L, z, o.q(0)))
        yield ("the two normalisations agree", o["N"] * z ** L * B(o, L, z0), o["B"] * z0 ** L)
    return fn
def f_BL(L):
    def fn(o):
        s, a, b = kin(o); m, r = o.v("m"), o.v("r")
        x, y = absr(o, q2_(s, a, b)) * r * r, absr(o, q2_(m * m, a, b)) * r * r
        yield ("squared form factor", o["BL"] * o["BL"], B(o, L, x) / B(o, L, y)); yield ("one at the pole", o["BLp"] * o["BLp"], o.q(1))
    return fn
def f_width(L):
    def fn(o):
        s, a, b = kin(o); m, w, r = o.v("m"), o.v("w0"), o.v("r")
        yield ("running width", o["w"], width(o, s, a, b, m, w, r, L))
        if o.D.compare(">", q2_(m * m, a, b), o.q(0)): yield ("nominal width at the pole", o["wp"] * o["wp"], w * w)
        else: yield ("no width below threshold", o["wp"], o.q(0))
    return fn
def ffac(o, q2, q0, r, L, mod):
    if mod == "NFF": return o.q(1)
    if mod == "BL": return o.sqrt(B(o, L, q2 * r * r))
    if mod == "BELLE2018": return o.sqrt(N(o, L, q2 * r * r, q0 * r * r))
    if mod.startswith("L"): L = int(mod[1:])
    return o.sqrt(N(o, L, q2 * r * r, o.q(0)))
def f_BW(L, mod, n=PN):
    def fn(o):
        s, a, b = kin(o); m, w, r = par(o, n)
        F = ffac(o, absr(o, q2_(s, a, b)), absr(o, q2_(m * m, a, b)), r, L, mod)
        D = m * m - s - o.I() * m * width(o, s, a, b, m, w, r, L)
        k = o.q(1) if mod == "BELLE2018" else kf(o, m, w)
        yield ("A(s) = k F / (m^2 - s - i m Gamma(s))", o["A"] * D, k * F)
    return fn
def f_FF(L, mod):
    def fn(o):
        s, a, b = kin(o); m, w, r = par(o)
        yield ("form factor", o["A"], ffac(o, q2_(s, a, b), q2_(m * m, a, b), r, L, mod))
    return fn
def f_exp(o):
    s, a, b = kin(o); r = o.v(PN + "_radius")
    yield ("exponential form factor", o["A"], o.D.exp(-q2_(s, a, b) * r * r / 2))
def f_SBW(o):
    s, a, b = kin(o); m, w, r = par(o)
    yield ("fixed width", o["A"] * (m * m - s - o.I() * m * w), kf(o, m, w))
def f_NR(o):
    s = o.v("s"); m, w, r = par(o)
    yield ("non-relativistic", o["A"] * (o.sqrt(s) - m - o.I() * w / 2), o.sqrt(w / 2 / o.D.pi()))
def f_photon(o):
    m = o.v(PN + "_mass"); yield ("photon propagator", o["A"] * (o.v("s") - m * m), o.q(1))
def f_none(o): yield ("unity", o["A"], o.q(1))
def f_gauss(o):
    d = o.v("s") - o.v("gg_mean"); g = o.v("gg_sigma"); yield ("gaussian", o["A"], o.D.exp(-d * d / (2 * g * g)))
def f_poly(d):
    def fn(o):
        r = o.q(0)
        for i in range(d, -1, -1): r = r * o.v("s") + o.v("pp%d_c%d" % (d, i))
        yield ("polynomial of degree %d" % d, o["A"], r)
    return fn
def f_GS(L, mod, mpi):
    def fn(o):
        s, a, b = kin(o); m, w, r = par(o); s0 = m * m
        mp = o.D.const(mpi); e2 = lambda x: x - 4 * mp * mp
        def q(x):
            return o.sqrt(e2(x)) if o.D.compare(">", e2(x), o.q(0)) else o.q(0)
        lg = lambda x: o.D.fn("log", [(o.sqrt(x) + q(x)) / (2 * mp)])
        h = 2 * s0 * e2(s) * q(s) * lg(s) / (o.sqrt(s) * q(s0) ** 3)
        h0 = lg(s0) * (e2(s) * (s - 3 * s0) + s * (s0 - s)) / (m * e2(s0)); d = (s0 - s) / q(s0)
        D = s0 + w * (h + h0 + d) / o.D.pi() - s - o.I() * m * width(o, s, a, b, m, w, r if mod == "IncludeRadiusInWidth" else o.q(0), L)
        yield ("Gounaris-Sakurai propagator", o["A"] * D, kf(o, m, w) * ffac(o, absr(o, q2_(s, a, b)), None, r, L, mod if mod == "BL" else ""))
    return fn
KN = "K(0)*(1430)0"
def lass_parts(o):
    s, a, b = kin(o); m, w = o.v(KN + "_mass"), o.v(KN + "_width"); A, R = o.v("LASS::a"), o.v("LASS::r")
    q2 = q2_(s, a, b); q = o.sqrt(q2) if o.D.compare(">", q2, o.q(0)) else o.q(0)
    rho = q / o.sqrt(s); rho0 = o.sqrt(q2_(m * m, a, b)) / m
    I = o.I(); x = 2 + A * R * q2; 
    NRt = 2 * A * o.sqrt(s) / (x - 2 * I * A * q)
    bw = m * w / (rho0 * (m * m - s - I * m * w * rho / rho0))
    ph = (x + 2 * I * A * q) / (x - 2 * I * A * q)
    return NRt, bw * ph, rho, q
def f_lass(mod):
    def fn(o):
        nr, bw, rho, q = lass_parts(o); above = o.D.compare(">", q2_(*kin(o)), o.q(0))
        if not above and mod != "BW":   # below threshold q is set to zero inside q but not in a r q^2
            return
        yield ("LASS %s" % (mod or "amplitude"), o["A"], {"": nr + bw, "BW": bw, "NR": nr}[mod])
        if mod == "": yield ("elastic unitarity: Im A = rho |A|^2", im(o["A"]), rho * o["A"] * conj(o["A"]))
    return fn
def f_glass(o):
    s, a, b = kin(o); m, w = o.v(KN + "_mass"), o.v(KN + "_width"); g = lambda n: o.v(KN + "::GLASS::" + n)
    q2 = q2_(s, a, b); q20 = q2_(m * m, a, b)
    if not o.D.compare(">", q2, o.q(0)): return
    q = o.sqrt(q2); I = o.I(); A, R = g("a"), g("r"); x = 1 + R * A * q2 / 2
    cF, sF, cR, sR = o.D.cos(g("phiF")), o.D.sin(g("phiF")), o.D.cos(g("phiR")), o.D.sin(g("phiR"))
    den = x - I * A * q
    rbw = m * m * w / (o.sqrt(q20) * (m * m - s - I * m * w * m * o.sqrt(q2 / (q20 * s))))
    if o.D.name == "float": e = o.D.exp(I * (g("phiR") + 2 * g("phiF")))
    else:
        e = o.D.exp(I * (g("phiR") + 2 * g("phiF")))
    res = g("R") * e * rbw * (x + I * A * q); nr = g("F") * o.D.exp(I * g("phiF")) * (A * q * cF + x * sF) * o.sqrt(s) / q
    yield ("generalised LASS", o["A"] * den, res + nr)
def csq(o, x): return o.sqrt(x) if o.D.compare(">", x, o.q(0)) else o.I() * o.sqrt(-x)
def cut(o, x): return o.sqrt(x) if o.D.compare(">", x, o.q(0)) else o.q(0)
def f_flatte(C, mod):
    def fn(o):
        s = o.v("s"); m = o.v("f(0)(980)0_mass"); ps = lambda k, f=csq: f(o, 1 - 4 * o.D.const(C[k]) * o.D.const(C[k]) / s)
        KK = (ps("K0", cut if mod else csq) + ps("K+", cut if mod else csq)) / 2
        G = o.v("Flatte::gPi") * ((ps("pi0") + 2 * ps("pi+")) / 3 + o.v("Flatte::gK_by_gPi") * KK)
        yield ("Flatte f0", o["A"] * (m * m - s - o.I() * m * G), o.q(1))
    return fn
def f_flatteA(C):
    def fn(o):
        s = o.v("s"); m = o.v("a(0)(980)0_mass"); a, b = o.D.const(C["pi+"]), o.D.const(C["eta0"])
        G = o.v("Flatte::g2pieta") * (o.sqrt((1 - (a - b) * (a - b) / s) * (1 - (a + b) * (a + b) / s)) + o.v("Flatte::g2KK_by_g2pieta") * csq(o, 1 - 4 * o.D.const(C["K+"]) * o.D.const(C["K+"]) / s))
        yield ("Flatte a0", o["A"] * (m * m - s - o.I() * m * G), o.q(1))
    return fn
def f_iso(o):
    s = o.v("s"); k = o.sqrt(s / 4 - o.D.const(0.139570) * o.D.const(0.139570)); n = lambda x: o.v("Isotensor::" + x)
    ps = -2 * (n("a") * o.D.pi() / 180) * k / (1 + n("b") * s + n("c") * s * s + n("d") * s * s * s)
    yield ("I=2 phase shift amplitude", o["A"], (o.D.exp(o.I() * ps) - 1) / (2 * o.I()))
    yield ("elastic unitarity", im(o["A"]), o["A"] * conj(o["A"]))
def f_bugg(mod):
    def fn(o):
        s = o.v("s"); n = lambda x: o.v("Bugg::" + x); M, b1, b2, A = n("M"), n("b1"), n("b2"), n("A"); c = o.D.const; sq = lambda x: c(x) * c(x)
        mp, mk, me = 0.139570, 0.493677, 0.547863
        sA = n("sA") * sq(mp); E = o.D.exp; log = lambda x: o.D.fn("log", [x])
        def j1(x):
            a2 = 1 - 4 * sq(mp) / x; r = o.sqrt(a2) if o.D.compare(">", a2, o.q(0)) else o.q(0)
            if not o.D.compare(">", r, o.q(0)): return 2 / o.D.pi()
            return (2 + r * log((1 - r) / (1 + r))) / o.D.pi()
        g = M * (b1 + b2 * s) * E(-(s - M * M) / A); az = g * (s - sA) / (M * M - sA)
        q = lambda m: (s - 4 * sq(m)) if o.D.compare(">", s, 4 * sq(m)) else (4 * sq(m) - s)
        ch = lambda gg, m: gg * g * s / (M * M) * E(-n("alpha") * q(m)) * csq(o, 1 - 4 * sq(m) / s)
        r4 = lambda x: 1 / (1 + E(n("lambda_4pi") * (n("s0_4pi") - x)))
        G4 = M * n("g_4pi") * r4(s) / r4(M * M) if o.D.compare(">", s, 16 * sq(mp)) else o.q(0)
        tot = az * csq(o, 1 - 4 * sq(mp) / s) + ch(n("g_2K"), mk) + ch(n("g_2eta"), me) + G4
        D = M * M - s - az * (j1(s) - j1(M * M)) - o.I() * tot
        yield ("Bugg sigma propagator", o["A"] * D, (s - sA) * g if mod else o.q(1))
    return fn
def rho2b(o, s, a, b): return csq(o, lam(s, a, b)) / (16 * o.D.pi() * s)
def f_psp(o):
    s = o.v("s"); mp, mk = o.meta_c["pi+"], o.meta_c["K+"]
def phsp(o, s, m1, m2, l, R):
    k2 = q2_(s, m1, m2); k2p = k2 if o.D.compare(">", k2, o.q(0)) else o.q(0)
    return rho2b(o, s, m1, m2) * B(o, l, k2p * R * R)
def f_cc(L, mod):
    def fn(o):
        s, a, b = kin(o); m, w, r = par(o); tot = o.q(0); pole = o.q(0)
        for i in (0, 1):
            l = int(round(complex(float(o["L%d" % i].real) if o.D.name == "float" else 1).real)) if False else 1
            g = o.v("rho_g%d" % (i + 1)); m1, m2 = o["m1%d" % i], o["m2%d" % i]
            tot = tot + g * phsp(o, s, m1, m2, l, r); 
            if mod == "norm": pole = pole + g * phsp(o, m * m, m1, m2, l, r)
        F = ffac(o, absr(o, q2_(s, a, b)), None, r, L, "BL" if mod == "BL" else "")
        if mod == "norm": tot = tot * w / pole
        yield ("coupled channel propagator", o["A"] * (m * m - s - o.I() * m * tot), kf(o, m, w) * F)
    return fn
def f_phsp(C):
    def fn(o):
        s = o.v("s"); mp = o.D.const(C["pi+"]); mk = o.D.const(C["K+"]); R = o.v(PN + "_radius"); p2 = mp * mp
        for l in (0, 1, 2): yield ("two-body phase space l=%d" % l, o[{0: "rho0", 1: "rho", 2: "rho2"}[l]], phsp(o, s, p2, p2, l, R))
        yield ("arXiv:0707.3596 form", o["AS"] * o["AS"], 4 * q2_(s, p2, mk * mk) / s)
    return fn
def f_cm(l):
    def fn(o):
        s = o.v("s"); k2 = q2_(s, o["m1"] * o["m1"], o["m2"] * o["m2"])
        yield ("real part above threshold: l=%d" % l, re(o["rho"]), 2 * o.sqrt(k2 / s) * B(o, l, k2 * o["R"] * o["R"]))
    return fn
def f_names(o):
    s, a, b = kin(o)
    yield from f_BW(1, "", "K*(892)0")(type("Q", (), {"__getitem__": lambda self, n: o[n], "__getattr__": lambda self, k: getattr(o, k)})())
MASSES = dict(s=(0.3, 3), s1=(0.01, 0.3), s2=(0.01, 0.3))
def samp(extra=(), above=None, lo=0.02, hi=3.0):
    def f(rng):
        a, b = rng.uniform(0.01, 0.3), rng.uniform(0.01, 0.3); th = (math.sqrt(a) + math.sqrt(b)) ** 2
        e = dict(s1=a, s2=b, s=rng.uniform(lo, hi))
        if above is True: e["s"] = th + rng.uniform(1e-3, 2)
        for n in extra:
            if n.endswith("_mass") or n == "m" or n.endswith("::M"): e[n] = math.sqrt(th) + rng.uniform(0.05, 1.2) if above is not None else rng.uniform(0.2, 1.6)
            elif n.endswith("_width") or n in ("w", "w0"): e[n] = rng.uniform(0.01, 0.4)
            else: e[n] = rng.uniform(0.2, 2.5)
        return e
    return f
def below(extra):
    """just below threshold: small negative break-up momentum squared, where every barrier polynomial is positive"""
    f0 = samp(extra, True)
    def f(rng):
        e = f0(rng); e[PN + "_radius"] = rng.uniform(.3, .8); th = (math.sqrt(e["s1"]) + math.sqrt(e["s2"])) ** 2; e["s"] = th * rng.uniform(.75, .99)
        while -.25 * (e["s"] - 2 * (e["s1"] + e["s2"]) + (e["s1"] - e["s2"]) ** 2 / e["s"]) * e[PN + "_radius"] ** 2 > .3: e["s"] = (e["s"] + th) / 2
        return e
    return f
F_ = ["Q2", "kFactor", "BlattWeisskopf", "BlattWeisskopf_Norm", "BL", "width", "pol", "parameterVector"]
def groups(deep, C):
    BUD = 60 if deep else 3
    g = []; K = ["s", "s1", "s2"]; PP = [PN + "_mass", PN + "_width", PN + "_radius"]
    def G(name, case, vs, fn, sample=None, **k): g.append(Group(name, case, K + list(vs), fn, sample or samp(vs), peval=True, **dict(dict(paths="concolic", budget=BUD, maxgens=40), **k)))
    G("Q2, kFactor, pol", "q2", ["m", "w"], f_q2, funcs=["Q2", "kFactor", "pol"], requires="s > 0")
    for L in range(5):
        g.append(Group("Blatt-Weisskopf L=%d" % L, "bw%d" % L, ["z", "z0"], f_bw(L), lambda rng: dict(z=rng.uniform(0, 9), z0=rng.uniform(0.01, 9)), funcs=["BlattWeisskopf", "BlattWeisskopf_Norm"], requires="z, z0 >= 0"))
        G("BL L=%d" % L, "BL%d" % L, ["m", "r"], f_BL(L), funcs=["BL"]); G("width L=%d" % L, "width%d" % L, ["m", "w0", "r"], f_width(L), funcs=["width"], requires="m,w0,r > 0, s > 0, q0 != 0")
        for mod in ("", "BL", "BELLE2018", "NFF"): G("BW %s L=%d" % (mod, L), "BW%s%d" % ("." + mod if mod else "", L), PP, f_BW(L, mod), funcs=["Lineshape::BW::get"], requires="masses, width, radius > 0, q0 != 0")
        for mod in ("", "BL", "BELLE2018", "NFF", "L0", "L1", "L2", "L3"): G("FormFactor %s L=%d" % (mod, L), "FormFactor%s%d" % ("." + mod if mod else "", L), PP, f_FF(L, mod), samp(PP, True), funcs=["Lineshape::FormFactor::get"])
        for mod in ("", "BELLE2018", "L3"):
            if L in (1, 2, 4) or mod == "L3": G("FormFactor %s L=%d below threshold" % (mod, L), "FormFactor%s%d" % ("." + mod if mod else "", L), PP, f_FF(L, mod), below(PP), funcs=["Lineshape::FormFactor::get"], requires="below threshold, barrier polynomial positive")
        for mod in ("", "BL", "IncludeRadiusInWidth"): G("GounarisSakurai %s L=%d" % (mod, L), "GounarisSakurai%s%d" % ("." + mod if mod else "", L), PP, f_GS(L, mod, C["pi+"]), samp(PP, None, 0.09, 3), funcs=["Lineshape::GounarisSakurai::get"], requires="s, m^2 > 4 mpi^2")
        G("ExpFF L=%d" % L, "ExpFF%d" % L, [PN + "_radius"], f_exp, funcs=["Lineshape::ExpFF::get"])
    G("SBW", "SBW", PP, f_SBW, funcs=["Lineshape::SBW::get"]); G("NonRelBW", "NonRelBW", PP, f_NR, funcs=["Lineshape::NonRelBW::get"]); G("Photon", "Photon", PP, f_photon, funcs=["Lineshape::Photon::get"]); G("None", "None", [], f_none, funcs=["Lineshape::None::get"])
    G("Gaussian", "Gaussian", ["gg_mean", "gg_sigma"], f_gauss, funcs=["Lineshape::Gaussian::get"])
    for d in range(5): G("Poly degree %d" % d, "Poly%d" % d, ["pp%d_c%d" % (d, i) for i in range(d + 1)], f_poly(d), funcs=["Lineshape::Poly::get"])
    KK = [KN + "_mass", KN + "_width"]
    for mod in ("", "BW", "NR"): G("LASS " + mod, "LASS" + ("." + mod if mod else ""), KK + ["LASS::a", "LASS::r"], f_lass(mod), samp(KK + ["LASS::a", "LASS::r"], True), funcs=["Lineshape::LASS::get"], requires="s above threshold")
    gl = KK + [KN + "::GLASS::" + x for x in ("a", "r", "phiR", "phiF", "R", "F")]
    G("GLASS", "GLASS", gl, f_glass, samp(gl, True), funcs=["Lineshape::GLASS::get"], requires="s above threshold")
    fl = ["f(0)(980)0_mass", "Flatte::gPi", "Flatte::gK_by_gPi"]
    for mod in ("", "CutKK"): G("Flatte " + mod, "Flatte" + ("." + mod if mod else ""), fl, f_flatte(C, mod), samp(fl), funcs=["Lineshape::Flatte::get"])
    fa = ["a(0)(980)0_mass", "Flatte::g2pieta", "Flatte::g2KK_by_g2pieta"]
    G("Flatte a0", "FlatteA", fa, f_flatteA(C), samp(fa, None, 0.5, 2.5), funcs=["Lineshape::Flatte::get"])
    iso = ["Isotensor::" + x for x in "abcd"]; G("Isotensor", "Isotensor", iso, f_iso, samp(iso, None, 0.1, 2), funcs=["Lineshape::Isotensor::get"])
    bu = ["Bugg::" + x for x in ("M", "b1", "b2", "A", "g_4pi", "g_2K", "g_2eta", "alpha", "sA", "s0_4pi", "lambda_4pi")]
    for mod in ("", "Az"): G("Bugg " + mod, "Bugg" + ("." + mod if mod else ""), bu, f_bugg(mod), samp(bu),maxgens=60, funcs=["Lineshape::Bugg::get"])
    cc = PP + ["rho_g1", "rho_g2"]
    for L in range(3):
        for mod in ("", "BL", "norm"): G("CoupledChannel %s L=%d" % (mod, L), "CoupledChannel%s%d" % ("." + mod if mod else "", L), cc, f_cc(L, mod), samp(cc), funcs=["Lineshape::CoupledChannel::get", "phaseSpace"])
    G("phaseSpace", "phaseSpace", [PN + "_radius"], f_phsp(C), samp([PN + "_radius"]), funcs=["phaseSpace", "rho_twoBody", "Hr"])
    for l in (1, 2, 3): G("phaseSpace Chew-Mandelstam l=%d" % l, "CM%d" % l, [], f_cm(l), samp([], None, 0.5, 3), funcs=["phaseSpace", "rho_pade", "blatt_weisskopf_sq"], requires="s above threshold")
    kn = ["K*(892)0" + x for x in ("_mass", "_width", "_radius")]
    G("parameter names follow the particle", "names", kn + PP, f_names, samp(kn + PP), funcs=["Lineshape::Factory::get"])
    return g
DEFAULTS = {"LASS::a": 2.07, "LASS::r": 3.32, "::GLASS::a": 2.07, "::GLASS::r": 3.32, "::GLASS::R": 1, "::GLASS::F": 1, "::GLASS::phiR": 0, "::GLASS::phiF": 0,
            "Bugg::M": .935, "Bugg::b1": 1.302, "Bugg::b2": .34, "Bugg::A": 2.426, "Bugg::g_4pi": .011, "Bugg::g_2K": .6, "Bugg::g_2eta": .2, "Bugg::alpha": 1.3, "Bugg::sA": .41, "Bugg::s0_4pi": 7.082 / 2.845, "Bugg::lambda_4pi": 2.845,
            "Flatte::gPi": .165, "Flatte::gK_by_gPi": 4.21, "Flatte::g2pieta": .175, "Flatte::g2KK_by_g2pieta": 1.2, "Isotensor::a": 55.21, "Isotensor::b": .853, "Isotensor::c": -.959, "Isotensor::d": .314}
def defaults(rep, exe):
    """a parameter the user does not set has the documented value: those of the particle table, and the published ones of each parametrisation"""
    d = [x["json"] for x in oblig.run_harness(exe, ["defaults"])["recs"] if "json" in x]
    if not d: rep.notes.append("default values not read"); return
    bad = []; n = 0
    for ls, v in d[0].items():
        m, w, r = v.pop("")
        for k, x in v.items():
            if k in ("s", "s1", "s2"): continue
            e = m if k.endswith("_mass") else w if k.endswith("_width") else r if k.endswith("_radius") else next((y for z, y in DEFAULTS.items() if k == z or (z[:2] == "::" and k.endswith(z))), None)
            if e is None: rep.notes.append("%s: parameter %s has no documented default" % (ls, k)); continue
            n += 1
            if not abs(x - e) < 1e-12: bad.append(dict(lineshape=ls, parameter=k, default=x, documented=e))
    if bad:
        for b in bad[:3]: rep.violate("Lineshape::%s::get" % b["lineshape"], "default value of %s" % b["parameter"], True, "real code on a concrete input", **b)
    else: rep.ob_many("lineshapes", "parameters default to the documented values", n, "evaluation")
def numeric(rep, exe):
    """bounded: phase space factors that are integrals, against quadrature"""
    import cmath
    from scipy import integrate
    d = [x["json"] for x in oblig.run_harness(exe, ["numeric"])["recs"] if "json" in x]
    if not d: rep.notes.append("phase space factors not evaluated"); return
    bad = []; n = 0; f = lambda x: x if isinstance(x, (int, float)) else float("nan")
    for t in d[0]["three"]:
        M, G, a, b, c = t["c"]
        for x, re, im in t["v"]:
            lo, hi = (a + b) ** 2, (math.sqrt(x) - c) ** 2; v = 0.; n += 1
            if math.sqrt(x) > a + b + c:
                g = lambda y: math.sqrt(max(0, (x - (math.sqrt(y) + c) ** 2) * (x - (math.sqrt(y) - c) ** 2))) * M * G / ((y - M * M) ** 2 + M * M * G * G)
                v = integrate.quad(g, lo, hi, points=[M * M] if lo < M * M < hi else None, limit=400, epsrel=1e-11)[0] / (16 * math.pi ** 2 * x)
            if not (abs(f(re) - v) < 1e-7 * (1e-3 + v) and abs(f(im)) < 1e-9): bad.append(dict(function="rho_threeBody", particle=t["p"], s=x, got=[re, im], expected=v))
    for t in d[0]["cm"]:
        a, b, R = t["c"]; l = t["l"]; th = (a + b) ** 2; q2 = lambda s: .25 * (s - 2 * (a * a + b * b) + (a * a - b * b) ** 2 / s)
        # the barrier factor normalised to one at unit argument
        B = lambda z: float(ev(barrier(l), 1.)) * z ** l / float(ev(barrier(l), z))
        for x, re, im in t["v"]:
            n += 1
            if l == 0:
                q = cmath.sqrt(q2(x)); v = (2 * q * cmath.log((a * a + b * b - x + 2 * math.sqrt(x) * q) / (2 * a * b)) / math.sqrt(x) - (a * a - b * b) * (1 / x - 1 / th) * math.log(a / b)) / (16j * math.pi ** 2)
                if not abs(complex(f(re), f(im)) - v) < 1e-8: bad.append(dict(function="phaseSpace, Chew-Mandelstam", particle=t["p"], s=x, got=[re, im], expected=[v.real, v.imag]))
            else:
                h = lambda y: B(q2(y) * R * R) * math.sqrt(max(0., q2(y)) / y) / (8 * math.pi) / (y - th)
                lo = th + 1e-9; cut = max(2 * x, 2 * th) + 1
                if x > lo: pv = integrate.quad(h, lo, cut, weight="cauchy", wvar=x, limit=500)[0]
                else: pv = integrate.quad(lambda u: h(lo + u * u) / (lo + u * u - x) * 2 * u, 0, math.sqrt(cut - lo), limit=500)[0]
                pv += integrate.quad(lambda u: h(math.exp(u)) / (math.exp(u) - x) * math.exp(u), math.log(cut), math.log(1e5), limit=500)[0]
                v = -16 * math.pi * (x - th) * pv / math.pi; rv = 2 * math.sqrt(max(0, q2(x)) / x) * B(max(0, q2(x)) * R * R) if x > th else 0.
                t.setdefault("d", []).append((x, f(im), v, f(re), rv))
        if l:
            sc = max(abs(v) for _, _, v, _, _ in t["d"])
            for x, im, v, re, rv in t["d"]:
                if not (abs(im - v) < 2e-2 * sc and abs(re - rv) < 1e-8 * (1 + rv)): bad.append(dict(function="rho_pade", particle=t["p"], orbital=l, s=x, got=[re, im], expected=[rv, v]))
    rep.bound("phaseSpace", "three-body and dispersive phase space factors equal their defining integrals", n, "6 three-body channels and 4 two-body channels with l up to 3, ten values of s each; the rational approximation of the dispersive part within 2% of its largest value", bad)
    rep.functions += ["rho_threeBody", "rho_pade", "analytic_continuation", "integrate_1d_cauchy"]
def run(rep, deep, seed):
    exe = build.harness("lineshape")
    C = {r["out"]: r["num"] for r in oblig.run_harness(exe, ["const"])["recs"] if "num" in r}
    rep.merge(oblig.discharge(rep.pid, exe, groups(deep, C), seed, deep))
    defaults(rep, exe); numeric(rep, exe)
    rep.std_assumptions()
