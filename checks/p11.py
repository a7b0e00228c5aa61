"""P11: angular-momentum functions: Wigner d/D functions, Clebsch-Gordan coefficients, LS -> helicity recoupling, Wick transforms."""
import build, oblig, math
from oblig import Group
from alg import conj
from phys import dot, eqv, S
LEVEL = "proof"
fac = math.factorial
def d_spec(o, j, m, n, c, s):
    """standard Wigner d-function, doubled quantum numbers, c = cos(b/2), s = sin(b/2)"""
    pref = o.sqrt(o.q(fac((j + m) // 2) * fac((j - m) // 2) * fac((j + n) // 2) * fac((j - n) // 2)))
    t = o.q(0)
    for k in range(0, j + 1):
        a = [(j + n) // 2 - k, (m - n) // 2 + k, (j - m) // 2 - k]
        if min(a) < 0: continue
        t = t + c ** (j + (n - m) // 2 - 2 * k) * s ** ((m - n) // 2 + 2 * k) * o.q((-1) ** (((m - n) // 2 + k) % 2), fac(a[0]) * fac(a[1]) * fac(a[2]) * fac(k))
    return pref * t
def pre(o):
    D = o.D; c = o.v("c"); D.bind("s", o.q(1) - c * c); s = o.v("s")
    D.subst = {"cb": c * c - s * s}
    D.require_pos(c); D.require_pos(s); D.require_pos(c * s)
def smp(extra=False):
    def f(rng):
        b = rng.uniform(0.01, math.pi - 0.01); ph = rng.uniform(-3, 3)
        e = {"c": math.cos(b / 2), "s": math.sin(b / 2), "cb": math.cos(b)}
        if extra: e.update(cp=math.cos(ph), sp=math.sin(ph))
        return e
    return f
def dfun(j):
    def f(o):
        c, s = o.v("c"), o.v("s"); R = range(-j, j + 1, 2)
        d = {(m, n): o["%d,%d" % (m, n)] for m in R for n in R}
        for m in R:
            for n in R: yield ("d(%d/2;%d/2,%d/2) is the Wigner d-function" % (j, m, n), d[m, n], d_spec(o, j, m, n, c, s))
        for m in R:
            for n in R:
                yield ("orthogonality d d^T = 1 (%d,%d)" % (m, n), S(o, (d[m, k] * d[n, k] for k in R)), o.q(1 if m == n else 0))
                yield ("symmetry d(m,n) = (-1)^(m-n) d(n,m) (%d,%d)" % (m, n), d[m, n], d[n, m] * (-1) ** (((m - n) // 2) % 2))
                yield ("symmetry d(m,n) = d(-n,-m) (%d,%d)" % (m, n), d[m, n], d[-n, -m])
    return f
def Dfun(j):
    def f(o):
        e = o.v("cp") + o.I() * o.v("sp"); R = range(-j, j + 1, 2)
        for m in R:
            for n in R:
                k = (n - m) // 2; ph = e ** k if k >= 0 else conj(e) ** (-k)
                yield ("D(%d,%d) = exp(i phi (n-m)) d" % (m, n), o["D%d,%d" % (m, n)], ph * o["d%d,%d" % (m, n)])
    return f
def preD(o): pre(o); o.D.bind("sp", o.q(1) - o.v("cp") * o.v("cp"))
WV = ["%d_%s" % (i, c) for i in (0, 1) for c in ("Px", "Py", "Pz", "E")]
def wick(photon):
    def f(o):
        p = o["P"].el; r = o["rest"].el; V = o["V"].mat(); z = o.q(0)
        if photon: yield from eqv("momentum aligned to +z", r, [z, z, o.sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]), p[3]])
        else: yield from eqv("momentum taken to rest", r, [z, z, z, o.sqrt(dot(o, p, p))])
        for i in range(4):
            for j in range(4):
                yield ("Lorentz transformation [%d%d]" % (i, j), S(o, (V[k][i] * V[k][j] * (1 if k == 3 else -1) for k in range(4))), o.q((1 if i == 3 else -1) if i == j else 0))
        det = det3 = None
        yield ("proper (determinant +1)", det4(o, V), o.q(1))
    return f
def det4(o, V):
    from phys import PERM4
    return S(o, (V[0][p[0]] * V[1][p[1]] * V[2][p[2]] * V[3][p[3]] * s for p, s in PERM4))
def prew(photon):
    def f(o):
        D = o.D; 
        P = [o.v("0_" + c) + (o.q(0) if photon else o.v("1_" + c)) for c in ("Px", "Py", "Pz", "E")]
    return f
def smpw(rng):
    e = {}
    for i in (0, 1):
        p = [rng.uniform(-1, 1) for _ in range(3)]
        for c, x in zip(("Px", "Py", "Pz"), p): e["%d_%s" % (i, c)] = x
        e["%d_E" % i] = math.sqrt(sum(x * x for x in p) + rng.uniform(0.1, 1))
    return e
def near(base, pt, pz, fwd):
    """momenta close to (not on) the z axis, or slow: transverse momentum pt, longitudinal pz"""
    def f(rng):
        e = base(rng); ph = rng.uniform(-3, 3); q = [pt * math.cos(ph), pt * math.sin(ph), (pz if fwd else -pz) * rng.uniform(.5, 1.)]
        if base is smpg:
            for c, x in zip(("Px", "Py", "Pz"), q): e["0_" + c] = x
            e["0_E"] = math.sqrt(sum(x * x for x in q))
        else:
            for c, x in zip(("Px", "Py", "Pz"), q): e["1_" + c] = x - e["0_" + c]
            e["1_E"] = math.sqrt(sum(e["1_" + c] ** 2 for c in ("Px", "Py", "Pz")) + .3)
        return e
    return f
def smpg(rng):
    e = smpw(rng); e["0_E"] = math.sqrt(sum(e["0_" + c] ** 2 for c in ("Px", "Py", "Pz"))); return e
def tables(rep, exe):
    d = oblig.run_harness(exe, ["cg"])
    T = {tuple(r[:6]): float(r[6]) for r in d["recs"][0]["json"]} if d["recs"] else {}
    g = lambda a, ma, b, mb, J, M: T.get((a, ma, b, mb, J, M), 0.0) if abs(ma) <= a and abs(mb) <= b and abs(M) <= J else 0.0
    bad = []; n = 0
    js = sorted(set(k[0] for k in T)); 
    pairs = set((k[0], k[2]) for k in T)
    for a in js:
        for b in js:
            if (a, b) not in pairs: continue
            for J in range(abs(a - b), a + b + 1, 2):
                if not g(a, a, b, J - a, J, J) > 0: bad.append(dict(input="CG(%g,%g,%g,%g,%g,%g) > 0 (Condon-Shortley)" % (a / 2, a / 2, b / 2, (J - a) / 2, J / 2, J / 2), got=g(a, a, b, J - a, J, J)))
                for M in range(-J, J + 1, 2):
                    for J2 in range(abs(a - b), a + b + 1, 2):
                        if abs(M) <= J2:
                            t = sum(g(a, m, b, M - m, J, M) * g(a, m, b, M - m, J2, M) for m in range(-a, a + 1, 2)); n += 1
                            if abs(t - (J == J2)) > 1e-10: bad.append(dict(input="orthonormality j1=%g j2=%g J=%g J'=%g M=%g" % (a / 2, b / 2, J / 2, J2 / 2, M / 2), got=t))
                    for m in range(-a, a + 1, 2):
                        for mb in range(-b, b + 1, 2):
                            n += 1
                            if m + mb != M:
                                if g(a, m, b, mb, J, M) != 0: bad.append(dict(input="CG(%g,%g,%g,%g,%g,%g) = 0 for m1+m2 != M" % (a / 2, m / 2, b / 2, mb / 2, J / 2, M / 2)))
                            elif M - 2 >= -J:
                                pass
                            if m + mb == M - 2 and M - 2 >= -J:
                                sq = lambda j, q: math.sqrt((j - q) / 2 * ((j + q) / 2 + 1)) if q < j else 0.0   # raising from q
                                l = math.sqrt((J + M) / 2 * ((J - M) / 2 + 1)) * g(a, m, b, mb, J, M - 2)
                                r = sq(a, m) * g(a, m + 2, b, mb, J, M) + sq(b, mb) * g(a, m, b, mb + 2, J, M)
                                if abs(l - r) > 1e-9: bad.append(dict(input="ladder relation j1=%g m1=%g j2=%g m2=%g J=%g M=%g" % tuple(x / 2 for x in (a, m, b, mb, J, M)), got="%g vs %g" % (l, r)))
    rep.functions.append("CG")
    rep.bound("CG", "Clebsch-Gordan coefficients: orthonormal, ladder relation, Condon-Shortley phase, selection rule", n, "j1, j2 <= 4, j1 <= 6 for j2 <= 2 (all m, J, M)", bad)
    d = oblig.run_harness(exe, ["recouple"]); R = {}
    for J, L, S_, a, b, m1, m2, f in (d["recs"][0]["json"] if d["recs"] else []): R.setdefault((J, a, b), {}).setdefault((L, S_), {})[(int(m1), int(m2))] = float(f)
    bad = []; n = 0
    for (J, a, b), t in R.items():
        for ls, v in t.items():
            for ls2, w in t.items():
                x = sum(v[k] * w.get(k, 0.0) for k in v); n += 1
                if abs(x - (ls == ls2)) > 1e-9: bad.append(dict(input="J=%g (L,S)=(%g,%g),(%g,%g) j1=%g j2=%g" % (J / 2, ls[0] / 2, ls[1] / 2, ls2[0] / 2, ls2[1] / 2, a / 2, b / 2), got=x))
            for (m1, m2), f in v.items():
                n += 1
                L, S_ = ls
                if (0, 0, 0) == (J, a, b): continue
                spec = math.sqrt((L + 1) / (J + 1)) * g(L, 0, S_, m1 - m2, J, m1 - m2) * g(a, m1, b, -m2, S_, m1 - m2) if (L, S_) in pairs and (a, b) in pairs else None
                if spec is not None and abs(spec - f) > 1e-9: bad.append(dict(input="recoupling J=%g L=%g S=%g j=%g,%g m=%g,%g" % (J / 2, L / 2, S_ / 2, a / 2, b / 2, m1 / 2, m2 / 2), got="%g vs %g" % (f, spec)))
    if not R: rep.notes.append("no recoupling constants exported")
    rep.functions.append("calculate_recoupling_constants")
    rep.bound("calculate_recoupling_constants", "LS -> helicity recoupling matrix is orthonormal and equals sqrt((2L+1)/(2J+1)) <L0 S m|J m><j1 m1 j2 -m2|S m>", n, "j1, j2 <= 2, J <= 9/2, L <= 6", bad)
def run(rep, deep, seed):
    exe = build.harness("wigner"); gs = []
    for j in range(0, 11): gs.append(Group("wigner_d j=%g" % (j / 2), "d%d" % j, ["c", "s", "cb"], dfun(j), smp(), pre, funcs=["wigner_d", "expandedBinomial", "NormalOrderedExpression (on these terms)"], requires="0 < beta < pi", budget=60, nsamp=10, tol=1e-6, numeric_only=j > 8))
    for j in range(0, 9): gs.append(Group("wigner_D j=%g" % (j / 2), "D%d" % j, ["c", "s", "cb", "cp", "sp"], Dfun(j), smp(True), preD, funcs=["wigner_D"], requires="|exp(i phi)| = 1", nsamp=10, tol=1e-6))
    for k, ph in (("wick+", False), ("wick-", False), ("wickg+", True), ("wickg-", True)):
        gs.append(Group("wickTransform " + k, k, WV, wick(ph), smpg if ph else smpw, funcs=["wickTransform", "Particle::P", "Particle::massSq"], requires="p timelike (photon: no boost), p not along z", paths="sampled", peval=True, budget=10, tol=1e-6, modp=True))
        for pt, pz in ((1e-5, 1.), (1e-3, 1.), (1e-2, 1.), (3e-2, 1.), (1e-4, 1e-4), (1e-2, 1e-2)):
            for fwd in (0, 1): gs.append(Group("wickTransform %s, pT = %g, pz = %s%g" % (k, pt, "+" if fwd else "-", pz), k, WV, wick(ph), near(smpg if ph else smpw, pt, pz, fwd), funcs=["wickTransform"], requires="pT = %g, |pz| < %g" % (pt, pz), numeric_only=True, peval=True, nsamp=6, tol=1e-6))
    rep.merge(oblig.discharge(rep.pid, exe, gs, seed, deep))
    tables(rep, exe)
    rep.std_assumptions()
