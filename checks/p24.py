"""P24: numerical helpers: cubature rules, adaptive integration, one-dimensional quadrature wrappers, Pade approximants, compensated sums, lane utilities."""
import build, sym, uf, json, subprocess, random, math
from fractions import Fraction as Fr
LEVEL = "proof"
class Ridge:
    """(a.x+b)^deg with random a, b: a linear functional that is right for a random ridge is right for every polynomial of that degree"""
    def __init__(self, rng, dim, deg): self.a = [Fr(rng.choice((-1, 1)) * rng.randint(5, 40), 32) for _ in range(dim)]; self.b = Fr(rng.randint(-30, 30), 32); self.deg = deg
def poly(rng, dim, deg): return Ridge(rng, dim, deg)
def ev(p, x):
    if isinstance(x[0], float): return (sum(float(c) * v for c, v in zip(p.a, x)) + float(p.b)) ** p.deg
    return (sum(c * v for c, v in zip(p.a, x)) + p.b) ** p.deg
def integ(p, lo, hi):
    lo, hi = [Fr(v) for v in lo], [Fr(v) for v in hi]; d = len(lo); s = Fr(0)
    for m in range(2 ** d):
        t = p.b + sum(c * (hi[i] if m >> i & 1 else lo[i]) for i, c in enumerate(p.a)); s += (-1) ** (d - bin(m).count("1")) * t ** (p.deg + d)
    f = Fr(1)
    for i in range(d): f = f / (p.deg + i + 1) / p.a[i]
    return s * f
def scale(p, lo, hi):
    r = 1
    for a, b in zip(lo, hi): r *= abs(float(b - a))
    return 1e-3 + r * float(abs(p.b) + sum(abs(c) * max(abs(a), abs(b)) for c, a, b in zip(p.a, lo, hi))) ** p.deg
def rat(rng): return Fr(rng.randint(-64, 64), 32)
def rule_ob(rep, T, dim, what, rng, terms=True):
    """the value is exact for every polynomial of degree 7, the error estimate vanishes for every polynomial of degree 5 and not for degree 6"""
    v, e = T.ids("val")[0], T.ids("err")[0]
    for deg, tgt in ((7, "value"), (5, "error")) + (((6, "error is not blind"),) if 1 else ()):
        p = poly(rng, dim, deg); c = [rat(rng) for _ in range(dim)]; w = [Fr(rng.randint(8, 48), 32) for _ in range(dim)]
        env = lambda n: (c if n[0] == "c" else w)[int(n[1:])]
        val, err = T.num([v, e], env, app=lambda n, a: ev(p, a), lit=Fr)
        lo, hi = [a - b for a, b in zip(c, w)], [a + b for a, b in zip(c, w)]; want = integ(p, lo, hi); sc = Fr(scale(p, lo, hi))
        inp = dict(dim=dim, centre=list(map(str, c)), half_width=list(map(str, w)), polynomial="(%s . x + %s)^%d" % (list(map(str, p.a)), p.b, p.deg))
        if tgt == "value": ok = abs(val - want) < Fr(1, 10 ** 12) * sc; why = "value %s, integral %s" % (float(val), float(want))
        elif tgt == "error": ok = abs(err) < Fr(1, 10 ** 12) * sc; why = "error estimate %s on a polynomial of degree 5" % float(err)
        else: ok = abs(err) > Fr(1, 10 ** 9) * sc; why = "the error estimate is zero for a polynomial of degree 6"
        rep.ob(what, "dimension %d, degree %d: %s" % (dim, deg, tgt), bool(ok), "linear functional over Q", why=why, input=inp)
def symbolic(rep, deep, rng, seed):
    try: exe = sym.harness("num")
    except build.BuildError as ex: rep.notes.append("the numerical helpers no longer compile over the symbolic scalar; decided by execution only (%s)" % str(ex)[-160:].replace("\n", " ")); return
    try: exv = sym.harness("numv", ("-DINSTRUCTION_SET=2", "-DENABLE_AVX=1"), first=[build.VERIF + "/harness/sym/lanes"])
    except build.BuildError as ex: exv = None; rep.notes.append("the vector rule no longer compiles over symbolic lanes; decided by execution only")
    hung = []
    def go(ex, *a):
        if len(hung) > 1: return None
        try: return sym.run(ex, *a, timeout=60)
        except sym.Crash as e: hung.append(a) if "no answer" in str(e) else 0; rep.notes.append("symbolic run %s: %s" % (a, str(e)[:120])); return None
    for dim in range(2, 16 if deep else 13):
        for case in ("rule", "wrap"):
            T = go(exe, case, dim, 0, 1)
            if T: rule_ob(rep, T, dim, "integrate_fp_scalar" if case == "rule" else "integrate_fp (scalar build)", rng)
        T = exv and go(exv, "rule", dim)
        if T: rule_ob(rep, T, dim, "integrate_fp (four lanes)", rng)
        rep.functions += ["integrate_fp_scalar<%d>" % dim, "integrate_fp<%d,4>" % dim]
    # the adaptive scheme: on every path taken the composite rule is exact for degree 7, i.e. the regions tile the box
    n, bad = 0, []
    for dim in (2, 3) + ((4,) if deep else ()):
        for kind in (0, 1, 2, 3):
            T = go(exe, "full", dim, kind, seed + kind)
            if not T: continue
            p = poly(rng, dim, 7); c = [rng.uniform(-1, 1) for _ in range(dim)]; w = [rng.uniform(.3, 1.5) for _ in range(dim)]; n += 1
            got = T.num(T.ids("val"), lambda k: (c if k[0] == "c" else w)[int(k[1:])], app=lambda nm, a: ev(p, a))[0]
            hi = [a + b for a, b in zip(c, w)]; want = float(integ(p, c, hi)); sc = scale(p, c, hi)
            rep.ob("integrate", "dimension %d, path of integrand %d (%d comparisons): regions tile the box, each with the full rule" % (dim, kind, len(T.path)), abs(got - want) < 1e-9 * sc, "linear functional",
                   why="composite rule gives %r, integral %r" % (got, want), input=dict(lo=c, width=w, polynomial="random of degree 7"))
    rep.functions += ["integrate<2>", "integrate<3>"]
    # one-dimensional wrappers against the contract of GSL
    T = go(exe, "wrap1d")
    if T:
        fv = lambda k: sym.fvar(seed, k)
        F = uf._h(seed, "app", "F", (fv("bound"),)); app = lambda f, *a: uf._h(seed, "app", f, tuple(a))
        W = dict(d=app("int", fv("a"), fv("b"), F), inf=app("intinf", F), pv=app("intpv", fv("a"), fv("b"), fv("c"), F))
        W.update(da=W["d"], dw=W["d"], infw=W["inf"], pvw=W["pv"], i1=W["d"], i1a=W["d"], i1l=W["d"])
        for k, w in sorted(W.items()):
            if k in T.out: rep.ob("integrate_1d*", k + ": the integral of the given function over the given limits", T.fp(T.ids(k), seed=seed)[0] == w, "UF-field", why="term differs", found=False)
        rep.ob("integrate_1d*", "requested accuracy at least 1e-5", float(T.json["eps"]) <= 1e-5, "term", why="accuracy %s" % T.json["eps"])
        rep.functions += ["integrate_1d", "integrate_1d_inf", "integrate_1d_cauchy", "integrate<1>"]
    # Pade approximants
    for N in (1, 2, 3, 4, 5, 7):
        T = go(exe, "pade", N)
        if not T: continue
        for s in (seed, seed + 1):
            fv = lambda k: sym.fvar(s, k); P = sym.P; x = (fv("x") - fv("lo")) * pow(fv("hi") - fv("lo"), -1, P) % P
            num = sum(fv("r%d" % i) * pow(x, i, P) for i in range(N + 1)) % P; den = (1 + sum(fv("r%d" % (N + i)) * pow(x, i, P) for i in range(1, N + 1))) % P
            want = num * pow(den, -1, P) % P
            for k in ("val", "copy"): rep.ob("Pade::operator()", "order %d, %s: quotient of the two polynomials in (x-min)/(max-min)" % (N, k), T.fp(T.ids(k), seed=s)[0] == want, "UF-field", why="term differs", found=False)
    for N in (1, 2, 3, 4) + ((5,) if deep else ()):
        for st in range(4):
            T = go(exe, "fit", N, st)
            if not T: continue
            k = int(T.json["calls"]); at = T.fp(T.ids("at"), seed=seed); val = T.fp(T.ids("val"), seed=seed); fv = lambda q: sym.fvar(seed, q); P = sym.P
            ok1 = k == 2 * N + 1
            want = sorted((fv("lo") + (fv("hi") - fv("lo")) * sym.fpc(Fr(i, 2 * N) ** (st + 1))) % P for i in range(2 * N + 1))
            rep.ob("solve_pade", "order %d, strategy %d: sampled at the 2N+1 documented points" % (N, st), ok1 and sorted(at) == want, "UF-field", why="sample points differ", found=False)
            rep.ob("solve_pade", "order %d, strategy %d: the approximant takes the sampled values at all sample points, for all values" % (N, st), all(v == fv("f%d" % i) for i, v in enumerate(val)), "UF-field", why="interpolation fails", found=False)
    rep.functions += ["solve_pade", "Pade<N>::operator()", "Pade<N>::Pade"]
    for n in (1, 2, 5, 11):
        T = go(exe, "sum", n, seed)
        if T:
            want = sum(T.fp(T.ids("x"), seed=seed)) % sym.P
            for k in ("inc", "plus", "kbk"): rep.ob("KahanSum", "%s of %d terms is their sum in exact arithmetic" % (k, n), T.fp(T.ids(k), seed=seed)[0] == want, "UF-field", why="not the sum", found=False)
    rep.functions += ["KahanSum::operator+=", "KahanSum operator+", "KahanBabushkaKleinSum"]
def k1(k, p):
    """antiderivative of the executed integrands"""
    if k == 0: return lambda x: -math.exp(-p * x) / p
    if k == 1: return lambda x: math.sin(p * x + .3) / p
    if k == 2: return lambda x: math.atan((x - p) * math.sqrt(6)) / math.sqrt(1.5)
    if k == 3: return lambda x: p * x ** 4 / 4 - x * x + x
    if k == 4: return lambda x: math.sqrt(math.pi) / 4 * math.erf(2 * (x - p))
    return lambda x: x * x / 2
def kf(k, x, p): return [math.exp(-p * x), math.cos(p * x + .3), 1 / (.5 + 3 * (x - p) ** 2), x ** 3 * p - 2 * x + 1, math.exp(-4 * (x - p) ** 2), x][k]
def executed(rep, rng):
    exe = build.harness("num")
    try: r = subprocess.run([exe], capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired: rep.violate("numerical helpers", "the integrals of smooth functions over boxes come back", why="no answer after 200 s (a second when the code is right)", input="harness/num.cpp: products of exponentials, cosines, resonances and polynomials over boxes of two and three dimensions"); return
    if r.returncode: rep.violate("numerical helpers", "the helpers run", why="exit %d %s" % (r.returncode, r.stderr[-300:]), input="harness/num.cpp"); return
    R = {}
    for k, v in json.loads(r.stdout): R.setdefault(k, []).append(v)
    B = lambda name, what, n, bad: rep.bound(name, what, n, "executed as built", bad[:3])
    rel = lambda a, b, t: a is not None and abs(a - b) <= t * (1 + abs(b))
    for dim in (2, 3, 4, 5):
        for pre, nm in (("s", "integrate_fp_scalar"), ("v", "integrate_fp four lanes")):
            pts, wt = R["%sp%d" % (pre, dim)][0], R["%sw%d" % (pre, dim)][0]; bad = []
            c = [.25 * i - .5 for i in range(dim)]; w = [.5 + .125 * i for i in range(dim)]
            for deg in (7, 7, 3):
                p = poly(rng, dim, deg); got = sum(q * ev(p, pts[i * dim:(i + 1) * dim]) for i, q in enumerate(wt) if q); want = float(integ(p, [Fr(a) - Fr(b) for a, b in zip(c, w)], [Fr(a) + Fr(b) for a, b in zip(c, w)]))
                if not abs(got - want) < 1e-11 * scale(p, [a - b for a, b in zip(c, w)], [a + b for a, b in zip(c, w)]): bad.append(dict(input=dict(dim=dim, centre=c, half_width=w, degree=deg), got=got, want=want))
            B(nm, "dimension %d: weights and points integrate degree 7 exactly" % dim, 3, bad)
        B("integrate_fp", "dimension %d: both forms agree in value, error and axis" % dim, len(R["same%d" % dim]), [dict(input=dict(dim=dim, integrand=i), got=x) for i, x in enumerate(R["same%d" % dim]) if not (rel(x[0], x[1], 1e-13) and abs(x[2] - x[3]) < 1e-12 and x[4] == x[5])])
    B("integrate_fp", "the axis proposed for division is the one along which the integrand varies", len(R["axis"]), [dict(input=x) for x in R["axis"] if not x[0] == x[1] == x[2]])
    bad = []
    for x in R["full"]:
        dim, k = int(x[0]), int(x[1]); want = 1.0
        for i in range(dim): F = k1(k, .4 + .3 * i); want *= F(x[3 + 2 * i]) - F(x[2 + 2 * i])
        if not rel(x[-1], want, 1e-8): bad.append(dict(input=dict(dim=dim, integrand=k, box=x[2:-1]), got=x[-1], want=want))
    pk = (math.atan(7) + math.atan(3)) * 10 * 1.5
    bad += [dict(input="peaked integrand, dimension %d" % x[0], got=x[1], want=pk) for x in R["peak"] if not rel(x[1], pk, 1e-7)]
    B("integrate", "adaptive integrals equal the analytic ones", len(R["full"]) + len(R["peak"]), bad)
    bad = []
    for x in R["d1"]:
        F = k1(int(x[0]), .7); want = F(1.75) - F(.25)
        for i, nm in ((1, "integrate_1d(double)"), (2, "integrate_1d(array)"), (3, "integrate<1>(double)"), (4, "integrate<1>(array)")):
            if not rel(x[i], want, 1e-5): bad.append(dict(input=dict(call=nm, integrand=int(x[0]), limits=(.25, 1.75)), got=x[i], want=want))
    for x in R["pv"]:
        k = int(x[0]); n = 20000; a, b, c = .25, 1.75, .9; f = lambda t: kf(k, t, .7); d = c - a   # PV by subtraction
        h = lambda t: (f(t) - f(c)) / (t - c) if abs(t - c) > 1e-9 else 0
        s = sum(h(a + (b - a) * (i + .5) / n) for i in range(n)) * (b - a) / n + f(c) * math.log((b - c) / (c - a))
        F = k1(k, .7)
        for i in (1, 2):
            if not rel(x[i], s, 1e-4): bad.append(dict(input=dict(call="integrate_1d_cauchy", integrand=k), got=x[i], want=s))
        if not rel(x[3], F(b) - F(a), 1e-5): bad.append(dict(input=dict(call="integrate_1d with workspace", integrand=k), got=x[3], want=F(b) - F(a)))
    for x in R["inf"]:
        if not (rel(x[0], math.pi / math.sqrt(1.5), 1e-5) and rel(x[1], math.sqrt(math.pi) / 2, 1e-5) and rel(x[2], math.sqrt(math.pi) / 2, 1e-5)): bad.append(dict(input="integrate_1d_inf", got=x))
    B("integrate_1d*", "integrals over intervals, the real line and principal values", 40, bad)
    bad = []
    for x in R["pade"]:
        N, st = int(x[0]), int(x[1])
        if (int(x[2]) == 2 and N > 2) or (N > 3 and st > 1): continue     # a rational function of lower degree: the equations are degenerate
        for j in range(3, len(x), 3):
            if not rel(x[j + 1], x[j + 2], {1: 1e-9, 2: 1e-8, 3: 1e-6}.get(N, 1e-3)): bad.append(dict(input=dict(order=N, strategy=st, function=int(x[2]), at=x[j]), got=x[j + 1], want=x[j + 2]))
        if len(x) != 3 + 3 * (2 * N + 1): bad.append(dict(input=dict(order=N), got="%d samples" % ((len(x) - 3) // 3)))
    for x in R["padeval"]:
        N = int(x[0]); co = [.25 * (i + 1) for i in range(2 * N + 1)]
        for s, g in zip((1.25, .5, 2.5), x[1:]):
            t = (s - .5) / 2; w = sum(co[i] * t ** i for i in range(N + 1)) / (1 + sum(co[N + i] * t ** i for i in range(1, N + 1)))
            if not rel(g, w, 1e-12): bad.append(dict(input=dict(order=N, x=s), got=g, want=w))
    for x in R["padevec"]:
        e = [y for y in R["padeval"] if y[0] == x[0]][0]
        if not (rel(x[1], e[2], 1e-13) and rel(x[2], e[1], 1e-13) and rel(x[3], e[3], 1e-13) and rel(x[4], x[5], 1e-13)): bad.append(dict(input=dict(order=x[0], what="lanes"), got=x))
    B("Pade", "approximants interpolate and evaluate, scalar and four lanes", len(R["pade"]) + len(R["padeval"]), bad)
    bad = []
    for x, s, v in zip(R["x"], R["sum"], R["sumv"]):
        S = sum(map(Fr, x)); A = sum(abs(Fr(y)) for y in x); n = len(x); u = Fr(1, 2 ** 53); tol = 2 * u * abs(S) + 2 * (n * u) ** 2 * A
        for nm, g in zip(("+=", "+", "KahanBabushkaKleinSum"), s):
            if g is None or abs(Fr(g) - S) > tol: bad.append(dict(input=dict(terms=x[:12], count=n, form=nm), got=g, want=float(S)))
        for f, g in zip((1, -1, 2, Fr(1, 2)), v):
            if g is None or abs(Fr(g) - S * f) > tol * 2: bad.append(dict(input=dict(terms=x[:12], count=n, form="four lanes", factor=str(f)), got=g, want=float(S * f)))
    B("KahanSum", "compensated sums are accurate to the second order in the rounding unit", 7 * len(R["x"]), bad)
    bad = [dict(input=dict(aligned_size=x)) for x in R["aligned"] if x[1] != -(-int(x[0]) // 4) * 4 or x[2] != x[0]]
    for x in R["gather"]:
        n, o = int(x[0]), int(x[1]); e = [1.5 * (i + 1) + 1 for i in range(n)]
        if x[2:6] != [e[min(o + k, n - 1)] for k in range(4)] or x[6:] != [e[o + k] if o + k < n else -7 for k in range(4)]: bad.append(dict(input=dict(gather=x[:2]), got=x[2:]))
    for x in R["gather0"]:
        n, o = int(x[0]), int(x[1]); e = [1.5 * (i + 1) + 1 for i in range(n)]
        if x[2:] != [e[o + k] if o + k < n else 0 for k in range(4)]: bad.append(dict(input=dict(gather=x[:2], default=0), got=x[2:]))
    if R["sumel"][0] != [15.5, 3.25, 1, 8.5, 4] or R["store"][0] != [1, 2, 4, 8.5] or R["store1"][0] != [2.5]: bad.append(dict(input="sum_elements/get/at/store of (1,2,4,8.5)", got=(R["sumel"], R["store"])))
    bad += [dict(input=dict(all_of="lane mask %d" % x[0]), got=x[1:]) for x in R["allof"] if x[1] != (x[0] == 15) or x[2] != (x[0] == 15)]
    B("lane utilities", "gather, sum, store, alignment and all_of", len(R["gather"]) + len(R["aligned"]) + len(R["allof"]), bad)
def run(rep, deep, seed):
    rng = random.Random("p24:%d" % seed)
    executed(rep, rng); symbolic(rep, deep, rng, seed)
    conc = any(v.get("found", True) for v in rep.violations)
    rep.assumptions += ["machine arithmetic treated as exact real arithmetic in the symbolic part", "GSL quadrature and LU routines meet their documented contracts (stand-ins in harness/sym/gsl)", "lane operations act lane by lane (property P22)"]
    rep.trusted += ["g++", "symbolic scalar harness/sym/sym.h", "F_p evaluation"]
