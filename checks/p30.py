"""P30: splines are natural cubic splines through their knots, and the lineshapes built on them are the documented functions of the spline."""
import build, oblig, uf, random, os, tempfile
from fractions import Fraction as Fr
LEVEL = "proof"
GR = [(3, 0, 1), (4, .25, 1.75), (5, -1, 1), (6, .5, 3), (9, 0, 4), (12, -.75, 2), (2, 0, 1), (33, .125, 4.125)]
def natural(y, h):
    """second derivatives of the natural cubic spline (exact)"""
    n = len(y); M = [Fr(0)] * n; c = [Fr(0)] * n; d = [Fr(0)] * n
    for i in range(1, n - 1):
        r = 6 * (y[i + 1] - 2 * y[i] + y[i - 1]) / (h * h); k = 4 - c[i - 1]; c[i] = 1 / k; d[i] = (r - d[i - 1]) / k
    for i in range(n - 2, 0, -1): M[i] = d[i] - c[i] * M[i + 1]
    return M
def spline(y, a, b, x):
    n = len(y); y = [Fr(v) for v in y]; a, b, x = Fr(a), Fr(b), Fr(x); h = (b - a) / (n - 1)
    if not a < x < b: return y[-1]
    M = natural(y, h); i = int((x - a) / h); u = a + (i + 1) * h - x; t = x - a - i * h
    return (M[i] * u ** 3 + M[i + 1] * t ** 3) / (6 * h) + (y[i] / h - M[i] * h / 6) * u + (y[i + 1] / h - M[i + 1] * h / 6) * t
def run(rep, deep, seed):
    exe = build.harness("spline"); rng = random.Random("p30:%d" % seed)
    # 1. end to end, compiled
    jobs = []
    for n in (3, 4, 5, 7, 12, 20, 36, 41):
        for _ in range(3 if deep else 1):
            a = rng.choice([0, .5, -1.25]); b = a + rng.choice([1, 2.5, .7]); y = [rng.uniform(-3, 3) for _ in range(n)]; h = (b - a) / (n - 1)
            xs = [a + (b - a) * rng.random() for _ in range(40)] + [a + h * (i + f) for i in range(n - 1) for f in (1e-7, .5, 1 - 1e-7)] + [a - .3, b + .2, b + 5, a - 100, a + 1e-9, b - 1e-9, a + 1e-12, a - 1e-9, b + 1e-9, 1e4, -1e4]
            jobs.append((n, a, b, y, xs))
    fd, p = tempfile.mkstemp(prefix="spl", dir=build.BUILD); os.close(fd)
    with open(p, "w") as f:
        for n, a, b, y, xs in jobs: f.write(" ".join(map(repr, [n, a, b] + y + [len(xs)] + xs)) + "\n")
    os.environ["H_SCRIPT"] = p
    try: d = oblig.run_harness(exe, ["run"], timeout=400)
    finally: os.remove(p)
    R = d["recs"][0].get("json") if d["recs"] else None
    if R is None: raise build.BuildError("spline harness: " + str(d.get("crash"))[:500])
    bad = []; nn = 0
    for (n, a, b, y, xs), (v, w) in zip(jobs, R):
        for ys, g in ((y, v), ([2 * q + 1 for q in y], w)):
            for x, got in zip(xs, g):
                nn += 1; want = float(spline(ys, a, b, x))
                if not (isinstance(got, (int, float)) and abs(got - want) <= 1e-6 * (1 + abs(want))): bad.append(dict(input=dict(knots=ys, range=(a, b), x=x), got=got, want=want))
    rep.bound("compiled splines", "value of the natural cubic spline at every point, before and after the knots change; outside the range the value of the last knot", nn, "%d splines compiled and run" % len(jobs), bad[:3])
    numeric_ok = not bad
    # 2. the polynomial between two knots, for all knot values, curvatures and positions
    d = oblig.run_harness(exe, ["eval"]); N = d["nodes"]; F = [uf.Snap(seed + k) for k in range(3)]; V = [D.nodes(N) for D in F]
    recs = {r["out"]: r["ids"][0] for r in d["recs"] if "ids" in r}
    for n, a, b in GR:
        i = recs.get("S%d" % n); ok = i is not None
        for D, vals in zip(F, V):
            if not ok: break
            q = lambda z: D.const(float(z)) if not isinstance(z, Fr) else (D._c(z), 0)
            h = q((Fr(b) - Fr(a)) / (n - 1))
            x = D.var("x"); t0 = D.sub(x, q(a)); dx = D.app("fmod", (t0, h)); bin = D.div(t0, h); ar = lambda ad: D.fn("call:array S %d" % (2 * n), (ad,))
            pt = lambda k: ar(D.add(bin, q(k))); y0, y1, m0, m1 = pt(0), pt(1), pt(n), pt(n + 1)
            u = D.sub(h, dx); c3 = lambda z: D.mul(z, D.mul(z, z)); six = D.mul(q(6), h)
            S = D.div(D.add(D.mul(m0, c3(u)), D.mul(m1, c3(dx))), six)
            S = D.add(S, D.mul(D.sub(D.div(y0, h), D.div(D.mul(m0, h), q(6))), u)); S = D.add(S, D.mul(D.sub(D.div(y1, h), D.div(D.mul(m1, h), q(6))), dx))
            cond = D.app("&&", (D.app(">", (x, q(a))), D.app("<", (x, q(b))))); want = D.app("ite", (cond, S, ar(q(n - 1))))
            ok = vals[i] == want
        if ok: rep.ob("Spline::eval", "%d knots: the cubic through both knots with the given curvatures" % n, True, "UF-field")
        elif numeric_ok: rep.notes.append("Spline::eval, %d knots: built with operations the prover does not relate to fmod and array access; decided by execution only" % n)
        else: rep.violate("Spline::eval", "%d knots: the cubic through both knots with the given curvatures" % n, found=bool(bad), why="see compiled splines", **(bad[0] if bad else {}))
    # 3. knot curvatures: linear in the knots, hence decided by unit vectors
    T = oblig.run_harness(exe, ["transfer"])["recs"][0]["json"]; tb = []
    for t in T:
        n, k = t["n"], t["k"]; y = [Fr(int(i == k)) for i in range(n)] if k < n else [Fr((i * i * 7 + 3 * i) % 11) - Fr(9, 2) for i in range(n)]
        M = natural(y, (Fr(t["max"]) - Fr(t["min"])) / (n - 1)); want = [float(v) for v in y + M]; got = t["ext"]
        if len(got) != 2 * n or any(not isinstance(g, (int, float)) or abs(g - w) > 1e-8 * (1 + abs(w)) for g, w in zip(got, want)): tb.append(dict(input=dict(knots=[float(v) for v in y], spacing=.25), got=got, want=want))
    rep.bound("SplineTransfer::transfer", "values and natural-spline curvatures in the slots the polynomial reads", len(T), "3 to 40 knots, every unit vector (the map is linear in the knots) and one generic vector", tb[:3])
    # 4. lineshapes as functions of the spline
    d = oblig.run_harness(exe, ["shapes"]); N = d["nodes"]; V = [D.nodes(N) for D in F]; recs = {r["out"]: r["ids"][0] for r in d["recs"] if "ids" in r}; shp = []
    for n, grid in (("rho(770)0", "9 0.25 2.25"), ("omega(782)0", "5 0.5 1.5")):
        t = n[:3] + "."
        res = {}
        for D, v in zip(F, V):
            try:
                for nm, x, y in forms(D, v, n, grid, recs): res[nm] = res.get(nm, True) and x == y
            except (KeyError, TypeError) as e: rep.notes.append("shape missing: %r" % (e,))
        for nm, ok in res.items():
            if ok: rep.ob("lineshapes of " + n, nm, True, "UF-field")
            else:
                w = witness(n, grid, nm, N, recs)
                rep.violate("lineshapes of " + n, nm, found=w is not None, why="the term built is not the documented function of the spline", **(w or {}))
    rep.functions += ["Spline::eval", "Spline::operator()", "getSpline", "SplineTransfer::SplineTransfer", "SplineTransfer::transfer", "SplineTransfer::set", "ASTResolver::resolve<Spline>", "Array::operator[]", "Lineshape::MIPWA::get", "Lineshape::InelasticSpline::get", "Lineshape::DecaySpline::get", "Lineshape::GSpline::get", "Lineshape::FormFactorSpline::get"]
    rep.assumptions += ["fmod(t, h) = t - h trunc(t / h); array access reads the truncated index", "callees Q2, width, kFactor, BlattWeisskopf by their contracts (P15)"]
    rep.trusted += ["lib/uf.py", "harness/h.h", "g++", "GSL LU decomposition (executed, compared)"]
def forms(D, v, n, grid, recs):
    t = n[:3] + "."; q = lambda z: D.const(float(z)); I = D.const(0.0, 1.0); s = D.var("s"); m, r, w = D.var(n + "_mass"), D.var(n + "_radius"), D.var(n + "_width"); A, M_, S_, Dv = D.add, D.mul, D.sub, D.div
    sp = lambda nm, x: D.fn("call:spline %s::Spline::%s %s" % (n, nm, grid), (x,)); fn = lambda f, x: D.app(f, (x,)); g = lambda o: v[recs[t + o]]
    re, im = sp("Re", s), sp("Im", s); ei = lambda x: A(fn("cos", x), M_(I, fn("sin", x)))
    yield "MIPWA", g("MIPWA"), A(re, M_(I, im)); yield "MIPWA.continue", g("MIPWA.continue"), A(re, M_(I, im)); yield "MIPWA.Polar", g("MIPWA.Polar"), M_(re, ei(im))
    eta, de = sp("Eta", s), sp("Delta", s); yield "InelasticSpline", g("InelasticSpline"), Dv(S_(M_(eta, ei(M_(q(2), de))), q(1)), M_(q(2), I))
    yield "DecaySpline", g("DecaySpline"), sp("FF", g("q20"))
    for L in "01234":
        run_w = Dv(M_(w, sp("Gamma", s)), sp("Gamma", M_(m, m)))
        for mod in ("", ".BL", ".EFF", ".Dis", ".BL.Dis", ".EFF.Dis", ".EFF.BL"):
            bf = q(1) if L == "0" else fn("sqrt", g(("bl" if "BL" in mod else "norm") + L))
            if "EFF" in mod: bf = fn("exp", Dv(M_(M_(S_(q(0), g("aq2" + L)), r), r), q(2)))
            rp = M_(m, m)
            if "Dis" in mod: rp = A(rp, S_(sp("dm2", s), sp("dm2", M_(m, m))))
            yield "GSpline%s L=%s" % (mod, L), M_(g("GSpline" + mod + L), S_(S_(rp, M_(I, M_(m, run_w))), s)), M_(g("k" + L), bf)
        yield "FormFactorSpline L=" + L, M_(g("FormFactorSpline" + L), S_(S_(M_(m, m), s), M_(I, M_(m, g("w" + L))))), sp("FF", s)
def witness(n, grid, nm, N, recs):
    """a point at which the real term, evaluated numerically with pseudo-random spline values, differs from the formula"""
    for k in range(30):
        env = uf.env_of(k); D = uf.Flt(lambda v: abs(env(v)))
        try:
            for x, got, want in forms(D, D.nodes(N), n, grid, recs):
                if x == nm and got is not None and not uf.close(got, want, 1e-6): return dict(input=dict(lineshape=n + ":" + nm, values={y: abs(env(y)) for y in ("s", "s1", "s2", n + "_mass", n + "_width", n + "_radius")}, splines="pseudo-random function of the argument"), got=str(got), want=str(want))
        except (KeyError, TypeError, uf.Zero): continue
