"""P22: vectorised arithmetic is scalar arithmetic in every lane."""
import build, uf, llvmir, os, subprocess, ctypes, random, math, cmath, tempfile, shutil
LEVEL = "proof"
SRC = os.path.join(build.VERIF, "harness", "lanes", "simd_lanes.cpp")
FLAGS = ["-std=c++17", "-w", "-mavx2", "-mfma", "-DINSTRUCTION_SET=2", "-DENABLE_AVX=1", "-DUSE_MVEC=1", "-DHAVE_AVX2_INSTRUCTIONS"]
def specs(D):
    """name -> function(lane k, a, b, c) giving the list of (cell, term); a, b, c map a cell number to a term"""
    R = llvmir.Run(D, {}); K = lambda x: D.const(float(x)); A, S, M, V = D.add, D.sub, D.mul, D.div; f = lambda n, *x: R.fn(n, list(x)); neg = lambda x: S(K(0), x)
    lt = lambda x, y: D.app("<", (x, y)); eq = lambda x, y: D.app("==", (x, y)); no = lambda c: S(K(1), c); ite = lambda c, x, y: A(M(c, x), M(no(c), y)); ab = lambda x: D.app("abs", (x,))
    both = lambda p, q: M(p, q); either = lambda p, q: S(A(p, q), M(p, q))
    r1 = lambda g: (lambda k, a, b, c: [(k, g(a(k)))]); r2 = lambda g: (lambda k, a, b, c: [(k, g(a(k), b(k)))]); r3 = lambda g: (lambda k, a, b, c: [(k, g(a(k), b(k), c(k)))])
    z = lambda x, k: (x(k), x(k + 4)); out = lambda k, w: [(k, w[0]), (k + 4, w[1])]
    c1 = lambda g: (lambda k, a, b, c: out(k, g(z(a, k)))); c2 = lambda g: (lambda k, a, b, c: out(k, g(z(a, k), z(b, k)))); cr = lambda g: (lambda k, a, b, c: out(k, g(z(a, k), (b(k), K(0))))); rc = lambda g: (lambda k, a, b, c: out(k, g((a(k), K(0)), z(b, k))))
    cs = lambda g: (lambda k, a, b, c: out(k, g(z(a, k), (b(0), K(0))))); sc = lambda g: (lambda k, a, b, c: out(k, g((a(0), K(0)), z(b, k)))); c1r = lambda g: (lambda k, a, b, c: [(k, g(z(a, k)))])
    cadd = lambda u, v: (A(u[0], v[0]), A(u[1], v[1])); csub = lambda u, v: (S(u[0], v[0]), S(u[1], v[1])); cmul = lambda u, v: (S(M(u[0], v[0]), M(u[1], v[1])), A(M(u[0], v[1]), M(u[1], v[0]))); nrm = lambda u: A(M(u[0], u[0]), M(u[1], u[1]))
    def cdiv(u, v): n = nrm(v); w = cmul(u, (v[0], neg(v[1]))); return V(w[0], n), V(w[1], n)
    def csqrt(u): r = f("sqrt", nrm(u)); im = f("sqrt", M(K(.5), S(r, u[0]))); return f("sqrt", M(K(.5), A(r, u[0]))), ite(lt(u[1], K(0)), neg(im), im)
    def cexp(u): e = f("exp", u[0]); return M(e, f("cos", u[1])), M(e, f("sin", u[1]))
    def fmod(x, y): r = S(ab(x), M(f("floor", V(ab(x), ab(y))), ab(y))); return ite(lt(K(0), x), r, neg(r))
    cite = lambda p, u, v: (ite(p, u[0], v[0]), ite(p, u[1], v[1])); two = lambda x: (x, K(0))
    T = dict(add=r2(A), sub=r2(S), mul=r2(M), div=r2(V), neg=r1(neg), adda=r2(A), suba=r2(S), mula=r2(M), diva=r2(V),
        lt=r3(lambda x, y, w: ite(lt(x, y), w, x)), gt=r3(lambda x, y, w: ite(lt(y, x), w, x)), le=r3(lambda x, y, w: ite(no(lt(y, x)), w, x)), ge=r3(lambda x, y, w: ite(no(lt(x, y)), w, x)), eq=r3(lambda x, y, w: ite(eq(x, y), w, x)),
        xor1=r3(lambda x, y, w: ite(either(both(lt(x, y), no(lt(y, w))), both(no(lt(x, y)), lt(y, w))), w, x)) if 0 else r3(lambda x, y, w: ite(S(A(lt(x, y), lt(y, w)), M(K(2), M(lt(x, y), lt(y, w)))), w, x)),
        selt=r2(lambda x, y: x), self=r2(lambda x, y: y), sqrt=r1(lambda x: f("sqrt", x)), abs=r1(ab), sin=r1(lambda x: f("sin", x)), cos=r1(lambda x: f("cos", x)), exp=r1(lambda x: f("exp", x)), log=r1(lambda x: f("log", x)), tan=r1(lambda x: V(f("sin", x), f("cos", x))),
        sincos1=r1(lambda x: f("sin", x)), sincos2=r1(lambda x: f("cos", x)), atan2=r2(lambda y, x: f("atan2", y, x)), fmadd=r3(lambda x, y, w: A(M(x, y), w)), fmod=r2(fmod), remainder=r2(lambda x, y: S(x, M(f("floor", V(x, y)), y))), sign=r1(lambda x: ite(lt(x, K(0)), K(-1), K(1))), conj=r1(lambda x: x),
        bcast=lambda k, a, b, c: [(k, a(0))], four=r1(lambda x: x), toarr=r1(lambda x: x), at=r1(lambda x: x), fromarr=r1(lambda x: x), gather=lambda k, a, b, c: [(k, D.fn("load a 8", [f("floor", b(k))], True))],
        cadd=c2(cadd), csub=c2(csub), cmul=c2(cmul), cdiv=c2(cdiv), cneg=c1(lambda u: (neg(u[0]), neg(u[1]))), cadda=c2(cadd), csuba=c2(csub), cmula=c2(cmul), cdiva=c2(cdiv),
        creal=c1r(lambda u: u[0]), cimag=c1r(lambda u: u[1]), creal_m=c1r(lambda u: u[0]), cimag_m=c1r(lambda u: u[1]), cabs=c1r(lambda u: f("sqrt", nrm(u))), cnorm=c1r(nrm), cnorm_m=c1r(nrm), unorm=c1r(nrm), cconj=c1(lambda u: (u[0], neg(u[1]))), cexp=c1(cexp), csqrt=c1(csqrt), clog=c1(lambda u: (M(K(.5), f("log", nrm(u))), f("atan2", u[1], u[0]))),
        csel=lambda k, a, b, c: out(k, cite(lt(a(k), b(k)), z(b, k), z(c, k))), csel_r=lambda k, a, b, c: out(k, cite(lt(a(k), b(k)), two(b(k)), z(c, k))), csel_l=lambda k, a, b, c: out(k, cite(lt(a(k), b(k)), z(c, k), two(b(k)))), cselt=c2(lambda u, v: u), cself=c2(lambda u, v: v),
        c_std=lambda k, a, b, c: out(k, (a(0), a(1))), c_real=lambda k, a, b, c: out(k, two(a(k))), c_rs=lambda k, a, b, c: out(k, (a(k), b(0))),
        sum=lambda k, a, b, c: [(0, A(A(a(0), a(1)), A(a(2), a(3))))], allof=lambda k, a, b, c: [(0, M(M(lt(a(0), b(0)), lt(a(1), b(1))), M(lt(a(2), b(2)), lt(a(3), b(3)))))], get=r1(lambda x: x), cget=lambda k, a, b, c: [(0, a(2)), (1, a(6)), (2, a(1)), (3, a(5))], ustore=r1(lambda x: x), uat=r1(lambda x: x))
    T["not"] = r3(lambda x, y, w: ite(no(lt(x, y)), w, x))
    for n in ("and", "and1"): T[n] = r3(lambda x, y, w: ite(both(lt(x, y), lt(y, w)), w, x))
    for n in ("or", "or1"): T[n] = r3(lambda x, y, w: ite(either(lt(x, y), lt(y, w)), w, x))
    for o, g in (("add", cadd), ("sub", csub), ("mul", cmul), ("div", cdiv)): T["cr_" + o] = cr(g); T["rc_" + o] = rc(g); T["cs_" + o] = cs(g); T["sc_" + o] = sc(g)
    return T
class Num(uf.Flt):
    """concrete evaluation of the specification"""
    def __init__(self, a): self.a = a
    def var(self, n): return complex(self.a[n[0]][int(n[1:])])
    def fn(self, name, x, real=False):
        if name == "floor": return complex(math.floor(x[0].real))
        if name.startswith("load a"): return complex(self.a["a"][int(x[0].real)])
        return self.app(name, x)
    def app(self, op, a):
        if op in ("floor",): return self.fn(op, a)
        return uf.Flt.app(self, op, a)
def run(rep, deep, seed):
    tmp = tempfile.mkdtemp(prefix="p22", dir=build.BUILD)
    try: _run(rep, deep, seed, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
def variant(rep, tmp, inc, deep, rng, names, vals, arm):
    """the other vector types, executed: single precision (eight lanes holding the inputs and their mirror image), ARM (two lanes, NEON intrinsics replaced by stand-ins)"""
    what = "ARM" if arm else "single-precision"; so = os.path.join(tmp, "v%d.so" % arm); fl = [f for f in FLAGS if "INSTRUCTION_SET" not in f and not (arm and ("MVEC" in f or f == "-mfma"))]
    sel = ["-DLANES_ARM", "-DINSTRUCTION_SET=10", "-I" + os.path.join(os.path.dirname(SRC), "neon")] if arm else ["-DLANES_FLOAT", "-DINSTRUCTION_SET=1"]
    r = subprocess.run(["g++", "-O3", "-ffast-math", "-fno-finite-math-only", "-fPIC", "-shared"] + sel + fl + inc + [SRC, "-o", so, "-lmvec", "-lm"], capture_output=True, text=True)
    if r.returncode: rep.notes.append("the %s type does not compile with this harness, not covered: " % what + r.stderr[-300:]); return
    lib = ctypes.CDLL(so); bad = {}; n = 0; f32 = (lambda x: x) if arm else lambda x: ctypes.c_float(x).value; done = []; eps = 1e-6 if arm else 1
    for nm in names:
        if not hasattr(lib, "w_" + nm): continue
        fnc = getattr(lib, "w_" + nm); done.append(nm)
        for it in range(700 if deep else 140):
            a, b, c = [[f32(x) for x in v] for v in vals(it % 6)]
            if nm == "gather": b = [float(rng.randint(0, 7)) for _ in range(8)]
            if nm == "log": a = [f32(abs(x) + .1) for x in a]
            if nm == "sqrt": a = [abs(x) for x in a]
            buf = [(ctypes.c_double * 8)(*x) for x in (a, b, c)]; o = (ctypes.c_double * 8)(*([float("nan")] * 8)); fnc(*buf, o); D = Num(dict(a=a, b=b, c=c)); T = specs(D)[nm]; g = lambda q: (lambda k: D.var("%s%d" % (q, k)))
            for k in range(4):
                try: want = T(k, g("a"), g("b"), g("c"))
                except uf.Zero: continue
                if nm == "fmod": want = [(k, complex(math.fmod(a[k], b[k])))]
                if nm in ("fmod", "remainder") and (abs(a[k] / b[k] - round(a[k] / b[k])) < 1e-3 or abs(a[k] / b[k]) > 50): continue
                for cell, w in want:
                    n += 1; w = w.real; x = o[cell]; scale = max(map(abs, a + b + c)); z = max(abs(a[k]), abs(a[k + 4])); y = max(1e-3, min(1, abs(b[k]), math.hypot(b[k], b[k + 4]), abs(b[0])))
                    tol = 3e-5 * (1 + abs(w)) + 1e-5 * scale * scale
                    tol *= eps
                    if "div" in nm or nm in ("fmod", "remainder"): tol *= 1 / y ** 2
                    if nm == "tan": tol *= 1 + w * w
                    if nm == "csqrt": tol = 3e-3 * (1 + scale) * eps ** .5
                    if nm in ("clog", "atan2") and math.hypot(a[k], a[k + 4] if nm == "clog" else b[k]) < 1e-2: continue
                    if nm in ("clog", "atan2", "csqrt") and abs(w) > 3.14: w = abs(w); x = abs(x)
                    if not abs(x - w) <= tol and not (w != w): bad.setdefault(nm, dict(input=dict(operation="%s (%s vector type)" % (nm, what), lane=cell % 4, a=a, b=b, c=c), got=x, want=w))
    rep.bound(what + " vector type, executed", "every lane of every operation", n, "%d operations, 140 inputs each" % len(done), list(bad.values()))
    rep.functions.append(("ARM128d" if arm else "AVX2f") + "::real_v, complex_v (executed)")
    if arm: rep.trusted.append("harness/lanes/neon/arm_neon.h (meaning of the NEON intrinsics)")
def _run(rep, deep, seed, tmp):
    inc = build.incflags() + ["-I" + os.path.dirname(SRC)]
    so = os.path.join(tmp, "l.so"); r = subprocess.run(["g++", "-O3", "-ffast-math", "-fno-finite-math-only", "-fPIC", "-shared"] + FLAGS + inc + [SRC, "-o", so, "-lmvec", "-lm"], capture_output=True, text=True)
    if r.returncode: raise build.BuildError("lanes: " + r.stderr[-3000:])
    ll = os.path.join(tmp, "l.ll"); r = subprocess.run(["clang++", "-O2", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-S", "-emit-llvm"] + FLAGS + inc + [SRC, "-o", ll], capture_output=True, text=True)
    fs, st = llvmir.functions(open(ll).read()) if r.returncode == 0 else ({}, {})
    if r.returncode: rep.notes.append("clang does not accept the headers: decided by execution only: " + r.stderr[-300:])
    lib = ctypes.CDLL(so); rng = random.Random("p22:%d" % seed); names = list(specs(uf.UF(1))); bad = {}; n = 0
    def vals(kind):
        r = [[rng.uniform(-3, 3) for _ in range(8)] for _ in range(3)]
        if kind == 1: r = [[abs(x) for x in y] for y in r]
        if kind == 2: r[1] = [rng.choice((x, -x, y)) for x, y in zip(r[0], r[1])]
        if kind == 3: r = [[float(rng.choice((-2, -1, 0, 1, 2))) for _ in y] for y in r]
        if kind == 4: r = [[float(rng.choice((1, 2, 3, 5))) for _ in y] for y in r]
        if kind == 5: r[0] = r[0][:4] + [0.0] * 4
        if kind == 6: r = [[x * 10 ** rng.randint(-6, 6) for x in y] for y in r]
        return r
    for nm in names:
        fnc = getattr(lib, "w_" + nm)
        for it in range(2000 if deep else 210):
            a, b, c = vals(it % 7)
            if nm == "gather": b = [float(rng.randint(0, 7)) + rng.choice((0, .25, .75)) for _ in range(8)]; b = [min(x, 7.0) for x in b]
            if nm in ("log",): a = [abs(x) + .1 for x in a]
            if nm == "sqrt": a = [abs(x) for x in a]
            buf = [(ctypes.c_double * 8)(*x) for x in (a, b, c)]; o = (ctypes.c_double * 8)(*([float("nan")] * 8)); fnc(*buf, o); D = Num(dict(a=a, b=b, c=c)); T = specs(D)[nm]; g = lambda q: (lambda k: D.var("%s%d" % (q, k)))
            for k in range(4):
                try: want = T(k, g("a"), g("b"), g("c"))
                except uf.Zero: continue
                if nm == "fmod": want = [(k, complex(math.fmod(a[k], b[k])))]
                for cell, w in want:
                    n += 1; w = w.real; x = o[cell]; scale = max(map(abs, a + b + c))
                    if nm in ("fmod", "remainder"):
                        q = (a[k] / b[k]); 
                        if abs(q - round(q)) < 1e-9 * max(1, abs(q)) or abs(q) > 1e6: continue    # quotient at an integer up to rounding
                    tol = 1e-11 * max(1e-300, abs(w)) + 1e-13 * (scale * scale if nm[0] == "c" or nm[:2] in ("rc", "sc") else scale)
                    if nm in ("cdiv", "cdiva", "rc_div", "sc_div", "tan"): tol += 1e-10 * (1 + abs(w))
                    if nm == "csqrt": tol = 1e-7 * (1 + scale)
                    if nm == "clog": tol += 1e-9
                    if not abs(x - w) <= tol and not (w != w): bad.setdefault(nm, dict(input=dict(operation=nm, lane=cell % 4, a=a, b=b, c=c), got=x, want=w))
    for arm in (0, 1): variant(rep, tmp, inc, deep, rng, names, vals, arm)
    rep.bound("vector types, executed", "every lane of every operation", n, "%d operations, 210 inputs each (zeros, equal lanes, signs, magnitudes 1e-6 to 1e6)" % len(names), list(bad.values()))
    for nm in names:
        ok = True; why = None
        if not fs: break
        for k0 in range(3):
            D = uf.UF(seed * 10 + k0); R = llvmir.Run(D, st)
            try:
                if "w_" + nm not in fs: raise llvmir.Unsupported("missing")
                mem = R.run(fs, "w_" + nm); T = specs(D)[nm]; g = lambda q: (lambda k: D.var("%s%d" % (q, k)))
                for k in range(4):
                    for cell, w in T(k, g("a"), g("b"), g("c")):
                        x = mem.get(("o", 8 * cell), llvmir.UNDEF)
                        if x is llvmir.UNDEF: ok = False; why = "lane %d of the result is not defined" % cell
                        elif R.f(x) != w: ok = False; why = why or "lane %d" % cell
            except llvmir.Unsupported as e: ok = None; why = str(e); break
            if not ok: break
        if ok: rep.ob("lanes", nm, True, "symbolic execution of the compiled code (LLVM IR), UF-field")
        elif ok is None: rep.notes.append("lanes/%s: %s; decided by execution only" % (nm, why))
        elif nm in bad: rep.violate("lanes", nm, found=True, why=why, **bad[nm])
        elif why and "not defined" in why: rep.violate("lanes", nm, found=True, why=why, input=dict(operation=nm, any_input=True))
        else: rep.violate("lanes", nm, found=False, why=why)
    rep.functions += ["AVX2d::" + x for x in ("real_v", "operator+ - * / (all)", "comparisons, logic, select", "sqrt abs sin cos exp log tan sincos atan2", "fmadd fmod remainder sign gather", "complex_v select")] + ["Complex<T> arithmetic", "Complex<T> exp sqrt log abs norm conj", "utils::sum_elements", "utils::all_of", "utils::get", "utils::at", "utils::store", "utils::norm"]
    rep.assumptions += ["rounding treated as exact; NaN operands of comparisons not considered", "libmvec and libm compute the function they are named for in every lane", "clang's translation of the headers to LLVM IR", "indices of gathers below 2^51"]
    rep.trusted += ["lib/llvmir.py", "lib/uf.py", "clang++", "g++"]
