"""Terms computed by AmpGen sources compiled over the symbolic scalar of harness/sym/sym.h.
fp(): value of every node in F_p (p = 2^127-1) at a pseudo-random point, literals exact, non-rational functions
uninterpreted unless an interpretation is given; num(): the same over floats or Fractions."""
import os, json, subprocess, glob, math
from fractions import Fraction
import build, uf
P = uf.P
def harness(name, defs=("-DINSTRUCTION_SET=0", "-DENABLE_AVX=0"), extra=(), first=()):
    src = os.path.join(build.VERIF, "harness", "sym", name + ".cpp"); d = os.path.dirname(src)
    deps = build.rheaders() + [src] + glob.glob(d + "/*.h") + glob.glob(d + "/*/*.h") + glob.glob(d + "/*/*/*/*.h") + glob.glob(build.REPO + "/src/*.cpp")
    with build.Lock("s_" + name):
        key = build._hash(deps, "sym" + " ".join(defs + tuple(extra))); exe = os.path.join(build.BUILD, "s_" + name + "." + key)
        if not os.path.exists(exe):
            for f in glob.glob(os.path.join(build.BUILD, "s_" + name + ".*")):
                if not f.endswith(".lock"): os.remove(f)
            r = build.sh(["g++", "-std=c++17", "-w", "-O0", "-fno-access-control", "-fopenmp"] + list(defs) + ["-include", d + "/sym.h"] + ["-I" + x for x in first] +
                         ["-I" + d, "-I" + build.REPO, "-I" + build.incdir(), "-I" + os.path.join(build.VERIF, "rootmini"), src] + list(extra) +
                         ["-o", exe + ".tmp", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy", "-ldl", "-lpthread"])
            if r.returncode: raise build.BuildError("symbolic harness %s:\n%s" % (name, r.stderr[-3000:]))
            os.rename(exe + ".tmp", exe)
    return exe
class Crash(Exception): pass
def run(exe, *args, timeout=120):
    try: r = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired: raise Crash("no answer within %d s" % timeout)
    if r.returncode: raise Crash("exit %d %s" % (r.returncode, r.stderr[-300:].decode(errors="replace")))
    return Term(json.loads(r.stdout))
class Term:
    def __init__(self, d): self.N, self.path, self.out, self.json = d["nodes"], d["path"], d["out"], d["json"]; self._args = {}
    def args(self, n):
        a, l = [], n[3]
        while l >= 0: a.append(self.N[l][2]); l = self.N[l][3]
        return a[::-1]
    def need(self, roots):
        seen, st = set(), list(roots)
        while st:
            i = st.pop()
            if i in seen or i < 0: continue
            seen.add(i); n = self.N[i]
            if n[0] == "app": st += self.args(n) if n[2] < 0 else [n[2]]
            elif n[0] not in "cv": st += n[1:]
        return sorted(seen)
    def fp(self, roots, env=None, app=None, fns=None, seed=1):
        """env: name -> residue (default: random); app: f(name, argument values) -> residue; fns: name -> f(*values) -> residue or None"""
        V = {}
        for i in self.need(roots):
            n = self.N[i]; o = n[0]
            if o == "c": f = Fraction(n[1]); v = f.numerator * pow(f.denominator, -1, P) % P
            elif o == "v":
                v = env(n[1]) if env else None
                if v is None: v = uf._h(seed, "var", n[1])
            elif o == "+": v = (V[n[1]] + V[n[2]]) % P
            elif o == "-": v = (V[n[1]] - V[n[2]]) % P
            elif o == "*": v = V[n[1]] * V[n[2]] % P
            elif o == "/":
                if V[n[2]] == 0: raise uf.Zero()
                v = V[n[1]] * pow(V[n[2]], -1, P) % P
            elif o == "neg": v = -V[n[1]] % P
            elif o == "app":
                if n[2] >= 0: continue
                a = [V[j] for j in self.args(n)]; v = app(n[1], a) if app else None
                if v is None: v = uf._h(seed, "app", n[1], tuple(a))
            else:
                a = [V[j] for j in n[1:]]; v = fns[o](*a) if fns and o in fns else None
                if v is None: v = uf._h(seed, o, tuple(a))
            V[i] = v
        return [V[r] for r in roots]
    def num(self, roots, env, app=None, fns=None, lit=float):
        V = {}; F = dict(fabs=abs, sqrt=math.sqrt, cos=math.cos, sin=math.sin, tan=math.tan, exp=math.exp, log=math.log, acos=math.acos, asin=math.asin, atan=math.atan, atan2=math.atan2, floor=math.floor, ceil=math.ceil, fmod=math.fmod, pow=lambda a, b: a ** b)
        if fns: F.update(fns)
        for i in self.need(roots):
            n = self.N[i]; o = n[0]
            if o == "c": v = lit(n[1])
            elif o == "v": v = env(n[1])
            elif o == "+": v = V[n[1]] + V[n[2]]
            elif o == "-": v = V[n[1]] - V[n[2]]
            elif o == "*": v = V[n[1]] * V[n[2]]
            elif o == "/": v = V[n[1]] / V[n[2]]
            elif o == "neg": v = -V[n[1]]
            elif o == "app":
                if n[2] >= 0: continue
                v = app(n[1], [V[j] for j in self.args(n)])
            else: v = F[o](*[V[j] for j in n[1:]])
            V[i] = v
        return [V[r] for r in roots]
    def ids(self, k): return [x[0] for x in self.out[k]]
    def shadow(self, k): return [x[1] for x in self.out[k]]
class Fp2:
    """a + b i over F_p, p = 3 mod 4, with a floating-point shadow that decides the sign of square roots"""
    __slots__ = ("a", "b", "x")
    def __init__(s, a, b=0, x=0.0): s.a, s.b, s.x = a % P, b % P, x
    def __add__(s, o): return Fp2(s.a + o.a, s.b + o.b, s.x + o.x)
    def __sub__(s, o): return Fp2(s.a - o.a, s.b - o.b, s.x - o.x)
    def __neg__(s): return Fp2(-s.a, -s.b, -s.x)
    def __mul__(s, o): return Fp2(s.a * o.a - s.b * o.b, s.a * o.b + s.b * o.a, s.x * o.x)
    def inv(s):
        n = (s.a * s.a + s.b * s.b) % P
        if n == 0: raise uf.Zero()
        k = pow(n, -1, P); return Fp2(s.a * k, -s.b * k, 1 / s.x if s.x else float("nan"))
    def __truediv__(s, o): return s * o.inv()
    def key(s): return (s.a, s.b)
    def zero(s): return s.a == 0 and s.b == 0
class NoRoot(Exception): pass
class World2:
    """evaluates terms in F_{p^2} at one random point.  sqrt(x) is looked up among the quotients of the values seen so far (so that dependent
    roots get the sign the real numbers have, by the shadow); an independent root gets an arbitrary sign, which is a symmetry of the field."""
    def __init__(s, seed, shadow):
        s.seed = seed; s.sh = shadow; s.var = {}; s.sq = {}; s.vals = []; s.trig = {}; s.ang = {}; s.tanof = {}
    def c(s, f): f = Fraction(f); return Fp2(f.numerator * pow(f.denominator, -1, P), 0, float(f))
    def v(s, n):
        if n not in s.var: s.var[n] = Fp2(uf._h(s.seed, "var", n), 0, s.sh(n)); s.note(s.var[n])
        return s.var[n]
    def note(s, v):
        if v.zero(): return
        k = (v * v).key()
        if k not in s.sq: s.sq[k] = v; s.vals.append(v)
    def sqrt(s, x):
        if x.zero(): return Fp2(0)
        for b in [None] + s.vals:
            k = x if b is None else x * b * b; y = s.sq.get(k.key())
            if y is not None:
                r = y if b is None else y / b
                return -r if r.x < 0 else r
        if x.b == 0:
            r = pow(x.a, (P + 1) // 4, P)
            r = Fp2(r, 0) if r * r % P == x.a else Fp2(0, pow(-x.a % P, (P + 1) // 4, P))
        else:
            n = pow((x.a * x.a + x.b * x.b) % P, (P + 1) // 4, P)
            if n * n % P != (x.a * x.a + x.b * x.b) % P: raise NoRoot()
            h = (x.a + n) * pow(2, -1, P) % P; t = pow(h, (P + 1) // 4, P)
            if t * t % P != h: h = (x.a - n) * pow(2, -1, P) % P; t = pow(h, (P + 1) // 4, P)
            if t * t % P != h or t == 0: raise NoRoot()
            r = Fp2(t, x.b * pow(2 * t, -1, P))
        r.x = math.sqrt(x.x) if x.x > 0 else 0.0; assert (r * r).key() == x.key(); s.note(r); return r
    def circle(s, a):
        k = a.key()
        if k not in s.trig:
            # the shadow of an argument and its negative must agree with the parity of sine and cosine
            m = (-a).key()
            if m in s.trig: c, z = s.trig[m]; s.trig[k] = (c, -z)
            elif a.zero(): s.trig[k] = (Fp2(1, 0, 1.), Fp2(0))
            else: t = Fp2(uf._h(s.seed, "angle", k), 0, math.tan(a.x / 2)); o = Fp2(1, 0, 1.); d = (o + t * t).inv(); s.trig[k] = ((o - t * t) * d, (t + t) * d)
        return s.trig[k]
    # angles known by their tangent: atan(x), their sums and differences
    def atan(s, x):
        k = x.key()
        if k not in s.ang: s.ang[k] = Fp2(uf._h(s.seed, "atan", k), 0, math.atan(x.x)); s.tanof[s.ang[k].key()] = x
        return s.ang[k]
    def angle(s, o, a, b, v):
        x, y = s.tanof.get(a.key()), s.tanof.get(b.key())
        if x is None or y is None or v.key() in s.tanof: return
        if o == "-": y = -y
        d = Fp2(1, 0, 1.) - x * y
        if not d.zero(): s.tanof[v.key()] = (x + y) / d
    def tan(s, a):
        if a.zero(): return Fp2(0)
        k = a.key()
        if k not in s.tanof: s.tanof[k] = Fp2(uf._h(s.seed, "tan", k), 0, math.tan(a.x))
        return s.tanof[k]
    def deriv(s, T, root, name):
        """value and derivative with respect to a variable"""
        V = {}; D = {}; z = Fp2(0)
        for i in T.need([root]):
            n = T.N[i]; o = n[0]; a = n[1:] if o not in ("c", "v", "app") else []; d = z
            if o == "c": v = s.c(n[1])
            elif o == "v": v = s.v(n[1]); d = s.c(1) if n[1] == name else z
            elif o == "+": v = V[a[0]] + V[a[1]]; d = D[a[0]] + D[a[1]]
            elif o == "-": v = V[a[0]] - V[a[1]]; d = D[a[0]] - D[a[1]]
            elif o == "*": v = V[a[0]] * V[a[1]]; d = D[a[0]] * V[a[1]] + V[a[0]] * D[a[1]]
            elif o == "/": v = V[a[0]] / V[a[1]]; d = (D[a[0]] - v * D[a[1]]) / V[a[1]]
            elif o == "neg": v = -V[a[0]]; d = -D[a[0]]
            elif o == "sqrt": v = s.sqrt(V[a[0]]); d = D[a[0]] / (v + v)
            elif o == "tan": v = s.tan(V[a[0]]); d = D[a[0]] * (s.c(1) + v * v)
            elif o == "atan": v = s.atan(V[a[0]]); d = D[a[0]] / (s.c(1) + V[a[0]] * V[a[0]])
            else: raise NoRoot()
            V[i], D[i] = v, d
            if o in "+-" and s.ang: s.angle(o, V[a[0]], V[a[1]], v)
        return V[root], D[root]
    def run(s, T, roots, known=None):
        """values of the nodes; functions other than sqrt, sin, cos are uninterpreted"""
        V = {}
        for i in T.need(roots):
            n = T.N[i]; o = n[0]
            if o == "c": v = s.c(n[1])
            elif o == "v": v = s.v(n[1])
            elif o == "+": v = V[n[1]] + V[n[2]]
            elif o == "-": v = V[n[1]] - V[n[2]]
            elif o == "*": v = V[n[1]] * V[n[2]]
            elif o == "/": v = V[n[1]] / V[n[2]]
            elif o == "neg": v = -V[n[1]]
            elif o == "sqrt": v = s.sqrt(V[n[1]])
            elif o == "cos": v = s.circle(V[n[1]])[0]
            elif o == "sin": v = s.circle(V[n[1]])[1]
            elif o == "fabs": v = V[n[1]]; v = -v if v.x < 0 else v
            elif o == "atan": v = s.atan(V[n[1]])
            elif o == "tan": v = s.tan(V[n[1]])
            elif o == "app":
                if n[2] >= 0: continue
                v = Fp2(uf._h(s.seed, "app", n[1], tuple(V[j].key() for j in T.args(n))), 0, 1.)
            else:
                try: x = getattr(math, o)(*[V[j].x for j in n[1:]])
                except Exception: x = float("nan")
                v = Fp2(uf._h(s.seed, o, tuple(V[j].key() for j in n[1:])), 0, x)
            V[i] = v
            if o in "+-" and s.ang: s.angle(o, V[n[1]], V[n[2]], v)
            if o in ("v", "sqrt", "+", "-", "*", "/"): s.note(v)
        return [V[r] for r in roots]
def fvar(seed, n): return uf._h(seed, "var", n)
def fpc(x): f = Fraction(x); return f.numerator * pow(f.denominator, -1, P) % P
