"""Back ends for the term obligations.

An obligation is a python function over the *outputs* of a harness case (terms the real code built).
It is evaluated over three arithmetic domains with the same code:
  Exact  - pairs (re,im) of rational functions over Q in the inputs, with quadratic generators for square
           roots (g^2 = a) : the deciding back end, complete for identities (normal form zero test)
  Modp   - the same identity in F_p, p = 2^127-1, at random points (Schwartz-Zippel), used when the exact normal
           form does not finish in its time budget; reported separately
  Float  - the numbers the real code computed at a concrete input (replay / falsification)
"""
import random, math, time, hashlib
from fractions import Fraction
from sympy.polys.rings import ring, PolyElement
from sympy import QQ

class Undecided(Exception): pass
class Timeout(Exception): pass
class NeedDecision(Exception):
    def __init__(self, key, desc): self.key = key; self.desc = desc
class Retry(Exception): pass

# ------------------------------------------------------------------ constants
PI_Q = Fraction(31415926535897932384626433832795028841971, 10**40)
def snap(x, maxden=10080):
    """double -> exact value: ('q', Fraction) or ('sq', sign, Fraction) meaning sign*sqrt(Fraction).
    (machine arithmetic treated as mathematical: a double within 4 ulp of a small rational, or of the square
    root of one, stands for that number; any other double stands for its exact binary value)"""
    if x == 0: return ('q', Fraction(0))
    f = Fraction(x)
    r = f.limit_denominator(maxden)
    tol = abs(f) * Fraction(1, 2**50)
    if abs(r - f) <= tol: return ('q', r)
    sq = f * f
    r = sq.limit_denominator(maxden * 10)
    if abs(r - sq) <= 2 * sq * Fraction(1, 2**50): return ('sq', 1 if x > 0 else -1, r)
    d = Fraction("%.13g" % x)     # short decimal literal
    if abs(d - f) <= tol / 2: return ('q', d)
    for k in (1, -1, 2, -2):
        # q*pi^k and sqrt(q)*pi^k
        y = f / PI_Q ** k if k > 0 else f * PI_Q ** (-k)
        r = y.limit_denominator(maxden)
        if abs(r - y) <= abs(y) * Fraction(1, 2**49): return ('pi', 1, Fraction(r) , k, False)
        y2 = y * y; r = y2.limit_denominator(maxden)
        if abs(r - y2) <= 2 * y2 * Fraction(1, 2**49): return ('pi', 1 if x > 0 else -1, r, k, True)
    r = f.limit_denominator(2000000)
    if abs(r - f) <= tol: return ('q', r)
    return ('q', f)

def sqfactors(n):
    """n = a^2 * product(list of pairwise distinct non-square factors); trial division up to 10^4, a remaining cofactor that is
    not a perfect square is kept as one factor"""
    a, fs, p = 1, [], 2
    while p * p <= n and p < 10000:
        e = 0
        while n % p == 0: n //= p; e += 1
        a *= p ** (e // 2)
        if e % 2: fs.append(p)
        p += 1
    if n > 1:
        r = math.isqrt(n)
        if r * r == n: a *= r
        else: fs.append(n)
    return a, fs

# ------------------------------------------------------------------ exact domain
class RF:
    """rational function num / prod(den_i^e_i); num reduced modulo the quadratic relations"""
    __slots__ = ("n", "d")
    def __init__(self, n, d): self.n = n; self.d = d

class Exact:
    name = "exact"
    def __init__(self, varnames, maxgens=24, budget=60):
        self.vn = list(varnames)
        self.ng = maxgens
        names = ["v%d_" % i for i in range(len(self.vn))] + ["g%d_" % i for i in range(maxgens)]
        self.R, *gens = ring(names, QQ)
        self.var_ = dict(zip(self.vn, gens[:len(self.vn)]))
        self.gfree = list(gens[len(self.vn):])
        self.gidx = [len(self.vn) + i for i in range(maxgens)]
        self.rel = []     # (gen, gen index, RF square)
        self.roots = []   # (RF argument, Cx root)
        self.pos = []     # RFs known to be >= 0
        self.defs = {}    # opaque function applications
        self.decisions = {}
        self.t0 = time.time(); self.budget = budget
        self.one = self.R(1); self.zero = self.R(0)
        self.nsqrt = {}
        self.fresh_desc = []
    def tick(self):
        if time.time() - self.t0 > self.budget: raise Timeout()
    # RF arithmetic -----------------------------------------------------------------
    def c(self, q):
        return RF(self.R(QQ(q.numerator, q.denominator)), {})
    def red(self, r):
        """reduce numerator modulo g^2 = a"""
        if not r.n: return RF(self.zero, {})
        for g, gi, sq in reversed(self.rel):
            n = r.n
            deg = n.degree(g)
            if deg < 2: continue
            # group by power of g
            buckets = {}
            for mon, co in n.terms():
                k, rem = divmod(mon[gi], 2)
                m = list(mon); m[gi] = rem
                b = buckets.setdefault(k, {})
                m = tuple(m)
                b[m] = b.get(m, 0) + co
            kmax = max(buckets)
            sd = self.one
            for p, e in sq.d.items(): sd = sd * p ** e
            acc = self.zero
            for k, b in buckets.items():
                poly = self.R.from_dict({m: c for m, c in b.items() if c})
                if k: poly = poly * sq.n ** k
                if kmax - k: poly = poly * sd ** (kmax - k)
                acc = acc + poly
                self.tick()
            d = dict(r.d)
            for p, e in sq.d.items(): d[p] = d.get(p, 0) + e * kmax
            r = self.cancel(RF(acc, d))
            if not r.n: return RF(self.zero, {})
        return r
    def cancel(self, r):
        if not r.d: return r
        if not r.n: return RF(self.zero, {})
        n = r.n; d = {}
        for p, e in r.d.items():
            while e > 0:
                if len(p) > 60 or len(n) > 4000: break
                q, rem = n.div(p)
                if rem: break
                n = q; e -= 1
            if e: d[p] = e
        return RF(n, d)
    def radd(self, a, b, s=1):
        self.tick()
        if not a.n: return b if s == 1 else RF(-b.n, b.d)
        if not b.n: return a
        d = dict(a.d)
        for p, e in b.d.items():
            if d.get(p, 0) < e: d[p] = e
        na, nb = a.n, b.n
        for p, e in d.items():
            k = e - a.d.get(p, 0)
            if k: na = na * p ** k
            k = e - b.d.get(p, 0)
            if k: nb = nb * p ** k
        return self.cancel(self.red(RF(na + nb if s == 1 else na - nb, d)))
    def rmul(self, a, b):
        self.tick()
        if not a.n or not b.n: return RF(self.zero, {})
        a2, b2 = a, b
        d = dict(a.d)
        for p, e in b.d.items(): d[p] = d.get(p, 0) + e
        return self.cancel(self.red(RF(a.n * b.n, d)))
    def rinv(self, a):
        if not a.n: raise ZeroDivisionError("symbolic division by zero")
        n = self.one
        for p, e in a.d.items(): n = n * p ** e
        # normalise the new denominator; split content
        p = a.n
        lc = p.LC
        if p.is_ground: return self.red(RF(n.mul_ground(1 / lc), {}))
        p = p.monic()
        return self.red(RF(n.mul_ground(1 / lc), {p: 1}))
    def rzero(self, a): return not a.n
    def rneg(self, a): return RF(-a.n, a.d)
    # complex elements ----------------------------------------------------------------
    def E(self, re, im=None): return Cx(self, re, im if im is not None else RF(self.zero, {}))
    def const(self, re, im=0.0):
        return self.E(self._const(re), self._const(im))
    def _const(self, x):
        s = snap(x)
        if s[0] == 'q': return self.c(s[1])
        if s[0] == 'pi':
            r = self.sqrtq(s[2]) if s[4] else self.c(s[2])
            p = self.pi().re; p = p if s[3] > 0 else self.rinv(p)
            for _ in range(abs(s[3])): r = self.rmul(r, p)
            return r if s[1] > 0 else self.rneg(r)
        r = self.sqrtq(s[2])
        return r if s[1] > 0 else self.rneg(r)
    def pi(self):
        if not hasattr(self, "_pi"): self._pi = self.newopaque("pi")
        return self.E(self._pi)
    def q(self, a, b=1): return self.E(self.c(Fraction(a, b)))
    def sqrtq(self, q):
        a, fs = sqfactors(q.numerator * q.denominator)
        r = self.c(Fraction(a, q.denominator))
        for p in fs:
            if p not in self.nsqrt: self.nsqrt[p] = self.newgen(self.c(Fraction(p)), "sqrt(%d)" % p)
            r = self.rmul(r, self.nsqrt[p])
        return r
    def newgen(self, sq, desc=""):
        if not self.gfree: raise Undecided("out of generators")
        g = self.gfree.pop(0); gi = self.gidx.pop(0)
        if sq is not None: self.rel.append((g, gi, sq))
        self.fresh_desc.append((str(g), desc))
        return RF(g, {})
    def newopaque(self, desc=""):
        """generator with no relation (value of an uninterpreted function)"""
        if not self.gfree: raise Undecided("out of generators")
        g = self.gfree.pop(0); gi = self.gidx.pop(0)
        self.fresh_desc.append((str(g), desc))
        return RF(g, {})
    def var(self, name):
        if name in getattr(self, "subst", {}): return self.subst[name]
        return self.E(RF(self.R(self.var_[name]), {}))
    def bind(self, name, sq):
        """precondition name^2 = sq (sq over other inputs)"""
        g = self.R(self.var_[name]); self.rel.append((g, self.vn.index(name), sq.re))
    def key(self, rf):
        """structural key of a rational function (semi-canonical)"""
        return (tuple(sorted(rf.n.terms())), tuple(sorted((tuple(sorted(p.terms())), e) for p, e in rf.d.items())))
    def require_pos(self, x):
        """declares x >= 0 (x real) as a precondition usable for sqrt(x^2) = x"""
        self.pos.append(x.re)
    def sqrt(self, x):
        if not self.rzero(x.im): return self.csqrt(x)
        a = x.re
        if not a.n: return self.E(a)
        if a.n.is_ground and not a.d:
            q = Fraction(int(a.n.LC.numerator), int(a.n.LC.denominator))
            if q >= 0: return self.E(self.sqrtq(q))
            return self.E(RF(self.zero, {}), self.sqrtq(-q))
        for r in self.pos:
            if self.rzero(self.radd(a, self.rmul(r, r), -1)): return self.E(r)
        for arg, root in self.roots:
            # ratio constant?
            lhs = self.rmul(a, RF(arg.n, {})) if False else None
            q = self.ratio(a, arg)
            if q is not None:
                if q >= 0: return root * self.E(self.sqrtq(q))
                return None if False else self._negroot(a, x)
        for r in self.pos:
            # a = c * r^2
            q = self.ratio(a, self.rmul(r, r))
            if q is not None and q > 0: return self.E(self.rmul(self.sqrtq(q), r))
        # a = known root argument times the square of a known non-negative quantity
        for arg, root in self.roots:
            for r in self.pos:
                q = self.ratio(a, self.rmul(arg, self.rmul(r, r)))
                if q is not None and q > 0: return root * self.E(self.rmul(self.sqrtq(q), r))
                q = self.ratio(self.rmul(a, self.rmul(r, r)), arg)
                if q is not None and q > 0: return root * self.E(self.rmul(self.sqrtq(q), self.rinv(r)))
        g = self.E(self.newgen(a, "sqrt"))
        self.roots.append((a, g))
        return g
    def _negroot(self, a, x):
        g = self.E(self.newgen(a, "sqrt"))
        self.roots.append((a, g)); return g
    def csqrt(self, x):
        raise Undecided("sqrt of a complex-valued term")
    def ratio(self, a, b):
        """rational constant q with a = q*b, or None"""
        da = a.n; db = b.n
        for p, e in b.d.items():
            k = e - a.d.get(p, 0)
            if k > 0: da = da * p ** k
        for p, e in a.d.items():
            k = e - b.d.get(p, 0)
            if k > 0: db = db * p ** k
        if not da or not db: return None
        ra = self.red(RF(da, {})); rb = self.red(RF(db, {}))
        if ra.d or rb.d: return None
        if len(ra.n) != len(rb.n) or ra.n.LM != rb.n.LM: return None
        q = ra.n.LC / rb.n.LC
        if ra.n - rb.n.mul_ground(q): return None
        return Fraction(int(q.numerator), int(q.denominator))
    def opaque(self, fname, args, real=True):
        key = (fname,) + tuple((self.key(a.re), self.key(a.im)) for a in args)
        if key not in self.defs:
            # compare semantically with existing applications
            for k2, v in self.defs.items():
                if k2[0] == fname and all(self.rzero((a - b).re) and self.rzero((a - b).im) for a, b in zip(args, v[1])):
                    return v[0]
            self.defs[key] = (self.E(self.newopaque(fname), None if real else self.newopaque(fname + ".im")), args)
        return self.defs[key][0]
    def cos(self, x): return self._trig(x)[0]
    def sin(self, x): return self._trig(x)[1]
    def _trig(self, x):
        if self.rzero(x.re) and self.rzero(x.im): return self.q(1), self.q(0)
        for a, cs in getattr(self, "_trigs", []):
            if self.iszero(a - x): return cs
            if self.iszero(a + x): return cs[0], -cs[1]
        c = self.newopaque("cos"); s = self.newgen(self.radd(self.c(Fraction(1)), self.rmul(c, c), -1), "sin")
        cs = (self.E(c), self.E(s))
        if not hasattr(self, "_trigs"): self._trigs = []
        self._trigs.append((x, cs))
        return cs
    def exp(self, x):
        if self.iszero(x): return self.q(1)
        if not self.rzero(x.im):
            c, s = self._trig(self.E(x.im)); m = self.exp(self.E(x.re))
            return m * (c + s * self.I())
        for a, e in getattr(self, "_exps", []):
            if self.iszero(a - x): return e
            if self.iszero(a + x): return self.q(1) / e
            if self.iszero(a + a - x): return e * e
        e = self.opaque("exp", [x])
        if not hasattr(self, "_exps"): self._exps = []
        self._exps.append((x, e))
        return e
    def fn(self, name, args): 
        return self.opaque(name, args)
    def I(self): return self.E(RF(self.zero, {}), self.c(Fraction(1)))
    def iszero(self, x): return self.rzero(x.re) and self.rzero(x.im)
    def equal(self, a, b):
        d = a - b
        return self.iszero(d)
    def cond(self, key, desc=None):
        if key in self.decisions: return self.decisions[key]
        raise NeedDecision(key, desc)
    def compare(self, op, a, b):
        tr = getattr(self, "trace", None)
        if tr is not None:
            if not tr: raise Undecided("path trace exhausted")
            return tr.pop(0)
        d = self.radd(a.re, b.re, -1)
        if not d.n or (d.n.is_ground and not d.d):
            v = 0 if not d.n else (1 if d.n.LC > 0 else -1)
            return {"<": v < 0, ">": v > 0, "<=": v <= 0, ">=": v >= 0, "==": v == 0}[op]
        # canonicalise  a>b  /  a<b
        if op in ("<", ">="): k = ("<", self.key(d)); neg = op == ">="
        elif op in (">", "<="): k = (">", self.key(d)); neg = op == "<="
        else: k = ("==", self.key(d)); neg = False
        if k[0] == ">": # a-b>0  <=> b-a<0
            k = ("<", self.key(self.rneg(d)))
        r = self.cond(k, (op, a, b))
        return (not r) if neg else r

class Cx:
    __slots__ = ("D", "re", "im")
    def __init__(self, D, re, im): self.D = D; self.re = re; self.im = im
    def _c(self, o):
        if isinstance(o, Cx): return o
        if isinstance(o, (int, Fraction)): return self.D.E(self.D.c(Fraction(o)))
        if isinstance(o, float): return self.D.const(o)
        if isinstance(o, complex): return self.D.const(o.real, o.imag)
        return NotImplemented
    def __add__(self, o):
        o = self._c(o); D = self.D
        return Cx(D, D.radd(self.re, o.re), D.radd(self.im, o.im))
    __radd__ = __add__
    def __sub__(self, o):
        o = self._c(o); D = self.D
        return Cx(D, D.radd(self.re, o.re, -1), D.radd(self.im, o.im, -1))
    def __rsub__(self, o): return self._c(o) - self
    def __neg__(self): return Cx(self.D, self.D.rneg(self.re), self.D.rneg(self.im))
    def __mul__(self, o):
        o = self._c(o); D = self.D
        if D.rzero(self.im) and D.rzero(o.im): return Cx(D, D.rmul(self.re, o.re), self.im)
        if D.rzero(o.im): return Cx(D, D.rmul(self.re, o.re), D.rmul(self.im, o.re))
        if D.rzero(self.im): return Cx(D, D.rmul(self.re, o.re), D.rmul(self.re, o.im))
        return Cx(D, D.radd(D.rmul(self.re, o.re), D.rmul(self.im, o.im), -1), D.radd(D.rmul(self.re, o.im), D.rmul(self.im, o.re)))
    __rmul__ = __mul__
    def inv(self):
        D = self.D
        if D.rzero(self.im): return Cx(D, D.rinv(self.re), self.im)
        if D.rzero(self.re): return Cx(D, self.re, D.rneg(D.rinv(self.im)))
        n = D.rinv(D.radd(D.rmul(self.re, self.re), D.rmul(self.im, self.im)))
        return Cx(D, D.rmul(self.re, n), D.rneg(D.rmul(self.im, n)))
    def __truediv__(self, o): return self * self._c(o).inv()
    def __rtruediv__(self, o): return self._c(o) * self.inv()
    def __pow__(self, n):
        if n < 0: return (self ** (-n)).inv()
        r = self.D.q(1); b = self
        while n:
            if n & 1: r = r * b
            n >>= 1
            if n: b = b * b
        return r
    def conj(self): return Cx(self.D, self.re, self.D.rneg(self.im))
    def norm(self): return self * self.conj()
    def real(self): return Cx(self.D, self.re, self.D.c(Fraction(0)))
    def imag(self): return Cx(self.D, self.im, self.D.c(Fraction(0)))

# ------------------------------------------------------------------ F_p domain
PRIME = 2**127 - 1     # = 3 mod 4
class Modp(Exact):
    name = "modp"
    def __init__(self, varnames, seed, budget=60):
        self.rnd = random.Random(seed)
        self.vals = {v: self.rnd.randrange(2, PRIME - 1) for v in varnames}
        self.pos = []; self.defs = {}; self.decisions = {}
        self.t0 = time.time(); self.budget = budget
        self.nsqrt = {}
        self.roots = []
    def tick(self): pass
    def c(self, q): return q.numerator * pow(q.denominator, -1, PRIME) % PRIME
    def radd(self, a, b, s=1): return (a + b) % PRIME if s == 1 else (a - b) % PRIME
    def rmul(self, a, b): return a * b % PRIME
    def rinv(self, a):
        if a == 0: raise ZeroDivisionError("symbolic division by zero")
        return pow(a, -1, PRIME)
    def rzero(self, a): return a == 0
    def rneg(self, a): return (-a) % PRIME
    def E(self, re, im=None): return Cx(self, re, 0 if im is None else im)
    def sqrtq(self, q):
        a, fs = sqfactors(q.numerator * q.denominator)
        r = self.c(Fraction(a, q.denominator))
        for p in fs:
            s = pow(p, (PRIME + 1) // 4, PRIME)
            if s * s % PRIME != p % PRIME: raise Undecided("sqrt(%d) not in F_p" % p)
            r = r * s % PRIME
        return r
    def I(self): return self.E(0, 1)
    def var(self, name):
        if name in getattr(self, "subst", {}): return self.subst[name]
        return self.E(self.vals[name])
    def key(self, v): return v
    def sqrt(self, x):
        if x.im: raise Undecided("sqrt of a complex-valued term")
        a = x.re
        for r in self.pos:
            if r * r % PRIME == a: return self.E(r)
            for q in (2, 4, 8, 3, 6): 
                if q * r * r % PRIME == a: return self.E(self.rmul(self.sqrtq(Fraction(q)), r))
        # exact rationals: keep sign conventions of sqrtq
        s = pow(a, (PRIME + 1) // 4, PRIME)
        if s * s % PRIME != a: raise Retry()
        return self.E(s)
    def bind(self, name, sq):
        self.vals[name] = self.newgen(sq.re)
    def newopaque(self, desc=""): return self.rnd.randrange(2, PRIME - 1)
    def newgen(self, sq, desc=""):
        s = pow(sq, (PRIME + 1) // 4, PRIME)
        if s * s % PRIME != sq: raise Retry()
        return s
    def compare(self, op, a, b):
        tr = getattr(self, "trace", None)
        if tr: return tr.pop(0)
        raise Undecided("comparison in F_p")

# ------------------------------------------------------------------ float domain
class FloatDom:
    name = "float"
    def __init__(self, env): self.env = env; self.decisions = {}; self.seen = {}; self.rec = []
    def var(self, n): return complex(self.env[n])
    def const(self, re, im=0.0): return complex(re, im)
    def q(self, a, b=1): return complex(a / b)
    def I(self): return 1j
    def pi(self): return complex(math.pi)
    def sqrt(self, x):
        import cmath
        return cmath.sqrt(x)
    def cos(self, x):
        import cmath
        return cmath.cos(x)
    def sin(self, x):
        import cmath
        return cmath.sin(x)
    def exp(self, x):
        import cmath
        return cmath.exp(x)
    def fn(self, name, args):
        import cmath
        import scipy.special
        if name == "log": return cmath.log(args[0])
        if name == "atan2": return complex(math.atan2(args[0].real, args[1].real))
        if name == "pow": return args[0] ** args[1]
        return getattr(cmath, name)(args[0])
    def require_pos(self, x): pass
    def compare(self, op, a, b):
        a, b = a.real, b.real
        r = self._cmp(op, a, b); self.rec.append(r); return r
    def _cmp(self, op, a, b):
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b}[op]

def conj(x): return x.conjugate() if isinstance(x, (complex, float, int)) else x.conj()
def re(x): return complex(x.real) if isinstance(x, complex) else x.real()
def im(x): return complex(x.imag) if isinstance(x, complex) else x.imag()

# ------------------------------------------------------------------ term evaluation
def eval_nodes(nodes, ids, D, memo, varmap=None):
    """evaluate exported DAG nodes in domain D (iterative post-order)"""
    def val(i):
        return memo[i]
    stack = list(ids)
    while stack:
        i = stack[-1]
        if i in memo: stack.pop(); continue
        n = nodes[i]; op = n[0]
        if op == "ite":
            fx = getattr(D, "fixed", None)
            if fx is not None and ("c", n[1]) in fx: t = fx[("c", n[1])]
            else:
                if n[1] not in memo: stack.append(n[1]); continue
                t = truth(memo[n[1]], D)
                if isinstance(D, FloatDom): D.seen[("c", n[1])] = bool(t)
            b = n[2] if t else n[3]
            if b not in memo: stack.append(b); continue
            memo[i] = memo[b]; stack.pop(); continue
        if op in ("const", "var", "cvar", "other", "null"): kids = []
        elif op == "sub": kids = [n[1]]
        elif op == "fn": kids = n[2:]
        else: kids = n[1:]
        todo = [k for k in kids if k not in memo]
        if todo: stack.extend(todo); continue
        if op == "abs" and not isinstance(memo[kids[0]], Bool):
            fx = getattr(D, "fixed", None)
            if fx is not None and ("a", i) in fx:
                memo[i] = memo[kids[0]] if fx[("a", i)] else -memo[kids[0]]; stack.pop(); continue
            if isinstance(D, FloatDom) and abs(memo[kids[0]].imag) <= 1e-12 * abs(memo[kids[0]]): D.seen[("a", i)] = memo[kids[0]].real >= 0
        memo[i] = apply(op, n, [memo[k] for k in kids], D, varmap)
        stack.pop()
    return [memo[i] for i in ids]

class Bool:
    __slots__ = ("v",)
    def __init__(self, v): self.v = v

def truth(x, D):
    if isinstance(x, Bool): return x.v
    return not D.compare("==", x, D.q(0))

def apply(op, n, a, D, varmap=None):
    if op == "const":
        v = [float(t) if not isinstance(t, str) else float(t) for t in n[1:3]]
        return D.const(v[0], v[1])
    if op == "var":
        if varmap and n[1] in varmap: return varmap[n[1]]
        return D.var(n[1])
    if op == "sub": return a[0]
    a = [x if not isinstance(x, Bool) else D.q(1 if x.v else 0) for x in a] if op not in ("&&", "||") else a
    if op == "+": return a[0] + a[1]
    if op == "-": return a[0] - a[1]
    if op == "*": return a[0] * a[1]
    if op == "/": return a[0] / a[1]
    if op in ("<", ">", "<=", ">=", "=="): return Bool(D.compare(op, a[0], a[1]))
    if op == "&&": return Bool(truth(a[0], D) and truth(a[1], D))
    if op == "||": return Bool(truth(a[0], D) or truth(a[1], D))
    if op == "sqrt": return D.sqrt(a[0])
    if op == "isqrt": return D.q(1) / D.sqrt(a[0])
    if op == "conj": return conj(a[0])
    if op == "re": return re(a[0])
    if op == "im": return im(a[0])
    if op == "norm": return a[0] * conj(a[0])
    if op == "abs":
        if isinstance(D, FloatDom):
            if abs(a[0].imag) <= 1e-10 * abs(a[0]): D.rec.append(a[0].real >= 0)
            return complex(abs(a[0]))
        if D.rzero(a[0].im): return a[0] if D.compare(">=", a[0], D.q(0)) else -a[0]
        return D.sqrt(a[0] * conj(a[0]))
    if op == "cos": return D.cos(a[0])
    if op == "sin": return D.sin(a[0])
    if op == "tan": return D.sin(a[0]) / D.cos(a[0])
    if op == "exp": return D.exp(a[0])
    if op == "pow":
        e = n[2]
        x = a[1]
        if isinstance(D, FloatDom): return a[0] ** a[1]
        if D.rzero(x.im):
            for k in range(-12, 13):
                if D.iszero(x - D.q(k)): return a[0] ** k
                if D.iszero(x - D.q(2 * k + 1, 2)): return a[0] ** k * D.sqrt(a[0])
        return D.fn("pow", a)
    if op in ("log", "asin", "acos", "atan", "lgamma", "atan2", "fmod"): return D.fn(op, a)
    raise Undecided("node type " + op)

# ------------------------------------------------------------------ plain polynomials (many variables)
class PE:
    """polynomial with Gaussian-rational coefficients: {sorted tuple of variables: (re,im)}"""
    __slots__ = ("D", "t")
    def __init__(self, D, t): self.D = D; self.t = t
    def _c(self, o):
        if isinstance(o, PE): return o
        if isinstance(o, (int, Fraction)): return PE(self.D, {(): (Fraction(o), Fraction(0))} if o else {})
        if isinstance(o, float): return self.D.const(o)
        if isinstance(o, complex): return self.D.const(o.real, o.imag)
        return NotImplemented
    def __add__(self, o, s=1):
        o = self._c(o); t = dict(self.t)
        for m, (a, b) in o.t.items():
            c = t.get(m)
            if c is None: t[m] = (s * a, s * b)
            else:
                c = (c[0] + s * a, c[1] + s * b)
                if c == (0, 0): del t[m]
                else: t[m] = c
        return PE(self.D, t)
    __radd__ = __add__
    def __sub__(self, o): return self.__add__(o, -1)
    def __rsub__(self, o): return self._c(o) - self
    def __neg__(self): return PE(self.D, {m: (-a, -b) for m, (a, b) in self.t.items()})
    def __mul__(self, o):
        o = self._c(o); t = {}
        for m1, (a, b) in self.t.items():
            for m2, (c, d) in o.t.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                v = (a * c - b * d, a * d + b * c)
                w = t.get(m)
                t[m] = v if w is None else (w[0] + v[0], w[1] + v[1])
        return PE(self.D, {m: v for m, v in t.items() if v != (0, 0)})
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = self._c(o)
        if set(o.t) - {()} or not o.t: raise Undecided("division by a non-constant polynomial")
        a, b = o.t[()]; n = a * a + b * b
        return self * PE(self.D, {(): (a / n, -b / n)})
    def conj(self): return PE(self.D, {m: (a, -b) for m, (a, b) in self.t.items()})
    def conjugate(self): return self.conj()
class PolyDom:
    name = "poly"
    def __init__(self, *a): self.decisions = {}
    def const(self, re, im=0.0):
        def c(x):
            s = snap(x)
            if s[0] != 'q': raise Undecided("irrational constant")
            return s[1]
        v = (c(re), c(im)); return PE(self, {(): v} if v != (0, 0) else {})
    def q(self, a, b=1): return PE(self, {(): (Fraction(a, b), Fraction(0))} if a else {})
    def var(self, n): return PE(self, {(n,): (Fraction(1), Fraction(0))})
    def I(self): return PE(self, {(): (Fraction(0), Fraction(1))})
    def equal(self, a, b): return not (a - b).t
    def iszero(self, a): return not a.t
    def rzero(self, x): return False
    def compare(self, op, a, b): raise Undecided("comparison")
    def sqrt(self, x): raise Undecided("sqrt")
    cos = sin = exp = sqrt
    def fn(self, *a): raise Undecided("function")
    def require_pos(self, x): pass
