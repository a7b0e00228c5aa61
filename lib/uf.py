"""Decision procedure for the expression-engine obligations: equality of terms in the theory of complex numbers
(field operations, conjugation, real and imaginary part interpreted; every other node kind - sqrt, exp, pow with a
non-integer exponent, comparisons, conditionals, named functions - uninterpreted, i.e. only congruence is used).
Terms are evaluated in F_{p^2}, p = 2^127-1, at random points; uninterpreted applications get a value that is a hash of
function name and argument values.  An identity that holds at the random point is false with probability < deg * 2^-126
(Schwartz-Zippel).  Literals are the exact rational value of the double."""
import hashlib, cmath, math, random
from fractions import Fraction
P = 2**127 - 1
class Zero(Exception): pass
def _h(*a): return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=32).digest(), "big") % P
class UF:
    def __init__(self, seed=1): self.seed = seed; self._inv = {}
    def const(self, re, im=0.0): return (self._c(re), self._c(im))
    def _c(self, x):
        if isinstance(x, str): x = float(x)
        if isinstance(x, float):
            if x != x or x - x != 0: return _h(self.seed, "special", repr(x))
        f = Fraction(x); return f.numerator * pow(f.denominator, -1, P) % P
    def var(self, n): return (_h(self.seed, "var", n), 0)
    def add(self, a, b): return ((a[0] + b[0]) % P, (a[1] + b[1]) % P)
    def sub(self, a, b): return ((a[0] - b[0]) % P, (a[1] - b[1]) % P)
    def mul(self, a, b): return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)
    def div(self, a, b):
        n = (b[0] * b[0] + b[1] * b[1]) % P
        if n == 0: raise Zero()
        i = pow(n, -1, P); return self.mul(a, (b[0] * i % P, -b[1] * i % P))
    def fn(self, name, args, real=False):
        args = tuple(args)
        return (_h(self.seed, name, args), 0 if real else _h(self.seed, name, args, "i"))
    def pow(self, a, b):
        if b[1] == 0:
            for k in range(0, 13):
                if b[0] == k or b[0] == (-k) % P:
                    r = (1, 0)
                    for _ in range(k): r = self.mul(r, a)
                    return r if b[0] == k else self.div((1, 0), r)
        return self.fn("pow", (a, b))
    def app(self, op, a):
        if op == "+": return self.add(*a)
        if op == "-": return self.sub(*a)
        if op == "*": return self.mul(*a)
        if op == "/": return self.div(*a)
        if op == "neg": return self.sub((0, 0), a[0])
        if op == "conj": return (a[0][0], -a[0][1] % P)
        if op == "re": return (a[0][0], 0)
        if op == "im": return (a[0][1], 0)
        if op == "norm": return self.mul(a[0], (a[0][0], -a[0][1] % P))
        if op == "isqrt": return self.div((1, 0), self.fn("sqrt", a))
        if op == "pow": return self.pow(*a)
        if op in ("<", ">", "<=", ">="): 
            if op == ">": return self.fn("<", ((a[1][0], 0), (a[0][0], 0)), True)
            if op == ">=": return self.fn("<=", ((a[1][0], 0), (a[0][0], 0)), True)
            return self.fn(op, ((a[0][0], 0), (a[1][0], 0)), True)
        if op == "==": return self.fn("==", sorted(a), True)
        if op in ("&&", "||"): return self.fn(op, a, True)
        if op == "ite":
            if a[0] == (1, 0): return a[1]
            if a[0] == (0, 0): return a[2]
            if a[1] == a[2]: return a[1]
            return self.fn("ite", a)
        if op in ("abs", "atan2", "lgamma", "fmod"): return self.fn(op, a, True)
        return self.fn(op, a)
    def nodes(self, N):
        """values of all exported nodes (children have smaller ids); None where undefined (division by zero)"""
        V = []
        for n in N:
            op = n[0]
            try:
                if op == "const": v = self.const(n[1], n[2])
                elif op == "var": v = self.var(n[1])
                elif op == "cvar": v = (self.var(n[1])[0], self.var(n[2])[0])
                elif op == "sub": v = V[n[1]]
                elif op == "fn":
                    a = [V[i] for i in n[2:]]; v = None if None in a else self.fn("call:" + n[1], a)
                elif op in ("other", "null"): v = self.fn("other", [n[1] if len(n) > 1 else ""])
                else:
                    a = [V[i] for i in n[1:]]; v = None if None in a else self.app(op, a)
            except Zero: v = None
            V.append(v)
        return V
class Snap(UF):
    """literals within rounding of a fraction with denominator below 1000 are read as that fraction (constants folded while the term is built)"""
    def _c(self, x):
        if isinstance(x, str): x = float(x)
        if isinstance(x, float) and x == x and x - x == 0:
            f = Fraction(x).limit_denominator(1000)
            if abs(float(f) - x) <= 4e-16 * abs(x): x = f
        return UF._c(self, x)
class Flt:
    """the same interface over machine complex numbers (concrete witness search)"""
    def __init__(self, env): self.env = env
    def const(self, re, im=0.0): return complex(float(re), float(im))
    def var(self, n): return complex(self.env(n))
    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b
    def mul(self, a, b): return a * b
    def div(self, a, b):
        if b == 0: raise Zero()
        return a / b
    def fn(self, name, args, real=False):
        # stable pseudo-values for named functions
        h = _h(name, tuple(complex(round(z.real, 9), round(z.imag, 9)) if z == z else 0 for z in args)) / P
        return complex(h, 0 if real else 1 - h)
    def app(self, op, a):
        try:
            x = a[0]
            if op == "+": return a[0] + a[1]
            if op == "-": return a[0] - a[1]
            if op == "*": return a[0] * a[1]
            if op == "/": return self.div(*a)
            if op == "neg": return -x
            if op == "conj": return x.conjugate()
            if op == "re": return complex(x.real)
            if op == "im": return complex(x.imag)
            if op == "norm": return complex(abs(x) ** 2)
            if op == "abs": return complex(abs(x))
            if op == "isqrt": return 1 / cmath.sqrt(x)
            if op == "pow": return x ** a[1]
            if op == "<": return complex(x.real < a[1].real)
            if op == ">": return complex(x.real > a[1].real)
            if op == "<=": return complex(x.real <= a[1].real)
            if op == ">=": return complex(x.real >= a[1].real)
            if op == "==": return complex(x == a[1])
            if op == "&&": return complex(x.real != 0 and a[1].real != 0)
            if op == "||": return complex(x.real != 0 or a[1].real != 0)
            if op == "ite": return a[1] if x.real else a[2]
            if op == "atan2": return complex(math.atan2(x.real, a[1].real))
            if op == "fmod": return complex(math.fmod(x.real, a[1].real))
            if op == "lgamma": return complex(math.lgamma(x.real))
            return getattr(cmath, op)(x)
        except (ZeroDivisionError, ValueError, OverflowError): raise Zero()
    nodes = UF.nodes
def env_of(k):
    def f(n): return random.Random("%d:%s" % (k, n)).choice((1, 1, -1)) * random.Random("%d;%s" % (k, n)).uniform(0.2, 2.0)
    return f
def close(a, b, tol=1e-9): return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
