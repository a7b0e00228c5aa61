"""Parser for the C++ expression text AmpGen generates (C++ operator precedence, integer literals kept integral);
evaluates the text over an interface with const/var/fn/app (lib/uf.py)."""
import re
class ParseError(Exception): pass
TOK = re.compile(r"\s*(?:(\d+\.\d*(?:[eE][+-]?\d+)?f?|\.\d+(?:[eE][+-]?\d+)?f?|\d+[eE][+-]?\d+f?)|(\d+)|([A-Za-z_]\w*(?:::[A-Za-z_]\w*)*)|(<=|>=|==|&&|\|\||!=|[-+*/<>?:(),\[\]&{}]))")
TEMPL = ("complex", "Complex", "make_complex", "static_cast")
def lex(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise ParseError("bad character at %d in: %s" % (i, s[i:i + 40]))
        i = m.end()
        if m.group(1): out.append(("f", m.group(1)))
        elif m.group(2): out.append(("i", m.group(2)))
        elif m.group(3):
            name = m.group(3)
            # template argument list directly after a known template name
            if i < n and s[i] == "<" and name.split("::")[-1] in TEMPL:
                d = 0; j = i
                while j < n:
                    if s[j] == "<": d += 1
                    if s[j] == ">":
                        d -= 1
                        if d == 0: break
                    j += 1
                name += s[i:j + 1]; i = j + 1
            out.append(("n", name))
        else: out.append(("o", m.group(4)))
    return out
class Parser:
    def __init__(self, toks): self.t = toks; self.k = 0
    def peek(self): return self.t[self.k][1] if self.k < len(self.t) and self.t[self.k][0] == "o" else None
    def eat(self, x):
        if self.peek() != x: raise ParseError("expected %s at token %d (%s)" % (x, self.k, self.t[self.k:self.k + 3]))
        self.k += 1
    def expr(self): return self.tern()
    def tern(self):
        c = self.binary(0)
        if self.peek() == "?":
            self.k += 1; a = self.expr(); self.eat(":"); b = self.tern()
            return ("ite", c, a, b)
        return c
    LEV = [("||",), ("&&",), ("==", "!="), ("<", ">", "<=", ">="), ("+", "-"), ("*", "/")]
    def binary(self, l):
        if l == len(self.LEV): return self.unary()
        a = self.binary(l + 1)
        while self.peek() in self.LEV[l]:
            op = self.peek(); self.k += 1; b = self.binary(l + 1); a = (op, a, b)
        return a
    def unary(self):
        if self.peek() == "-": self.k += 1; return ("neg", self.unary())
        if self.peek() == "+": self.k += 1; return self.unary()
        if self.peek() == "&": self.k += 1; return ("addr", self.unary())
        return self.postfix()
    def args(self, close):
        a = []
        if self.peek() == close: self.k += 1; return a
        while True:
            a.append(self.expr())
            if self.peek() == ",": self.k += 1; continue
            self.eat(close); return a
    def postfix(self):
        if self.k >= len(self.t): raise ParseError("unexpected end")
        k, v = self.t[self.k]
        if k == "f": self.k += 1; e = ("lit", v.rstrip("f"))
        elif k == "i": self.k += 1; e = ("int", int(v))
        elif k == "n":
            self.k += 1
            if self.peek() == "(": self.k += 1; e = ("call", v, self.args(")"))
            elif self.peek() == "{": self.k += 1; e = ("call", v, self.args("}"))
            else: e = ("id", v)
        elif v == "(":
            self.k += 1; e = self.expr(); self.eat(")")
        else: raise ParseError("unexpected token %s" % v)
        while self.peek() == "[":
            self.k += 1; i = self.expr(); self.eat("]"); e = ("idx", e, i)
        return e
def parse(s):
    p = Parser(lex(s)); e = p.expr()
    if p.k != len(p.t): raise ParseError("trailing text: %s" % (p.t[p.k:p.k + 4],))
    return e
MATH = {"sqrt", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "abs", "norm", "conj", "real", "imag", "pow", "fmod", "atan2", "lgamma", "rsqrt", "select", "fabs"}
REN = {"real": "re", "imag": "im", "select": "ite", "rsqrt": "isqrt", "fabs": "abs"}
def ev(e, D, names):
    """names(kind, name[, index]) -> value: kind 'id' identifiers, 'idx' array elements (name, constant index)"""
    k = e[0]
    if k == "lit": return D.const(float(e[1]))
    if k == "int": return D.const(float(e[1]))
    if k == "id": return names("id", e[1], None)
    if k == "idx":
        def cidx(x):
            if x[0] == "int": return x[1]
            raise ParseError("array index is not a literal: %r" % (x,))
        if e[1][0] != "id": raise ParseError("indexing of %r" % (e[1],))
        return names("idx", e[1][1], cidx(e[2]))
    if k == "call":
        nm = e[1]; base = nm.split("<")[0].split("::")[-1]
        a = [ev(x, D, names) for x in e[2]]
        if base in ("complex", "Complex", "complex_t", "complex_v", "make_complex", "double", "real_t", "real_v", "float_v"):
            if len(a) == 1: return a[0]
            if len(a) == 2: return D.app("+", [a[0], D.app("*", [D.const(0.0, 1.0), a[1]])])
            raise ParseError("constructor with %d arguments" % len(a))
        if base in MATH and len(a) != {"pow": 2, "fmod": 2, "atan2": 2, "select": 3}.get(base, 1): raise ParseError("%s with %d arguments" % (nm, len(a)))
        if base in MATH and nm in (base, "std::" + base, "AmpGen::" + base): return D.app(REN.get(base, base), a)
        r = names("call", nm, a)
        if r is not None: return r
        return D.fn("call:" + nm, a)
    a = [ev(x, D, names) for x in e[1:]]
    if k == "/" and e[1][0] == "int" and e[2][0] == "int": return D.const(float(e[1][1] // e[2][1]))   # C++ integer division
    return D.app(k, a)
