"""Symbolic execution of straight-line LLVM IR (vectors of doubles, masks, pointers with constant offsets) over the value domains of
uf.py.  Every function is executed once with symbolic memory: cell k of input array a holds the variable a<k>.  An instruction
outside the fragment raises Unsupported; the caller then decides by execution instead."""
import re, struct
class Unsupported(Exception): pass
class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()
class Ptr:
    def __init__(self, base, off): self.base, self.off = base, off
class Bits:
    """an i64/i1 lane that is all ones when cond holds and zero otherwise; cond is a term of the domain"""
    def __init__(self, c): self.c = c
class Int:
    def __init__(self, v): self.v = v
class Toint:
    """the integer a double with integral value was converted to"""
    def __init__(self, f): self.f = f
def functions(text):
    fs = {}; cur = None; structs = {}
    for l in text.splitlines():
        m = re.match(r'(%\S+|%"[^"]*") = type (.*)', l)
        if m: structs[m.group(1)] = m.group(2)
        m = re.match(r'define .*?@([\w.]+)\((.*)\)', l)
        if m: cur = [m.group(2), []]; fs[m.group(1)] = cur; continue
        if l.startswith("}"): cur = None
        elif cur is not None and l.strip(): cur[1].append(l.strip())
    return fs, structs
def split(s):
    r = []; d = 0; q = False; c = ""
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch in "<([{": d += 1
            elif ch in ">)]}": d -= 1
            elif ch == "," and d == 0: r.append(c.strip()); c = ""; continue
        c += ch
    if c.strip(): r.append(c.strip())
    return r
class Run:
    def __init__(self, D, structs): self.D, self.S = D, structs; self.mem = {}; self.env = {}; self.n = 0
    def sizeof(self, t):
        t = t.strip()
        if t in ("double", "i64", "ptr"): return 8
        if t in ("float", "i32"): return 4
        if t == "i8": return 1
        m = re.match(r'[<\[](\d+) x (.*)[>\]]$', t)
        if m: return int(m.group(1)) * self.sizeof(m.group(2))
        if t.startswith("{") : return sum(self.sizeof(x) for x in split(t[1:-1]))
        if t in self.S: return self.sizeof(self.S[t])
        raise Unsupported("type " + t)
    def field(self, t, i):
        t = self.S.get(t, t).strip()
        if t.startswith("{"): fs = split(t[1:-1]); return sum(self.sizeof(x) for x in fs[:i]), fs[i]
        m = re.match(r'[<\[](\d+) x (.*)[>\]]$', t)
        if m: return i * self.sizeof(m.group(2)), m.group(2)
        raise Unsupported("field of " + t)
    def scalar(self, t, v):
        if v in ("undef", "poison"): return UNDEF
        if t == "double":
            if v.startswith("0x"):
                b = int(v, 16); x = struct.unpack("<d", struct.pack("<Q", b))[0]
                if b == 0xFFFFFFFFFFFFFFFF: return Int(-1)
                return self.D.const(x)
            return self.D.const(float(v))
        if v in ("true", "false"): return Bits(self.D.const(1.0 if v == "true" else 0.0))
        if re.match(r'i\d+$', t) and re.match(r'-?\d+$', v): return Int(int(v))
        raise Unsupported("constant %s %s" % (t, v))
    def val(self, t, v):
        """operand of type t"""
        v = v.strip(); t = t.strip()
        if v.startswith("%"): 
            if v not in self.env: raise Unsupported("unknown " + v)
            return self.env[v]
        m = re.match(r'<(\d+) x (.*)>$', t)
        if m:
            n, e = int(m.group(1)), m.group(2)
            if v in ("undef", "poison"): return [UNDEF] * n
            if v == "zeroinitializer": return [self.D.const(0.0) if e == "double" else Int(0)] * n
            m2 = re.match(r'splat \((\S+) (.*)\)$', v)
            if m2: return [self.scalar(m2.group(1), m2.group(2))] * n
            if v.startswith("<"): return [self.scalar(*x.split(None, 1)) for x in split(v[1:-1])]
            raise Unsupported("vector " + v)
        if v == "zeroinitializer": return self.D.const(0.0)
        return self.scalar(t, v)
    def tv(self, s):
        """'<type> attrs... value' -> (type, value)"""
        s = s.strip()
        m = re.match(r'(<\d+ x [^>]*>|\[[^\]]*\]|%"[^"]*"|\S+)\s+(.*)$', s); t, r = m.group(1), m.group(2)
        while True:
            m = re.match(r'(noundef|nonnull|align \d+|dereferenceable\(\d+\)|nocapture|readonly|writeonly|inrange)\s+(.*)$', r)
            if not m: break
            r = m.group(2)
        return t, self.val(t, r)
    # --- lane operations
    def f(self, x):
        if isinstance(x, (Int, Bits, Ptr, Toint)): raise Unsupported("bits used as number")
        if x is UNDEF: raise Unsupported("undefined value used")
        return x
    def cond(self, x):
        if isinstance(x, Bits): return x.c
        if isinstance(x, Int): return self.D.const(1.0 if x.v else 0.0)
        raise Unsupported("condition")
    def inv(self, c):
        D = self.D
        if c == D.const(1.0): return D.const(0.0)
        if c == D.const(0.0): return D.const(1.0)
        return D.sub(D.const(1.0), c)
    def logic(self, op, a, b):
        D = self.D
        if isinstance(a, Int) and not isinstance(b, Int): a, b = b, a
        if isinstance(b, Int):
            if isinstance(a, Int): return Int({"and": a.v & b.v, "or": a.v | b.v, "xor": a.v ^ b.v}[op])
            if isinstance(a, Ptr):
                if op == "or": return Ptr(a.base, a.off + b.v)
            elif isinstance(a, Bits):
                full = b.v == -1; zero = b.v == 0
                if op == "and" and full or op == "or" and zero or op == "xor" and zero: return a
                if op == "and" and zero: return Int(0)
                if op == "or" and full: return Int(-1)
                if op == "xor" and full: return Bits(self.inv(a.c))
            else:
                if op == "and" and b.v == 0x7FFFFFFFFFFFFFFF: return D.app("abs", (self.f(a),))
                if op == "xor" and b.v == -0x8000000000000000: return D.sub(D.const(0.0), self.f(a))
            raise Unsupported("bit pattern")
        if isinstance(a, Bits) and isinstance(b, Bits):
            if op == "and": return Bits(D.mul(a.c, b.c))
            if op == "or": return Bits(D.sub(D.add(a.c, b.c), D.mul(a.c, b.c)))
            return Bits(D.sub(D.add(a.c, b.c), D.mul(D.const(2.0), D.mul(a.c, b.c))))
        if op == "and" and isinstance(a, Bits): return self.sel(a, b, D.const(0.0))
        if op == "and" and isinstance(b, Bits): return self.sel(b, a, D.const(0.0))
        raise Unsupported("logic")
    def sel(self, m, a, b):
        c = self.cond(m); D = self.D
        if isinstance(a, (Bits, Int)) and isinstance(b, (Bits, Int)): 
            x, y = self.cond(a), self.cond(b); return Bits(D.add(D.mul(c, x), D.mul(self.inv(c), y)))
        if c == D.const(1.0): return a
        if c == D.const(0.0): return b
        # a conditional on a 0/1 condition, written as its arithmetic meaning so that complementary conditions agree
        a, b = self.f(a), self.f(b); return D.add(D.mul(c, a), D.mul(self.inv(c), b))
    def fcmp(self, p, a, b):
        D = self.D; a, b = self.f(a), self.f(b); lt = lambda x, y: D.app("<", (x, y)); eq = lambda x, y: D.app("==", (x, y))
        # total order on reals: <= is not >
        if p in ("olt", "ult"): return Bits(lt(a, b))
        if p in ("ogt", "ugt"): return Bits(lt(b, a))
        if p in ("ole", "ule"): return Bits(self.inv(lt(b, a)))
        if p in ("oge", "uge"): return Bits(self.inv(lt(a, b)))
        if p in ("oeq", "ueq"): return Bits(eq(a, b))
        if p in ("one", "une"): return Bits(self.inv(eq(a, b)))
        raise Unsupported("fcmp " + p)
    def load(self, p, k): 
        key = (p.base, p.off + 8 * k)
        if key in self.mem: return self.mem[key]
        if p.base in "abc" and (p.off % 8) == 0: return self.D.var("%s%d" % (p.base, p.off // 8 + k))
        return UNDEF
    def fn(self, name, xs):
        D = self.D
        m = re.match(r'_ZGV[a-z]N4v+_(\w+)$', name)
        if m: name = m.group(1)
        m = re.match(r'llvm\.(\w+)\.', name)
        if m and not name.startswith("llvm.x86"): name = m.group(1)
        xs = [self.f(x) for x in xs]
        if name in ("fma", "fmuladd"): return D.add(D.mul(xs[0], xs[1]), xs[2])
        if name == "fabs": return D.app("abs", xs)
        if name in ("sin", "cos", "exp", "log", "sqrt", "atan2", "floor", "tan", "lgamma", "trunc", "ceil"): return D.app(name, xs) if name in ("atan2", "lgamma") or not isinstance(D.const(1.0), tuple) else D.fn(name, xs, True)
        raise Unsupported("call " + name)
    def call(self, fs, name, args):
        if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or "noalias.scope" in name: return None
        if name.startswith("llvm.memset"):
            if args[1][1].v != 0: raise Unsupported("memset")
            for k in range(args[2][1].v // 8): self.mem[(args[0][1].base, args[0][1].off + 8 * k)] = self.D.const(0.0)
            return None
        if name.startswith("llvm.memcpy"):
            d, s, n = args[0][1], args[1][1], args[2][1].v
            c = [self.load(s, k) for k in range(n // 8)]
            for k, v in enumerate(c): self.mem[(d.base, d.off + 8 * k)] = v
            return None
        if name == "llvm.x86.avx.round.pd.256":
            if args[1][1].v not in (1, 9): raise Unsupported("rounding mode")
            return [self.fn("floor", [x]) for x in args[0][1]]
        if name == "llvm.x86.avx.blendv.pd.256": return [self.sel(m, a, b) for b, a, m in zip(*[x[1] for x in args])]
        if name == "llvm.x86.avx2.gather.q.pd.256":
            r = []
            for i in args[2][1]:
                if not isinstance(i, Toint): raise Unsupported("gather index")
                r.append(self.D.fn("load %s %d" % (args[1][1].base, args[4][1].v), [i.f], True))
            if args[1][1].off: raise Unsupported("gather base")
            return r
        if re.match(r'_ZGV[a-z]N4vvv_sincos$', name):
            for x, ps, pc in zip(*[a[1] for a in args]):
                self.mem[(ps.base, ps.off)] = self.fn("sin", [x]); self.mem[(pc.base, pc.off)] = self.fn("cos", [x])
            return None
        if args and all(isinstance(a[1], list) for a in args): return [self.fn(name, list(x)) for x in zip(*[a[1] for a in args])]
        if name in fs and fs is not None: raise Unsupported("call of " + name)
        return self.fn(name, [a[1] for a in args])
    def run(self, fs, name):
        params, body = fs[name]; names = []
        for i, p in enumerate(split(params)): names.append(p.split()[-1])
        for n, b in zip(names, "abco"): self.env[n] = Ptr(b, 0)
        lift = lambda g, *x: [g(*y) for y in zip(*x)] if isinstance(x[0], list) else g(*x)
        D = self.D
        for l in body:
            l = re.sub(r', !.*$', '', l); l = re.sub(r', align \d+$', '', l)
            if l == "ret void": return self.mem
            if re.match(r'\d+:|\w+:', l) or l.startswith("br ") or " = phi " in l or l.startswith("switch"): raise Unsupported("control flow")
            m = re.match(r'(?:(%\S+) = )?(.*)$', l); dst, r = m.group(1), m.group(2)
            op = r.split()[0]
            if op in ("tail", "notail", "musttail"): r = r.split(None, 1)[1]; op = "call"
            if op == "alloca": self.n += 1; v = Ptr("stack%d" % self.n, 0)
            elif op == "load":
                t, p = split(r[5:]); p = self.tv(p)[1]; m = re.match(r'<(\d+) x \w+>$', t)
                v = [self.load(p, k) for k in range(int(m.group(1)))] if m else self.load(p, 0)
                if not (t in ("double", "i64") or m and self.sizeof(t) == 8 * int(m.group(1))): raise Unsupported("load " + t)
            elif op == "store":
                x, p = split(r[6:]); t, x = self.tv(x); p = self.tv(p)[1]
                if not (t in ("double", "i64", "ptr") or re.match(r'<\d+ x (double|i64)>$', t)): raise Unsupported("store " + t)
                for k, y in enumerate(x if isinstance(x, list) else [x]): self.mem[(p.base, p.off + 8 * k)] = y
                continue
            elif op == "getelementptr":
                a = split(re.sub(r'^getelementptr (inbounds )?', '', r)); t = a[0]; p = self.tv(a[1])[1]; off = p.off; idx = [self.tv(x)[1].v for x in a[2:]]
                off += idx[0] * self.sizeof(t)
                for i in idx[1:]: d, t = self.field(t, i); off += d
                v = Ptr(p.base, off)
            elif op in ("fadd", "fsub", "fmul", "fdiv"):
                m = re.match(op + r' (?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*(<\d+ x double>|double) (.*)$', r); a, b = [self.val(m.group(1), x) for x in split(m.group(2))]
                g = {"fadd": D.add, "fsub": D.sub, "fmul": D.mul, "fdiv": D.div}[op]; v = lift(lambda x, y: g(self.f(x), self.f(y)), a, b)
            elif op == "fneg":
                m = re.match(r'fneg (?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*(<\d+ x double>|double) (.*)$', r); v = lift(lambda x: D.sub(D.const(0.0), self.f(x)), self.val(m.group(1), m.group(2)))
            elif op == "fcmp":
                m = re.match(r'fcmp (?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*(\w+) (<\d+ x double>|double) (.*)$', r); a, b = [self.val(m.group(2), x) for x in split(m.group(3))]; v = lift(lambda x, y: self.fcmp(m.group(1), x, y), a, b)
            elif op == "icmp":
                m = re.match(r'icmp (\w+) (<\d+ x \w+>|\w+) (.*)$', r); a, b = [self.val(m.group(2), x) for x in split(m.group(3))]; n4 = isinstance(a, tuple) and len(a) == 2 and a[0] == "pack"
                if n4 and isinstance(b, Int) and m.group(1) in ("eq", "ne"):
                    c = D.const(1.0)
                    for k, x in enumerate(a[1]): c = D.mul(c, x.c if (b.v >> k) & 1 else self.inv(x.c))
                    v = Bits(c if m.group(1) == "eq" else self.inv(c))
                elif m.group(1) == "slt" and isinstance(b, (list, Int)):
                    def neg(x, y):
                        if isinstance(y, Int) and y.v == 0 and isinstance(x, Bits): return x
                        raise Unsupported("icmp")
                    v = lift(neg, a, b)
                else: raise Unsupported("icmp")
            elif op == "select":
                a = [self.tv(x)[1] for x in split(re.sub(r'^select (?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*', '', r))]
                v = [self.sel(m, x, y) for m, x, y in zip(*a)] if isinstance(a[0], list) else ([self.sel(a[0], x, y) for x, y in zip(a[1], a[2])] if isinstance(a[1], list) else self.sel(*a))
            elif op in ("and", "or", "xor"):
                m = re.match(op + r' (?:disjoint )?(<\d+ x \w+>|\w+) (.*)$', r); a, b = [self.val(m.group(1), x) for x in split(m.group(2))]; v = lift(lambda x, y: self.logic(op, x, y), a, b)
            elif op in ("add", "sub"):
                m = re.match(op + r' (?:nsw |nuw )*(<\d+ x i64>|i64) (.*)$', r); a, b = [self.val(m.group(1), x) for x in split(m.group(2))]
                def g(x, y):
                    if isinstance(x, Int) and isinstance(y, Int): return Int(x.v + y.v if op == "add" else x.v - y.v)
                    if isinstance(x, Int) and isinstance(y, Ptr): x, y = y, x
                    if isinstance(x, Ptr) and isinstance(y, Int): return Ptr(x.base, x.off + (y.v if op == "add" else -y.v))
                    # (n + 2^52+2^51) - 2^52-2^51 on the bit pattern: integer conversion, for |n| < 2^51
                    if isinstance(y, Int) and ((y.v if op == "sub" else -y.v) & (2**64 - 1)) == 0x4338000000000000: return Toint(D.sub(self.f(x), D.const(float(0x0018000000000000))))
                    raise Unsupported("integer arithmetic")
                v = lift(g, a, b)
            elif op in ("bitcast", "sext", "ptrtoint", "zext", "freeze"):
                m = re.match(op + r' (.*?) to (.*)$', r)
                if op == "freeze": v = self.tv(r[7:])[1]
                else:
                    v = self.tv(m.group(1))[1]
                    if op == "bitcast" and re.match(r'i\d+$', m.group(2)) and isinstance(v, list): v = ("pack", v)
                    if op == "zext": raise Unsupported("zext")
            elif op == "insertelement":
                a = split(r[len("insertelement"):]); t, x = self.tv(a[0]); v = list(x); v[self.tv(a[2])[1].v] = self.tv(a[1])[1]
            elif op == "extractelement":
                a = split(r[len("extractelement"):]); v = self.tv(a[0])[1][self.tv(a[1])[1].v]
            elif op == "shufflevector":
                a = split(r[len("shufflevector"):]); x = self.tv(a[0])[1] + self.tv(a[1])[1]; v = [UNDEF if i is UNDEF else x[i.v] for i in self.tv(a[2])[1]]
            elif op == "call":
                m = re.match(r'call (?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*(?:noundef )?(<[^>]*>|\w+)(?: noundef)? @([\w.]+)\((.*)\)', r)
                if not m: raise Unsupported("call " + r)
                v = self.call(fs, m.group(2), [self.tv(x) for x in split(m.group(3)) if not x.startswith("metadata")])
            else: raise Unsupported(op)
            if dst: self.env[dst] = v
        raise Unsupported("no return")
