"""P25: options and parameter files mean what they say."""
import tx, random, os, shutil, tempfile, build, math, cmath
LEVEL = "exploration"
FL = ["Free", "Hide", "Fix", "CompileTimeConstant", "Blind"]
NAMES = ["alpha", "EventType", "D0{K*(892)0,pi0}", "rho(770)0_mass", "CouplingConstant::Coordinates", "Lib", "nEvents", "D0[D]{K-,pi+}_x", "B0", "g::h", "%frac", "!x", "-q", "&y", "/z", "@w", "$v", "1st"]
def num(rng): return rng.choice(["0", "1", "-1", "0.5", "2.25", "-3e-2", "1e3", "+4", ".125", repr(rng.uniform(-5, 5))])
def quote(rng, t):
    """one token as it may be written: in quotes if it holds blanks or comment signs"""
    return '"%s"' % t if any(c in t for c in " #\t") or rng.random() < .15 else t
def value(rng): return rng.choice([num(rng), num(rng), num(rng), "text", "a b", "x # y", "K+", "D0{K-,pi+}", "{a,b}", "path/to.root:tree", "=", "Free", "true", "0", ",", "*", "%", "a=b", "-", "--"])
def render(rng, tokens):
    """text of one option; long options may be spread over lines between braces"""
    sep = lambda: rng.choice([" ", " ", "  ", "\t", " \t "])
    if len(tokens) > 2 and rng.random() < .3 and all(t not in "{}" for t in tokens):
        s = tokens[0] + sep() + "{" + rng.choice(["", " # opening"]) + "\n"; i = 1
        while i < len(tokens):
            k = rng.randrange(1, 4); s += sep() + sep().join(quote(rng, t) for t in tokens[i:i + k]) + rng.choice(["", "  # note"]) + "\n"; i += k
            if rng.random() < .2: s += rng.choice(["# comment inside\n", "\n", "    \n", "\t\n", "   # indented comment\n"])
        return s + "}" + rng.choice(["", " "]) + "\n"
    return rng.choice(["", " "]) + sep().join([tokens[0]] + [quote(rng, t) for t in tokens[1:]]) + rng.choice(["", " ", " # comment", "\t#c \"q\""]) + "\n"
def write(rng, opts, d, depth=0):
    """writes a file holding the options (some of them in imported files); returns its name"""
    p = os.path.join(d, "f%d.opt" % rng.randrange(10 ** 9)); out = []; i = 0
    while i < len(opts):
        if rng.random() < .2: out.append(rng.choice(["# a comment line\n", "* starred line\n", "\n", "#\n", "   \n", " \t\n", "  # indented comment\n"]))
        if depth < 2 and rng.random() < .1:
            k = rng.randrange(1, 3); q = write(rng, opts[i:i + k], d, depth + 1); i += k; out.append("Import " + (q if rng.random() < .5 else "$P25DIR/" + os.path.basename(q)) + "\n")
        else: out.append(render(rng, opts[i])); i += 1
    s = "".join(out)
    if rng.random() < .3: s = s.rstrip("\n")
    if rng.random() < .2: s = s.replace("\n", "\r\n")
    open(p, "w", newline="").write(s); return p
def collect(opts):
    """the last definition of a key counts; keys keep the order of their first definition"""
    m = {}
    for t in opts: m[t[0]] = t
    return m
def isnum(s):
    try: float(s); return True
    except ValueError: return False
def flag(s): return FL[int(s)] if s.isdigit() and int(s) < 5 else s if s in FL else None
def params(lines):
    """parameters defined by a list of option lines: real (4 or 6 tokens), complex (7 or 11 tokens)"""
    out = {}
    for t in lines:
        n = len(t); new = []
        if n in (4, 6) and all(isnum(x) for x in t[2:]) and flag(t[1]):
            v = [float(x) for x in t[2:]] + [0, 0]; new = [(t[0], flag(t[1]), v[0], v[1], v[2], v[3])]
        if n in (7, 11):
            h = (n - 1) // 2; a, b = t[1:1 + h], t[1 + h:]
            if all(isnum(x) for x in a[1:] + b[1:]) and flag(a[0]) and flag(b[0]):
                f = lambda s, q: (t[0] + s, flag(q[0])) + tuple(([float(x) for x in q[1:]] + [0, 0])[:4]); new = [f("_Re", a), f("_Im", b)]
        for p in new: out.setdefault(p[0], p)
    return out
# expressions
class E:
    def __init__(s, text, val, prec): s.t, s.v, s.p = text, val, prec     # prec: 6 atom, 5 ^, 4 */, 3 +-, 2 < >, 1 &&
def par(e, lim, strict=False): return e.t if e.p > lim or (e.p == lim and not strict) else "( " + e.t + " )"
def expr(rng, d, env):
    if d == 0 or rng.random() < .15:
        k = rng.random()
        if k < .5 and env: n = rng.choice(sorted(env)); return E(n, env[n], 6)
        if k < .55: return E(rng.choice(["pi", "PI"]), math.pi, 6)
        if k < .6: return E("i", 1j, 6)
        c = rng.choice([1.0, 2.0, 0.5, 3.0, -1.5, 0.25]); return E(repr(c), c, 6)
    k = rng.random()
    if k < .22:
        f, g = rng.choice([("sin", cmath.sin), ("cos", cmath.cos), ("exp", cmath.exp), ("real", lambda z: complex(z).real), ("imag", lambda z: complex(z).imag), ("abs", abs)]); a = expr(rng, d - 1, env)
        if abs(a.v) > 20: return a
        return E(f + " ( " + a.t + " )", g(a.v), 6)
    a, b = expr(rng, d - 1, env), expr(rng, d - 1, env); o = rng.choice("++--**//^<>")
    if k < .27:
        if abs(complex(a.v).imag) + abs(complex(b.v).imag) > 1e-14: return a
        return E("atan2 ( " + par(a, 1) + " , " + par(b, 1) + " )", math.atan2(complex(a.v).real, complex(b.v).real), 6)
    if o == "^":
        n = rng.choice([2.0, 3.0])
        if abs(a.v) > 30: return a
        return E(par(a, 5, True) + " ^ " + repr(n), a.v ** n, 5)
    if o == "/" and abs(b.v) < 1e-2: o = "*"
    if o in "<>":
        if abs(complex(a.v).imag) + abs(complex(b.v).imag) > 1e-14 or abs(a.v - b.v) < 1e-6: o = "+"
        else: return E(par(a, 2, True) + " %s " % o + par(b, 2, True), float(complex(a.v).real < complex(b.v).real if o == "<" else complex(a.v).real > complex(b.v).real), 2)
    if o in "*/": return E(par(a, 4) + " %s " % o + par(b, 4, True), a.v * b.v if o == "*" else a.v / b.v, 4)
    return E(par(a, 3) + " %s " % o + par(b, 3, True), a.v + b.v if o == "+" else a.v - b.v, 3)
def run(rep, deep, seed):
    rng = random.Random("p25:%d" % seed); d = tempfile.mkdtemp(prefix="p25.", dir=build.BUILD); S = []; chk = []
    def add(grp, scen, f): S.append([["setenv", "P25DIR", d]] + scen); chk.append((grp, f))
    near = lambda x, y: abs(x - y) <= 1e-9 * (1 + abs(y))
    try:
        N = 1500 if deep else 400
        for _ in range(N):
            opts = []
            for _ in range(rng.randrange(1, 8)): n = rng.choice(NAMES); opts.append([n] + [value(rng) for _ in range(rng.randrange(1, 6))])
            p = write(rng, opts, d); m = collect(opts)
            def f(a, m=m, p=p):
                if a[-1]["map"] != m: return dict(input=open(p, newline="").read(), got=a[-1]["map"], want=m)
                if a[-1]["ordered"] != list(m.values()): return dict(input=open(p, newline="").read(), got=a[-1]["ordered"], want=list(m.values()))
            add("an options file is the list of its options: tokens, quotes, comments, braces, imports; the last definition wins", [["o.new"], ["o.import", p], ["o.dump"]], f)
            # command line after the file overrides it
            cl = []; m2 = dict(m)
            for _ in range(rng.randrange(1, 4)):
                n = rng.choice([x for x in NAMES if "{" not in x] + ["quiet"]); k = rng.randrange(3); v = rng.choice(["7", "-2", "x.root", "0.5", "abc", "a=b", "x=1=2", "a,b", "a-b"])
                if k == 0: cl.append("--%s=%s" % (n, v)); m2[n] = [n, v]
                elif k == 1: cl += ["--" + n, v]; m2[n] = [n, v]
                else: cl.append("--" + n); m2[n] = [n, "1"]
                if k == 2 and rng.random() < .5: cl.append(p); m2.update(m)
                elif k == 2: cl.append("--last=9"); m2["last"] = ["last", "9"]
            # a bare flag takes the following word as its value unless that word is an option: expected values follow that rule
            exp = dict(m); i = 0
            while i < len(cl):
                t = cl[i]
                if not t.startswith("--"): exp.update(m)
                elif "=" in t: exp[t[2:t.index("=")]] = [t[2:t.index("=")], t[t.index("=") + 1:]]
                elif i + 1 < len(cl) and not cl[i + 1].startswith("--"): exp[t[2:]] = [t[2:], cl[i + 1]]; i += 1
                else: exp[t[2:]] = [t[2:], "1"]
                i += 1
            def g(a, exp=exp, cl=cl, p=p):
                if a[-1]["map"] != exp: return dict(input=dict(file=open(p).read(), arguments=cl), got=a[-1]["map"], want=exp)
            add("the command line adds to and overrides the options files", [["o.new"], ["o.argv", p] + cl, ["o.dump"]], g)
        for _ in range(N):
            ty = rng.choice(["double", "int", "unsigned", "bool", "size_t", "string"]); pool = dict(double=["1", "-2.5", "1e3", "0"], int=["1", "-7", "0", "12"], unsigned=["0", "4", "99"], bool=["0", "1", "true", "false"], size_t=["0", "123456789012"], string=["a", "b c", "1"])[ty]
            vals = [rng.choice(pool) for _ in range(rng.randrange(0, 4))]; dft = [rng.choice(pool) for _ in range(rng.randrange(1, 4))]; conv = (lambda x: x) if ty == "string" else (lambda x: 1 if x == "true" else 0 if x == "false" else float(x))
            want = [conv(x) for x in (vals or dft)]; line = " ".join(["opt"] + ['"%s"' % v for v in vals]); other = "opt2 5 6"
            add("a named option has the values given for it, in order, and otherwise its default", [["o.new"], ["o.arg", other], ["o.arg", line], ["o.named", ty, "opt"] + dft], lambda a, want=want, line=line, ty=ty, dft=dft: None if a[-1] == want else dict(input=(line, ty, dft), got=a[-1], want=want))
        for _ in range(60):
            v = [rng.choice(["1", "2", "3"]) for _ in range(rng.randrange(1, 4))]; i = rng.randrange(-1, 5)
            add("asking for a value out of range is refused", [["o.new"], ["o.arg", " ".join(["opt"] + v)], ["o.getval", "opt", i]], lambda a, v=v, i=i: None if a[-1] == (float(v[i]) if 0 <= i < len(v) else "range") else dict(input=(v, i), got=a[-1]))
        # parameters
        row = lambda p: [p[0], p[2], p[2], p[3], p[4], p[5], p[3], p[1], int(p[1] == "Free"), int(p[1] in ("Fix", "CompileTimeConstant")), p[2]]
        for k in range(N):
            lines = []
            for j in range(rng.randrange(1, 6)):
                n = rng.choice(["a", "b", "D0{K-,pi+}", "rho(770)0_mass", "rho(770)0_width", "c%d" % j]); F = lambda: rng.choice(FL + ["0", "2"] + (["Nope", "free"] if rng.random() < .2 else [])); X = lambda m: [num(rng) if rng.random() < .97 else "1x" for _ in range(m)]
                lines.append([n] + rng.choice([lambda: [F()] + X(2), lambda: [F()] + X(4), lambda: [F()] + X(2) + [F()] + X(2), lambda: [F()] + X(4) + [F()] + X(4), lambda: [F()] + X(1), lambda: [F()] + X(3)])())
            p = os.path.join(d, "p%d.opt" % k); open(p, "w").write("".join(rng.choice([" ", "\t"]).join(l) + "\n" for l in lines)); m = collect(lines)
            def fp(a, want, lines):
                got = [x[:11] for x in a[-1]["p"]]
                if got != [row(q) for q in want.values()]: return dict(input=[" ".join(l) for l in lines], got=got, want=[row(q) for q in want.values()])
            add("parameters have the flag, value, step and limits given for them", [["o.new"], ["o.import", p], ["m.new"], ["m.load"], ["m.dump"]], lambda a, w=params(m.values()), l=lines, fp=fp: fp(a, w, l))
            add("parameters have the flag, value, step and limits given for them", [["m.new"], ["m.loadf", p], ["m.dump"]], lambda a, w=params(lines), l=lines, fp=fp: fp(a, w, l))
        # default conjugates of masses, widths and radii
        for n, c in (("K(1)(1270)bar-", "K(1)(1270)+"), ("K*(892)0", "K*(892)bar0"), ("D+", "D-"), ("rho(770)+", "rho(770)-")):
            for q in ("mass", "width", "radius"):
                for own in (0, 1):
                    arg = [["o.arg", "%s_%s Free 1.5 0.1" % (n, q)]] + ([["o.arg", "%s_%s Free 2.5 0.1" % (c, q)]] if own else [])
                    add("a mass, width or radius is shared with the antiparticle unless that has its own", [["o.new"]] + arg + [["m.new"], ["m.load"], ["m.op", n + "_" + q, "val", 3.5], ["m.find", c + "_" + q], ["m.dump"]], lambda a, own=own, n=n, q=q: None if a[-2][0] is not None and a[-2][0][1] == (2.5 if own else 3.5) and a[-1]["size"] == 2 else dict(input=(n, q, own), got=a[-2:]))
        # constants and functions, element lists, expressions of expressions, in a file
        K = {"e": math.e, "pi": math.pi, "PI": math.pi, "M_PI": math.pi, "i": 1j, "I": 1j, "2.5e-3": 2.5e-3, "-1e2": -100.0, "0.1": 0.1}
        for k, v in K.items(): add("constants and functions of expressions", [["m.new"], ["m.alias", "y", "=", k], ["m.evalue", "y"]], lambda a, k=k, v=v: None if abs(complex(a[-1][0], a[-1][1]) - v) <= 1e-15 * abs(v) else dict(input=k, got=a[-1], want=str(v)))
        for fn in ("sin", "cos", "tan", "acos", "atan", "asin", "sqrt", "exp", "log"):
            for _ in range(12):
                x = rng.choice([0.25, 0.5, 0.9, 1.0, 0.125, rng.uniform(0.01, .99)])
                if fn in ("sin", "cos", "exp", "atan") and rng.random() < .5: x *= -3
                if fn in ("sqrt", "log") and rng.random() < .5: x *= 50
                w = getattr(math, fn)(x); add("constants and functions of expressions", [["m.new"], ["m.add", "p", "Free", repr(x), .1, 0, 0], ["m.alias", "y", "=", fn, "(", "p", ")"], ["m.evalue", "y"]], lambda a, fn=fn, x=x, w=w: None if abs(complex(a[-1][0], a[-1][1]) - w) <= 1e-12 * (1 + abs(w)) else dict(input="%s(%r)" % (fn, x), got=a[-1], want=w))
        for _ in range(60):
            x, y, z = (rng.choice([-1.5, -1.0, 0.5, 1.0, 2.0, 3.0]) for _ in range(3)); base = [["m.new"]] + [["m.add", n, "Free", v, .1, 0, 0] for n, v in (("p", x), ("q", y), ("r", z))]
            for t, w in (("Ternary ( p < q , r , 2 * p )", z if x < y else 2 * x), ("Ternary ( p > q , p - q , q - p )", abs(x - y)), ("p < q && q < r", float(x < y and y < z)), ("Ternary ( p < q && q < r , 1 , 0 )", float(x < y and y < z)), ("p - q - r", x - y - z), ("p - ( q - r )", x - (y - z)), ("p / q / r", x / y / z), ("p - q + r - p", x - y + z - x), ("p * q - r / q", x * y - z / y)):
                if "<" in t and (x == y or y == z): continue
                if ">" in t and x == y: continue
                add("constants and functions of expressions", base + [["m.alias", "y", "="] + t.split(), ["m.evalue", "y"]], lambda a, t=t, w=w, v=(x, y, z): None if abs(complex(a[-1][0], a[-1][1]) - w) <= 1e-12 * (1 + abs(w)) else dict(input=(t, v), got=a[-1], want=w))
        def tgen(d):
            if d == 0 or rng.random() < .5:
                x, y = rng.choice([1.0, -2.0, 0.5]), rng.choice([3.0, 0.25]); return rng.choice([("%r" % x, x), ("( %r + %r )" % (x, y), x + y), ("%r * %r" % (x, y), x * y), ("atan2 ( %r , %r )" % (x, y), math.atan2(x, y)), ("p", 1.25), ("sin ( p )", math.sin(1.25))])
            k = [tgen(d - 1) for _ in range(rng.randrange(1, 4))]; return "{ " + " , ".join(t for t, _ in k) + " }", [v for _, v in k]
        def teq(g, w): return isinstance(g, dict) and len(g["t"]) == len(w) and all(map(teq, g["t"], w)) if isinstance(w, list) else isinstance(g, list) and abs(complex(*g) - w) < 1e-12 * (1 + abs(w))
        for _ in range(150):
            t, v = tgen(3)
            add("a list in braces has the elements written in it", [["m.new"], ["m.add", "p", "Free", 1.25, .1, 0, 0], ["m.tens"] + t.split()], lambda a, t=t, v=v: None if teq(a[-1], v) else dict(input=t, got=a[-1], want=v))
        for _ in range(N // 2):
            ps = {"p%d" % i: rng.choice([0.5, 1.0, 2.0, -1.5]) for i in range(3)}; defs = []; val = dict(ps); up = {n: rng.choice([0.25, 3.0, -1.0]) for n in ps}; val2 = dict(up)
            for i in range(rng.randrange(2, 6)):
                a_, b_ = rng.choice(sorted(val)), rng.choice(sorted(val)); c = rng.choice([2.0, 0.5, -1.0]); k = rng.randrange(4); n = "%s%d" % (rng.choice("yzax"), i)
                f = [lambda v: v[a_] + c * v[b_], lambda v: v[a_] * v[b_], lambda v: (v[a_] - v[b_]) * c, lambda v: v[a_] - v[b_] - c][k]; t = ["%s + %r * %s" % (a_, c, b_), "%s * %s" % (a_, b_), "( %s - %s ) * %r" % (a_, b_, c), "%s - %s - %r" % (a_, b_, c)][k]
                defs.append((n, t)); val[n], val2[n] = f(val), f(val2)
            rows_ = ["%s Free %r 0.1" % kv for kv in ps.items()]; al = ["%s = %s" % d_ for d_ in defs]
            first = rng.random() < .5; cut = [rng.randrange(len(al) + 1) for _ in rows_]; lines = list(al) if first else rows_ + al
            if first:     # aliases may stand before the parameters they use
                for c_, r_ in sorted(zip(cut, rows_), reverse=True): lines.insert(c_, r_)
            p = os.path.join(d, "y%d.opt" % rng.randrange(10 ** 9)); open(p, "w").write("\n".join(lines) + "\n"); ev = [["m.evalue", n] for n, _ in defs]
            def fy(a, lines=lines, w=[val[n] for n, _ in defs] + [val2[n] for n, _ in defs], k=len(defs), up=up):
                got = a[-k - len(up) - k:-k - len(up)] + a[-k:]
                for g, x in zip(got, w):
                    if g is None or abs(complex(g[0], g[1]) - x) > 1e-9 * (1 + abs(x)): return dict(input=dict(file=lines, updated=up), got=got, want=w)
            add("parameters defined by expressions may use one another, in the order of the file", [["o.new"], ["o.import", p], ["m.new"], ["m.load"]] + ev + [["m.op", n, "val", v] for n, v in up.items()] + ev, fy)
        # derived parameters
        for _ in range(2 * N):
            cart = rng.random() < .8; deg = rng.random() < .5; vals = {n: rng.choice([0.5, 1.0, -1.0, 2.0, 0.75, 1.25]) for n in ("p", "q", "g_x")}; cre, cim = rng.choice([0.5, 1.0, 2.0]), rng.choice([0.0, 1.0, -0.5, 30.0 if deg and not cart else 0.25])
            env = lambda v, re, im: dict(v, z=complex(re, im) if cart else re * cmath.exp(1j * im * (math.pi / 180 if deg else 1)))
            st = rng.getstate(); e1 = expr(rng, 4, env(vals, cre, cim))
            up = {n: rng.choice([0.5, 1.0, -1.0, 2.0, 0.75, 1.25, 1.5]) for n in vals}
            e2 = reval(e1.t, env(up, cre, cim))
            if e2 is None or not (abs(e1.v) < 1e8 and abs(e2) < 1e8): continue
            opt = [["o.arg", "CouplingConstant::Coordinates " + ("cartesian" if cart else "polar")], ["o.arg", "CouplingConstant::AngularUnits " + ("deg" if deg else "rad")]]
            P = [["m.new"]] + [["m.add", n, "Free", v, .1, 0, 0] for n, v in vals.items()] + [["m.add", "z_Re", "Free", cre, .1, 0, 0], ["m.add", "z_Im", "Free", cim, .1, 0, 0]]
            sc = opt + P + [["m.alias", "y", "="] + e1.t.split(), ["m.evalue", "y"]] + [["m.op", n, "val", v] for n, v in up.items()] + [["m.evalue", "y"]]
            i1 = len(opt) + len(P) + 1 + 1
            def f(a, e1=e1, e2=e2, vals=vals, up=up, i1=i1, z=(cre, cim, cart, deg)):
                for got, w in ((a[i1], e1.v), (a[-1], e2)):
                    if got is None or "nan" in got or abs(complex(got[0], got[1]) - w) > 1e-7 * (1 + abs(w)) or abs(got[2] - complex(w).real) > 1e-7 * (1 + abs(w)) or got[3] != got[2] or got[4] != 0: return dict(input=dict(expression=e1.t, values=vals, updated=up, z=z), got=got, want=str(w))
            # coordinates are read once per process by the parser: one process per setting
            add(("d%d%d" % (cart, deg)), sc, f)
        order = {}
        for i, (g, _) in enumerate(chk): order.setdefault(g if g.startswith("d") and len(g) == 3 else "", []).append(i)
        A = [None] * len(S)
        for k, ix in order.items():
            for i, r in zip(ix, tx.ask([S[i] for i in ix], timeout=400)): A[i] = r
        by = {}
        for (g, f), s, a in zip(chk, S, A):
            if len(g) == 3: g = "a derived parameter has the value of its expression, with current values"
            b = by.setdefault(g, [0, []]); b[0] += 1
            if tx.bad(a): b[1].append(dict(input=s, got=a)); continue
            try: r = f(a)
            except Exception as ex: r = dict(input=s, got=str(a)[:500], want=repr(ex))
            if r: b[1].append(r)
    finally: shutil.rmtree(d)
    for g, (n, bad) in by.items(): bad.sort(key=lambda b: len(str(b["input"]))); rep.bound("options", g, n, "generated files, command lines and expressions", bad[:2])
    rep.functions += ["OptionsParser::" + f for f in "import setCommandLineArgs addArg makeParsedStrings ignoreThisLine getInputOrdered find".split()] + ["NamedParameter::NamedParameter", "NamedParameter::getVal", "MinuitParameterSet::tryParameter", "MinuitParameterSet::tryAlias", "MinuitParameterSet::loadFromStream", "MinuitParameterSet::loadFromFile", "ExpressionParser::parseTokens", "ExpressionParser::processBinaryOperators", "ExpressionParser::processUnaryOperators", "ExpressionParser::processEndPoint", "MinuitExpression::getVal", "parse<Flag>"]
    rep.explored(len(S), len(S), "generated options files, command lines, parameter lines and expressions", [S[0][2]])
    rep.assumptions += ["quoted tokens are set off by blanks, comment signs follow a blank or stand in quotes", "tokens of an expression are separated by blanks; repeated ^ without brackets is not used"]
def reval(text, env):
    """second reading of the expression text, by Python's own parser"""
    py = text.replace("^", "**").replace(" i ", " 1j ")
    toks = ["1j" if t == "i" else "math.pi" if t in ("pi", "PI") else "**" if t == "^" else t for t in text.split()]
    # comparisons of complex numbers with vanishing imaginary part: compare real parts
    class Z(complex):
        pass
    def wrap(z): return V(complex(z))
    class V:
        def __init__(s, z): s.z = z
        def __add__(s, o): return V(s.z + o.z)
        def __sub__(s, o): return V(s.z - o.z)
        def __mul__(s, o): return V(s.z * o.z)
        def __truediv__(s, o): return V(s.z / o.z)
        def __pow__(s, o): return V(s.z ** o.z.real)
        def __lt__(s, o): return V(complex(s.z.real < o.z.real))
        def __gt__(s, o): return V(complex(s.z.real > o.z.real))
    fn = dict(sin=lambda a: V(cmath.sin(a.z)), cos=lambda a: V(cmath.cos(a.z)), exp=lambda a: V(cmath.exp(a.z)), real=lambda a: V(complex(a.z.real)), imag=lambda a: V(complex(a.z.imag)), abs=lambda a: V(complex(abs(a.z))), atan2=lambda a, b: V(complex(math.atan2(a.z.real, b.z.real))))
    ns = dict(fn); out = []
    for t in toks:
        if t in fn or t in ("(", ")", "**", "*", "/", "+", "-", "<", ">", ","): out.append(t)
        elif t in env: out.append("W(%r)" % complex(env[t]))
        elif t == "math.pi": out.append("W(%r)" % math.pi)
        else: out.append("W(%s)" % t)
    try: return eval(" ".join(out), dict(ns, W=wrap)).z
    except (ZeroDivisionError, OverflowError, ValueError): return None
