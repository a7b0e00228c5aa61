"""P01: building expressions with the overloaded operators and fcn:: builders never changes the value denoted."""
import build, oblig, uf, cmath, math
LEVEL = "proof"
CASES = ["ops_atoms", "ops_deep", "ops_same", "ops_rel", "fcns", "ops_gen", "fcns_gen"]
FN1 = {"sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "conj", "norm", "abs", "isqrt", "neg"}
def spec(D, op, a, b, nb):
    z = D.const(0.0); one = D.const(1.0)
    if op == "id": return a
    if op == "safe_sqrt": return D.app("ite", [D.app(">", [a, z]), D.app("sqrt", [a]), z])
    if op == "complex_sqrt": return D.app("ite", [D.app(">", [a, z]), D.app("sqrt", [a]), D.app("*", [D.const(0.0, 1.0), D.app("sqrt", [D.app("neg", [a])])])])
    if op == "fpow":
        n = int(nb); r = one
        for _ in range(abs(n)): r = D.app("*", [r, a])
        return r if n >= 0 else D.app("/", [one, r])
    if op == "pow" and nb == "0": return one
    if op in FN1: return D.app(op, [a])
    return D.app(op, [a, b])
FOLD = {"sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "abs", "isqrt", "complex_sqrt", "safe_sqrt", "norm", "pow"}
FUN = {"+": "operator+", "-": "operator-", "*": "operator*", "/": "operator/", "neg": "Expression::operator-", "id": "make_cse", "fpow": "fcn::fpow"}
def isconst(N, i): return N[i][0] == "const"
def run(rep, deep, seed):
    exe = build.harness("expr"); n = 0
    for c in CASES:
        d = oblig.run_harness(exe, [c]); N = d["nodes"]
        if not d["recs"] or "json" not in d["recs"][0]:
            rep.notes.append("case %s produced nothing: %s" % (c, d.get("crash") or d["recs"])); rep.ob(c, "terms are built without error", False, "replay", found=True, why=str(d.get("crash") or d["recs"])[:500]); continue
        rows = d["recs"][0]["json"]
        Vs = [uf.UF(seed + k).nodes(N) for k in range(3 if deep else 2)]; Ds = [uf.UF(seed + k) for k in range(3 if deep else 2)]
        groups = {}
        for op, na, nb, ia, ib, ir in rows:
            n += 1; name = "%s(%s%s)" % (op, na, ", " + nb if nb else ""); key = op
            g = groups.setdefault(key, [0, 0, 0, []]); g[0] += 1
            if op in FOLD and isconst(N, ir) or (isconst(N, ia) and op in FOLD and op != "norm"):
                bad = flt(N, op, ia, ib, ir, nb, 6)
                g[2] += 1
                if bad: g[3].append((name, bad))
                continue
            st = None
            for D, V in zip(Ds, Vs):
                if V[ia] is None or V[ib] is None: continue
                try: s = spec(D, op, V[ia], V[ib], nb)
                except uf.Zero: continue
                st = (V[ir] == s)
                if not st: break
            if st is None: g[2] += 1
            elif st: g[1] += 1
            else:
                bad = flt(N, op, ia, ib, ir, nb, 40, 1e-12 if isconst(N, ir) else 1e-9)
                if not bad and isconst(N, ir): g[2] += 1      # folded constant: equal up to rounding
                else: g[3].append((name, bad))
        for op, (tot, ok, fl, bad) in groups.items():
            f = FUN.get(op, "fcn::" + op if op.isalpha() or "_" in op else "operator" + op)
            rep.functions.append(f)
            rep.ob_many("%s [%s]" % (f, c), "value preserved for every pair of operand shapes", ok, "field+congruence identity (F_p^2)")
            if fl: rep.bound("%s [%s]" % (f, c), "folded constants (computed in floating point)", fl, "the listed constants", [])
            for name, b in bad[:20]:
                if b: rep.violate(f, "value of " + name, found=True, **b)
                else: rep.violate(f, "value of " + name, found=False, why="built term differs from the operation applied to the operands")
    rep.functions += ["simplify_constant_addition", "simplify_product_addition", "simplify_multiplication", "simplify_constant_unary"]
    # evaluation of every node class
    d = oblig.run_harness(exe, ["eval"]); bad = []; cnt = 0
    for nm, a, b, r in (d["recs"][0]["json"] if d["recs"] else []):
        a = complex(*map(float, a)); b = complex(*map(float, b)); r = complex(*map(float, r)); cnt += 1
        s = ev(nm, a, b)
        if s is None: continue
        if not (r == r and uf.close(r, s, 1e-10)): bad.append(dict(input="%s(%s, %s)" % (nm, a, b), got=str(r), expected=str(s)))
    rep.functions.append("operator()() of every node class")
    rep.bound("IExpression::operator()", "direct evaluation of a node is the mathematical operation on its children's values", cnt, "every node class on a grid of complex points", bad)
    rep.assumptions += ["rewriting rules are checked for every operand shape up to depth 3 (each rule inspects at most the top two levels of an operand); deeper operands follow by induction on the recursive calls, which is argued, not machine-checked",
                        "constants smaller in magnitude than 2^-52 are flushed by design and excluded", "floating-point arithmetic treated as exact (rounding)"]
    rep.trusted += ["lib/uf.py (decision procedure)", "harness/h.h (export of the built DAG)", "g++"]
BIN = {"Sum": "+", "Sub": "-", "Product": "*", "Divide": "/", "Pow": "pow", "LessThan": "<", "GreaterThan": ">", "LessThanEqualTo": "<=", "GreaterThanEqualTo": ">=", "And": "&&", "Or": "||", "Equal": "=="}
UN = {"Log": "log", "Exp": "exp", "Sqrt": "sqrt", "Abs": "abs", "Norm": "norm", "Conj": "conj", "Real": "re", "Imag": "im", "Sin": "sin", "Cos": "cos", "Tan": "tan", "ASin": "asin", "ACos": "acos", "ATan": "atan", "ISqrt": "isqrt"}
def ev(nm, a, b):
    D = uf.Flt(None)
    try:
        if nm in BIN: return D.app(BIN[nm], [a, b])
        if nm == "Fmod": return D.app("fmod", [a, b]) if a.imag == 0 and b.imag == 0 else None
        if nm == "ATan2": return D.app("atan2", [a, b])
        if nm == "LGamma": return D.app("lgamma", [a]) if a.imag == 0 else None
        if nm in UN:
            if nm in ("ASin", "ACos") and a.imag == 0 and abs(a.real) > 1: return None  # on the branch cut
            if nm == "ATan" and a.real == 0 and abs(a.imag) >= 1: return None
            return D.app(UN[nm], [a])
        if nm == "SubTree": return a
        if nm == "Ternary1": return a
        if nm == "Ternary0": return b
        if nm == "ComplexParameter": return a.real + 1j * b.real
    except uf.Zero: return None
def flt(N, op, ia, ib, ir, nb, tries, tol=1e-9):
    """concrete witness: evaluate the built term and the specification at concrete inputs"""
    for k in range(tries):
        D = uf.Flt(uf.env_of(k)); V = sub_eval(D, N, (ia, ib, ir))
        a, b, r = V[ia], V[ib], V[ir]
        if None in (a, b, r): continue
        try: s = spec(D, op, a, b, nb)
        except uf.Zero: continue
        if not (r == r) and s != s: continue
        if op in ("asin", "acos") and abs(a.imag) < 1e-300: continue
        if not uf.close(r, s, tol): return dict(operands="%s, %s" % (a, b), got=str(r), expected=str(s), env_seed=k)
    return None
def sub_eval(D, N, ids):
    V = {}
    def go(i):
        if i in V: return V[i]
        n = N[i]; op = n[0]; v = None
        try:
            if op == "const": v = D.const(n[1], n[2])
            elif op == "var": v = D.var(n[1])
            elif op == "cvar": v = D.var(n[1]) + 1j * D.var(n[2])
            elif op == "sub": v = go(n[1])
            elif op == "fn":
                a = [go(i) for i in n[2:]]; v = None if None in a else D.fn("call:" + n[1], a)
            elif op in ("other", "null"): v = None
            else:
                a = [go(i) for i in n[1:]]; v = None if None in a else D.app(op, a)
        except uf.Zero: v = None
        V[i] = v; return v
    for i in ids: go(i)
    return V
