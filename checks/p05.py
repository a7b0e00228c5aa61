"""P05: normal ordering / simplification (and the simplified CSE key) preserve the value denoted."""
import build, oblig, uf, p01
LEVEL = "proof"
WHAT = ["Simplify", "NormalOrderedExpression(keep sub-trees)", "NormalOrderedExpression(expand sub-trees)", "make_cse(simplify)"]
def run(rep, deep, seed):
    exe = build.harness("expr"); keys = {}
    for c in ("simplify_shapes", "simplify_deep", "simplify_small"):
        d = oblig.run_harness(exe, [c]); N = d["nodes"]
        if not d["recs"] or "json" not in d["recs"][0]:
            rep.ob(c, "simplification terminates without error", False, "replay", why=str(d.get("crash") or d["recs"])[:500]); continue
        rows = d["recs"][0]["json"]; Ds = [uf.UF(seed + k) for k in range(3 if deep else 2)]; Vs = [D.nodes(N) for D in Ds]
        ok = [0] * 4; skip = 0; kd = {}; nk = 0
        for nm, e, *r in rows:
            key = r[4]; r = r[:4]
            if Vs[0][e] is None or any(V[e] is None for V in Vs): skip += 1; continue
            if key:
                o = kd.setdefault(key, (e, nm)); nk += 1
                if Vs[0][o[0]] != Vs[0][e] and len(rep.violations) < 30:
                    w = wit(N, o[0], e)
                    rep.violate("make_cse(simplify)", "expressions sharing a name in the generated code are equal: %s and %s" % (o[1], nm), found=bool(w), **(w or {}))
            for m in range(4):
                if all(V[r[m]] == V[e] for V in Vs): ok[m] += 1
                elif len(rep.violations) < 30:
                    w = wit(N, e, r[m])
                    rep.violate(WHAT[m], "value preserved for " + nm, found=bool(w), **(w or {"why": "terms differ"}))
        for m in range(4): rep.ob_many("%s [%s]" % (WHAT[m], c), "value preserved", ok[m], "field+congruence identity (F_p^2)")
        rep.ob_many("make_cse(simplify) [%s]" % c, "equal key implies equal value", nk, "field+congruence identity (F_p^2)")
        rep.notes.append("%s: %d expressions, %d with a vanishing divisor skipped" % (c, len(rows), skip))
    rep.functions += ["Simplify", "NormalOrderedExpression::NormalOrderedExpression", "NormalOrderedExpression::ExpandBrackets", "NormalOrderedExpression::groupExpressions", "NormalOrderedExpression::Term::addExpression", "NormalOrderedExpression::Term::operator Expression", "make_cse"]
    rep.assumptions += ["proved for every input value of the leaves, for the enumerated tree shapes (all pairs of shapes to depth 4, random shapes to depth 4 over 13 leaves); the recursion over arbitrary depth is not itself proved"]
    rep.trusted += ["lib/uf.py", "harness/h.h", "g++"]
def wit(N, e, r, tries=40):
    for k in range(2 * tries):
        D = uf.Flt(uf.env_of(k)); V = p01.sub_eval(D, N, (e, r))
        if None in (V[e], V[r]) or V[e] != V[e] or abs(V[e]) > 1e8: continue
        if not uf.close(V[e], V[r], 1e-7 if k < tries else 3e-14): return dict(before=str(V[e]), after=str(V[r]), inputs={v: D.env(v) for v in ("pa", "pb", "pc", "pu", "pv")})
