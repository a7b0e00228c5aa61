"""P21: quark-content arithmetic."""
import pt, random, itertools
LEVEL = "exploration"
O = "dusctb"
def run(rep, deep, seed):
    rng = random.Random("p21:%d" % seed); G = "quark states"
    order = "dusctb"
    # order of the flavours in the vector: read off single quarks, must be a permutation
    A = pt.ask([["s", f] for f in order]); pos = {}
    for f, a in zip(order, A):
        ok = not pt.bad(a) and sorted(a) == [0, 0, 0, 0, 0, 1]
        rep.ob(G, "single quark %s counts one of one flavour" % f, ok, "exhaustive", got=a, input=f)
        if ok: pos[f] = a.index(1)
    rep.ob(G, "the six flavours are distinct", len(set(pos.values())) == 6, "exhaustive", got=pos)
    if len(set(pos.values())) != 6: return
    def vec(s):
        v = [0] * 6
        for c in s:
            if c.lower() in pos: v[pos[c.lower()]] += 1 if c.islower() else -1
        return tuple(v)
    toks = [""] + ["".join(x) for k in (1, 2) for x in itertools.product("dusctbDUSCTB", repeat=k)]
    more = ["".join(rng.choice("dusctbDUSCTB") for _ in range(rng.randrange(3, 6))) for _ in range(400)]
    A = pt.ask([["s", s] for s in toks + more if s]); bad = []
    for s, a in zip([s for s in toks + more if s], A):
        if pt.bad(a) or tuple(a) != vec(s): bad.append(dict(input=s, got=a, want=vec(s)))
    rep.ob_many(G, "a quark state counts quarks minus antiquarks per flavour", len(A) - len(bad), "exhaustive (all states of one or two quarks; 400 random longer ones)")
    for b in bad[:3]: rep.violate(G, "a quark state counts quarks minus antiquarks per flavour", **b)
    pairs = [(a, b) for a in toks if a for b in toks if b]; rng.shuffle(pairs); pairs = pairs[: 12000 if deep else 4000] + [(s, s) for s in toks if s]
    A = pt.ask([["ss", a, b] for a, b in pairs]); bad = []
    for (a, b), r in zip(pairs, A):
        x, y = vec(a), vec(b); w = [[p + q for p, q in zip(x, y)], [p - q for p, q in zip(x, y)], [-p for p in x], int(x == y), int(x != y), int(not any(x))]
        if r != w: bad.append(dict(input="%s, %s" % (a, b), got=r, want=w))
    rep.ob_many(G, "sum, difference, conjugate, equality and vacuum test are componentwise", len(pairs) - len(bad), "exhaustive over the sampled pairs")
    for b in bad[:3]: rep.violate(G, "sum, difference, conjugate, equality and vacuum test are componentwise", **b)
    # quark contents: alternatives
    G = "quark contents"
    forms = ["%s", "(%s+%s)/sqrt(2)", "(%s-%s)/sqrt(2)", "x(%s+%s)+y(%s)", "p%s-q%s", "x(%s-%s)+y(%s)", "%s+%s+%s"]
    base = ["uU", "dD", "sS", "uD", "dU", "uS", "sU", "dS", "sD", "cU", "uC", "cD", "uB", "bU", "cS", "sC", "uud", "udd", "uds", "UUD", "uuu", "udc", "uudS", "bb", "u", "D"]
    def text():
        f = rng.choice(forms); return f % tuple(rng.choice(base) for _ in range(f.count("%s")))
    def content(s):
        t = s.replace("sqrt", ""); cur = ""; out = []
        for c in t + "+":
            if c in "()+-":
                if cur: out.append(vec(cur)); cur = ""
            else: cur += c
        out = [o for o in out if any(o)]
        return out or [(0,) * 6]
    N = 6000 if deep else 2500; P = [(text(), text()) for _ in range(N)] + [("non-qQ", "uD"), ("??", "uD"), ("non-qQ", "non-qQ")]
    A = pt.ask([["q", a] for a, _ in P] + [["qq", a, b] for a, b in P]); bad = []; bad2 = []
    for (a, b), q, r in zip(P, A[:len(P)], A[len(P):]):
        x, y = content(a), content(b)
        if "non-qQ" in a: x = [(0,) * 6]
        if pt.bad(q) or sorted(map(tuple, q)) != sorted(x): bad.append(dict(input=a, got=q, want=x))
        if pt.bad(r): bad2.append(dict(input="%s ; %s" % (a, b), got=r)); continue
        add = {tuple(p + q for p, q in zip(u, v)) for u in x for v in y}; sub = {tuple(p - q for p, q in zip(u, v)) for u in x for v in y}
        eq = int(bool(set(x) & set(y)))
        if "non-qQ" in b: continue
        ok = {tuple(v) for v in r[0]} == add and {tuple(v) for v in r[1]} == sub and sorted(map(tuple, r[2])) == sorted(tuple(-k for k in u) for u in x) and r[3] == eq and r[4] == 1 - eq
        if not ok: bad2.append(dict(input="%s ; %s" % (a, b), got=r, want=[sorted(add), sorted(sub), eq]))
    rep.bound(G, "the alternatives of a superposition are its terms", len(P), "random superpositions of up to three terms", bad[:3])
    rep.bound(G, "sums and differences combine every pair of alternatives; two contents agree when they share one; conjugation negates all", len(P), "random pairs of superpositions", bad2[:3])
    rep.functions += ["QuarkState::QuarkState", "QuarkState::operator+=", "QuarkState::operator-=", "QuarkState::antiThis", "QuarkState::isVacuum", "QuarkState::operator==", "QuarkContent::QuarkContent", "QuarkContent::operator+=", "QuarkContent::operator-=", "QuarkContent::operator==", "QuarkContent::antiThis"]
    rep.explored(len(pairs) + 2 * len(P), len(set(pairs)) + len(set(P)), "quark strings; distinct by text", [P[0], P[1], pairs[0]])
