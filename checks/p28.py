"""P28: the amplitudes found for a final state are exactly the chains the decay rules allow, with the product of their couplings."""
import pt, decays, uf, random, cmath, math, itertools
from decays import parse, show, leaves
LEVEL = "exploration"
RES = {"K*(892)bar0": [["K-", "pi+"], ["K0S0", "pi0"]], "rho(770)0": [["pi+", "pi-"]], "rho(770)+": [["pi+", "pi0"]], "a(1)(1260)+": [["rho(770)0", "pi+"], ["rho(770)+", "pi0"], ["f(0)(980)0", "pi+"], ["rho(1450)0", "pi+"], ["f(2)(1270)0", "pi+"], ["f(0)(1370)0", "pi+"]], "rho(1450)0": [["pi+", "pi-"]], "f(2)(1270)0": [["pi+", "pi-"], ["pi0", "pi0"]], "f(0)(1370)0": [["pi+", "pi-"]], "f(0)(980)0": [["pi+", "pi-"], ["pi0", "pi0"], ["K+", "K-"]],
       "K(1)(1270)bar-": [["rho(770)0", "K-"], ["K*(892)bar0", "pi-"], ["omega(782)0", "K-"]], "omega(782)0": [["pi+", "pi-", "pi0"], ["pi+", "pi-"], ["rho(770)0", "pi0"]], "phi(1020)0": [["K+", "K-"], ["pi+", "pi-", "pi0"], ["rho(770)0", "pi0"]], "K*(892)bar-": [["K-", "pi0"], ["K0S0", "pi-"]]}
TOP = [["K-", "pi+", "rho(770)0"], ["pi+", "pi-", "pi0"], ["K*(892)bar0", "pi+", "pi-"], ["f(0)(980)0", "pi+", "pi-"], ["omega(782)0", "pi0"], ["K*(892)bar0", "rho(770)0"], ["K(1)(1270)bar-", "pi+"], ["a(1)(1260)+", "K-"], ["rho(770)0", "rho(770)0"], ["f(0)(980)0", "rho(770)0"], ["K*(892)bar-", "rho(770)+"], ["a(1)(1260)+", "pi-"], ["phi(1020)0", "pi0"], ["K-", "pi+"], ["omega(782)0", "pi0"], ["f(0)(980)0", "f(0)(980)0"], ["phi(1020)0", "f(0)(980)0"], ["phi(1020)0", "rho(770)0"]]
FS = ["K- pi+ pi+ pi-", "pi+ pi- pi+ pi-", "K- pi+ pi0", "K+ K- pi+ pi-", "K- pi+", "pi+ pi- pi0", "K0S0 pi+ pi- pi0", "K+ K- pi0", "pi+ pi- pi0 pi0"]
TAB = None
def canon(t):
    """unordered tree with the orbital angular momentum of every vertex"""
    L = [decays.ORB.index(m) for m in t[1] if m in decays.ORB]; L = L[0] if L and L[0] else TAB.minL(t) if len(t[2]) == 2 else 0
    return (t[0], L if t[2] else 0, tuple(sorted(canon(k) for k in t[2])))
def expand(t, rules):
    """all ways to replace every leaf that has rules by one of them, recursively: [(tree, rules used)]"""
    if not t[2]:
        if t[0] not in rules: return [(t, ())]
        out = []
        for r, g in rules[t[0]]:
            for k, c in expand(r, rules): out.append(((k[0], k[1], k[2]), (g,) + c))
        return out
    out = []
    for ks in itertools.product(*[expand(k, rules) for k in t[2]]):
        c = ()
        for _, g in ks: c += g
        out.append(((t[0], t[1], [k for k, _ in ks]), c))
    return out
def scenario(rng):
    pars = []; rules = {}; used = set()
    def add(t, prefix=""):
        d = show(t)
        if prefix + d in used: return
        used.add(prefix + d); a, b = rng.choice([0, 1, -1, .5, 2, 3, .25]), rng.choice([0, 1, -1, .5, 2, -3])
        if not prefix and rng.random() < .12: a = rng.choice(["u", "v"]); b = rng.choice(FORM)   # a coupling given by an expression of other parameters
        pars.append((prefix + d, a, b)); rules.setdefault((prefix, t[0]), []).append((t, (prefix + d, a, b)))
    leafn = lambda n, depth: (n, [], [leafn(x, depth - 1) for x in rng.choice(RES[n])]) if n in RES and depth > 0 and rng.random() < .5 else (n, [], [])
    for _ in range(rng.randrange(1, 5)):
        k = rng.choice(TOP); m = [rng.choice("PD")] if rng.random() < .3 and len(k) == 2 and all(x in RES for x in k) else []
        add(("D0", m, [leafn(x, 2) for x in k]), "pre_" if rng.random() < .15 else "")
    dense = rng.choice((.55, .9))
    for n in RES:
        for d in RES[n]:
            if rng.random() < dense: add((n, [], [leafn(x, 1) for x in d]))
    return pars, rules
def run(rep, deep, seed):
    global TAB; TAB = decays.Table(pt.table()[0])
    rng = random.Random("p28:%d" % seed); L = []; plan = []; N = 900 if deep else 250
    for k in range(N):
        polar = rng.choice(["cartesian", "cartesian", "polar"]); deg = rng.choice(["rad", "deg"]); pars, rules = scenario(rng)
        L += [["opt", "CouplingConstant::Coordinates " + polar], ["opt", "CouplingConstant::AngularUnits " + deg], ["mps"]]
        for q in "uv": L += [["par", q, repr(UV[q])]]
        for d, a, b in pars: L += [["expr", d, "="] + b.replace("X", a).split()] if isinstance(a, str) else [["par", d + "_Re", repr(float(a))], ["par", d + "_Im", repr(float(b))]]
        val = lambda g, sh=lambda x: x, polar=polar, deg=deg: complex(eval(g[2].replace("X", "x"), {}, dict(x=sh(UV[g[1]])))) if isinstance(g[1], str) else val2((sh(g[1]), sh(g[2])), polar, deg)
        val2 = lambda g, polar, deg: complex(*g) if polar == "cartesian" else g[0] * cmath.exp(1j * g[1] * (math.pi / 180 if deg == "deg" else 1))
        sub = {}
        for (pre, n), v in rules.items():
            if n != "D0": sub.setdefault(n, []).extend(v)
        for f in rng.sample(FS, 3):
            for pre in ("-", "pre"):
                fs = f.split(); want = []
                for (p, n), v in rules.items():
                    if n != "D0" or p != ("" if pre == "-" else "pre_"): continue
                    for t, g in v:
                        for x, c in expand(t, sub):
                            if sorted(leaves(x)) == sorted(fs): want.append((x, (g,) + c))
                plan.append((len(L), pars, polar, deg, fs, pre, want, val)); L.append(["rules", pre, "D0"] + fs)
    A = pt.ask(L, timeout=800); bad = []; bad2 = []; bad3 = []; bad4 = []; n = tot = nz = nt = 0; U = uf.UF(1 + seed); globals()["UFD"] = U
    for i, pars, polar, deg, fs, pre, want, val in plan:
        a = A[i]; inp = dict(rules=[d for d, _, _ in pars], couplings=[(x, y) for _, x, y in pars], coordinates=(polar, deg), final_state=fs, prefix=pre)
        if pt.bad(a): bad.append(dict(input=inp, got=a)); continue
        tot += 1; nz += bool(want)
        # chains that differ only in which of two equal resonances decays how may share one descriptor: compare sets of chains
        g = {}; w = {}
        for x in a: g.setdefault(canon(strip(parse(x[0]["dd"]))), []).append(x)
        for t, c in want: w.setdefault(canon(strip(t)), []).append(c)
        if set(g) != set(w): bad.append(dict(input=inp, got=str(sorted(set(g) - set(w)))[:600], want=str(sorted(set(w) - set(g)))[:600])); continue
        for k in w:
            # two different resonances of the same name: every assignment is a chain of its own
            if len(g[k]) > len(w[k]) and not dup(k): bad2.append(dict(input=inp, got="%d chains %s" % (len(g[k]), str(k)[:300]), want=len(w[k])))
            for t, re, im, re2, im2, N, id, size in g[k]:
                c1 = complex(re, im) if not isinstance(re, str) else None; c2 = complex(re2, im2)
                # the rules of one of the ways to build this chain
                ways = [c for c in w[k] if near(c1, prod(val(q) for q in c)) and size == len(c)]
                if not ways: bad2.append(dict(input=inp, got=str((k, c1, size))[:500], want=str([prod(val(q) for q in c) for c in w[k]])[:300])); continue
                sh = lambda x: 1.5 * x + .25
                ways2 = [c for c in w[k] if near(c2, prod(val(q, sh) for q in c)) and size == len(c)]
                if not ways2: bad3.append(dict(input=inp, got=str((k, c2))[:500], want=str([prod(val(q, sh) for q in c) for c in w[k]])[:300])); continue
                if any(isinstance(q[1], str) for c in ways2 for q in c): continue
                # the coupling as an expression: the product for all values of the parameters
                nt += 1; V = U.nodes(N)[id]
                if not any(V == term(c, polar, deg) for c in ways2):
                    f = uf.Flt(uf.env_of(1)).nodes(N)[id]; ex = [term(c, polar, deg, uf.Flt(uf.env_of(1))) for c in ways2]
                    bad4.append(dict(input=inp, got="coupling expression of %s: %s" % (t["dd"], f), want=str(ex)[:300], real=not any(near(f, x) for x in ex)))
        if any(t["good"] != 1 or sorted(lv(t)) != sorted(fs) for t, *_ in a): bad.append(dict(input=inp, got="chain with another final state"))
    rep.bound("decay rules", "the chains found for an event type are exactly the ones the rules allow", tot, "%d random rule sets x final states, %d with at least one chain" % (tot, nz), bad[:3])
    rep.bound("decay rules", "the coupling of a chain is the product of the couplings of its rules (cartesian or polar)", tot, "random rule sets", bad2[:3])
    rep.bound("decay rules", "after the parameters change the coupling has their current values", tot, "every parameter changed once", bad3[:3])
    G = "TotalCoupling::to_expression"
    real = [b for b in bad4 if b.pop("real")]; T = "the coupling expression is the product over the rules of the chain, for all values of the parameters"
    if not bad4: rep.ob_many(G, T, nt, "UF-field")
    elif not real: rep.notes.append(G + ": equal at the sampled values, but not related by the prover"); rep.bound(G, T, nt, "one generic value of every parameter", [])
    for b in real[:3]: rep.violate(G, T, found=True, why="term differs", **b)
    if nz < tot // 10: rep.violate("decay rules", "some rule sets lead to the final state", found=False, why="%d of %d" % (nz, tot))
    rep.functions += ["AmplitudeRules::AmplitudeRules", "AmplitudeRules::getMatchingRules", "AmplitudeRules::expand", "AmplitudeRules::rulesForDecay", "Coupling::to_expression", "TotalCoupling::to_expression", "Coupling::operator()", "TotalCoupling::operator()", "Particle::expand", "Particle::clone"]
    rep.explored(tot, nz, "random sets of decay rules over 9 resonances with random couplings; non-trivial when at least one chain reaches the final state", [[d for d, _, _ in plan[0][1]]])
    rep.assumptions.append("a final-state particle with decay rules of its own is always expanded; identical chains written by two rules are listed once")
UV = dict(u=.75, v=-1.25)
FORM = ["X", "X * 2", "X * X + 1", "0.5 * X - 2"]
def prod(v):
    r = 1
    for x in v: r *= x
    return r
def near(a, b): return a is not None and abs(a - b) < 1e-9 * max(1, abs(a))
def term(c, polar, deg, D=None):
    D = D or UFD; r = D.const(1.0)
    for d, _, _ in c:
        x, y = D.var(d + "_Re"), D.var(d + "_Im")
        if polar == "polar": z = D.mul(x, D.app("exp", [D.mul(D.const(0.0, math.pi / 180 if deg == "deg" else 1.0), y)]))
        else: z = D.add(x, D.mul(D.const(0.0, 1.0), y))
        r = D.mul(r, z)
    return r
def strip(t): return (t[0], [m for m in t[1]], [strip(k) for k in t[2]])
def lv(t): return [t["n"]] if not t["d"] else [x for d in t["d"] for x in lv(d)]
def dup(k):
    """does the chain contain two resonances of the same name as sisters (their assignments may coincide)?"""
    n = [c for c in k[2]]
    return len(set(n)) < len(n) or any(dup(c) for c in k[2])
