"""P20: amplitudes are (anti)symmetric under exchange of identical final-state particles."""
import amps, uf, pt, itertools, math, random
LEVEL = "proof"
COV = "Particle::SpinFormalism Covariant"; CAN = "Particle::SpinFormalism Canonical"
M = {"pi+": .139, "pi-": .139, "K-": .494, "K+": .494, "pi0": .135, "gamma0": 0., "mu+": .105, "mu-": .105, "p+": .938, "p~-": .938, "K0S0": .497, "e+": 5e-4, "e-": 5e-4}
FERM = {"mu+", "mu-", "p+", "p~-", "e+", "e-"}
# (descriptor, event type final states, spin formalism, polarisation states of [head]+finals or None)
CASES = [
 ("D0{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}}", "pi+ pi- pi+ pi-", COV, None),
 ("D0[P]{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}}", "pi+ pi+ pi- pi-", COV, None),
 ("D0[D]{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}}", "pi- pi+ pi+ pi-", COV, None),
 ("D0{a(1)(1260)+{rho(770)0{pi+,pi-},pi+},pi-}", "pi+ pi- pi- pi+", COV, None),
 ("D0{K0S0,f(0)(980)0{pi0,pi0}}", "K0S0 pi0 pi0", COV, None),
 ("D+{f(2)(1270)0{pi+,pi-},pi+}", "pi- pi+ pi+", COV, None),
 ("D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}", "K- pi+ pi+ pi-", COV, None),
 ("D0{omega(782)0{pi0,rho(770)0{pi+,pi-}},pi0}", "pi+ pi- pi0 pi0", COV, None),
 ("D0{f(0)(980)0{pi0,pi0},f(0)(980)0{pi0,pi0}}", "pi0 pi0 pi0 pi0", COV, None),
 ("D0{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}}", "pi+ pi- pi+ pi-", CAN, None),
 ("D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}", "K- pi+ pi- pi+", CAN, None),
 ("D+{f(2)(1270)0{pi+,pi-},pi+}", "pi+ pi- pi+", CAN, None),
 ("B0{J/psi0{mu+,mu-},J/psi0{mu+,mu-}}", "mu+ mu- mu+ mu-", COV, [0, 1, 1, -1, 1]),
 ("B0{J/psi0{mu+,mu-},J/psi0{mu+,mu-}}", "mu+ mu+ mu- mu-", COV, [0, 1, -1, 1, -1]),
 ("B0{J/psi0{mu+,mu-},rho(770)0{pi+,pi-}}", "mu+ mu- pi+ pi-", COV, [0, 1, -1, 0, 0]),
 ("D0{omega(782)0{gamma0,pi0},omega(782)0{gamma0,pi0}}", "gamma0 pi0 gamma0 pi0", COV, [0, 1, 0, -1, 0]),
 ("D0{omega(782)0{gamma0,pi0},omega(782)0{gamma0,pi0}}", "gamma0 gamma0 pi0 pi0", CAN, [0, 1, -1, 0, 0]),
 ("J/psi0{f(0)(980)0{pi0,pi0},gamma0}", "gamma0 pi0 pi0", COV, [1, -1, 0, 0]),
]
MANY = [("D0{pi(1300)0{f(0)(980)0{pi0,pi0},pi0},pi0}", "pi0 pi0 pi0 pi0"), ("D0{f(0)(980)0{pi0,pi0},f(0)(1500)0{pi0,pi0}}", "pi0 pi0 pi0 pi0"), ("D0{a(1)(1260)+{f(0)(980)0{pi+,pi-},pi+},pi-}", "pi+ pi- pi- pi+")]
LEFT = "building the amplitude leaves the decay tree unchanged (propagator afterwards)"
DEEP = [("B0{J/psi0{mu+,mu-},J/psi0{mu+,mu-}}", "mu+ mu- mu+ mu-", CAN, [0, 1, 1, -1, -1])]
def orderings(fs):
    return [o for o in itertools.permutations(range(len(fs))) if all(fs[o[i]] == fs[i] for i in range(len(fs)))]
def ren(o):
    """evaluate particle i at the momentum of slot o[i]"""
    def f(n):
        h, _, t = n.partition("_")
        if t in ("Px", "Py", "Pz", "E") and h.isdigit(): return 1, "%d_%s" % (o[int(h)], t)
        return 1, n
    return f
def mod(d, m):
    """add a modifier to the head of a descriptor"""
    i = d.index("{"); h = d[:i]
    return (h[:-1] + ";" + m + "]" if h.endswith("]") else h + "[" + m + "]") + d[i:]
def permpol(pol, o): return None if pol is None else [pol[0]] + [pol[1 + o[i]] for i in range(len(o))]
def combinatorics(rep, deep):
    G = "permutations of identical particles"
    sets = [["pi+"], ["pi+", "pi-"], ["pi+", "pi+"], ["pi+", "pi-", "pi+"], ["pi+", "pi+", "pi+"], ["K-", "pi+", "pi+", "pi-"], ["pi+", "pi-", "pi+", "pi-"], ["pi0"] * 4, ["K-", "K-", "pi+", "pi+", "pi0"], ["pi+", "pi0", "pi+", "pi0", "pi+"], ["mu+", "mu-", "mu+", "mu-"], ["K+", "K-", "pi+", "pi-"], ["pi0"] * 5, ["pi0"] * 6, ["pi+"] * 3 + ["pi-"] * 3, ["pi-", "pi+"] * 3]
    L = [["perm", "D0{%s}" % ",".join(s)] + s for s in sets if len(s) > 1]
    ex = []
    for n in (2, 3, 4, 5):
        for o in itertools.permutations(range(n)):
            for e in itertools.product((1, -1), repeat=n):
                ok = all(e[o[i]] == e[i] for i in range(n))
                if ok and (n < 5 or len(set(e)) == 1 or deep): ex.append((o, e))
    A = pt.ask(L + [["swap", ",".join(map(str, o)), ",".join(map(str, e))] for o, e in ex])
    for l, a in zip(L, A):
        s = l[2:]; want = sorted(orderings(s))
        got = None if pt.bad(a) else sorted(map(tuple, a))
        rep.ob(G, "all and only the name-preserving permutations of %s" % " ".join(s), got == want, "exhaustive", why="wanted %s" % want, got=a, input=l[1])
    ok = 0; bad = []
    for (o, e), a in zip(ex, A[len(L):]):
        seen = set(); cyc = 0
        for i in range(len(o)):
            if i not in seen:
                cyc += 1
                while i not in seen: seen.add(i); i = o[i]
        want = [len(o) - cyc, amps.perm_sign(o, [x < 0 for x in e])]
        if a == want: ok += 1
        else: bad.append(dict(input="permutation %s of particles with exchange parities %s" % (o, e), got=a, want=want))
    rep.ob_many(G, "minimal number of swaps and exchange parity of a permutation", ok, "exhaustive (all permutations of up to 5 particles)")
    for b in bad[:3]: rep.violate(G, "minimal number of swaps and exchange parity of a permutation", why="real code on a concrete input", **b)
    rep.functions += ["Particle::identicalDaughterOrderings", "minSwaps"]
def run(rep, deep, seed):
    combinatorics(rep, deep)
    lines = []; plan = []
    for k, (d, f, form, pol) in enumerate(CASES + (DEEP if deep else [])):
        fs = f.split(); O = orderings(fs); opt = [form, "Particle::SpinBasis " + ("Weyl" if "gamma0" in fs else "Dirac")]
        lines.append(("S%d" % k, opt, "same", pol or [], d, fs)); lines.append(("I%d" % k, opt, "same", pol or [], mod(d, "Inco"), fs))
        P = {}
        for o in O:
            pp = permpol(pol, o); key = "N%d:%s" % (k, "".join(map(str, pp or [])))
            if key not in P.values(): lines.append((key, opt, "same", pp or [], mod(d, "NoSym"), fs))
            P[o] = key
            # the symmetrised amplitude with the polarisation labels exchanged as well
            kk = "S%d:%s" % (k, "".join(map(str, pp or [])))
            if kk not in [l[0] for l in lines]: lines.append((kk, opt, "same", pp or [], d, fs))
        lines.append(("A%d" % k, opt, "after", pol or [], d, fs)); lines.append(("B%d" % k, opt, "prop", pol or [], d, fs)); lines.append(("T%d" % k, opt, "twice", pol or [], d, fs))
        plan.append((k, d, fs, form, pol, O, P))
    # chains with many identical particles: only what building the amplitude leaves behind
    many = []
    for k, (d, f) in enumerate(MANY):
        for w in ("after", "prop"): lines.append(("M%d%s" % (k, w), [COV, "Particle::SpinBasis Dirac"], w, [], d, f.split()))
    N, R, crash = amps.fetch(lines)
    if crash: rep.violate("amplitude", "amplitudes of decays with identical particles can be built", why=str(crash)[:300])
    def same(G, k, fs, A=None, B=None):
        root = lambda key: R[key]["ids"][0]
        for a, b, nm in ((("A%d" % k, "B%d" % k, LEFT), ("T%d" % k, "S%d" % k, "building the amplitude twice gives the same amplitude")) if A is None else ((A, B, LEFT),)):
            if a in R and "ids" in R[a] and b in R and "ids" in R[b]:
                x, y = amps.values(N, [root(a), root(b)], uf.UF(seed))
                if x == y and x is not None: rep.ob(G, nm, True, "congruence + F_p-identity")
                else:
                    bad = []
                    for t in range(4):
                        D = amps.flt(amps.kinematics(t, [M.get(q, .3) for q in fs]), t); x, y = amps.values(N, [root(a), root(b)], D)
                        if x is not None and y is not None and not uf.close(x, y, 1e-7): bad.append(dict(input=amps.kinematics(t, [M.get(q, .3) for q in fs]), got=str(x), want=str(y)))
                    rep.bound(G, nm, 4, "4 phase-space points (no exact proof)", bad)
    for k, d, fs, form, pol, O, P in plan:
        G = "%s -> %s (%s%s)" % (d, " ".join(fs), form.split()[1], "" if pol is None else " " + str(pol))
        miss = [x for x in ["S%d" % k, "I%d" % k] + list(P.values()) if x not in R or "ids" not in R[x]]
        if miss: rep.violate(G, "the amplitude can be built", why=str(R.get(miss[0]))[:200]); continue
        ferm = [x in FERM for x in fs]; n = len(O)
        root = lambda key: R[key]["ids"][0]
        S, I = root("S%d" % k), root("I%d" % k)
        def evald(mk):
            """mk(f) -> domain with renaming f; returns symmetrised, incoherent, expected sum, expected incoherent sum, list of exchanged"""
            D = mk(lambda n: (1, n)); s, i = amps.values(N, [S, I], D)
            tot = D.const(0.0); inc = D.const(0.0); ex = []; sc = 0
            for o in O:
                E = mk(ren(o)); 
                # Flt gives complex numbers, UF pairs: both understand app()
                a, b = amps.values(N, [root(P[o]), root("S%d:%s" % (k, "".join(map(str, permpol(pol, o) or []))))], E)
                if a is None or b is None: return None
                sg = D.const(float(amps.perm_sign(o, ferm)))
                tot = D.app("+", [tot, D.app("*", [sg, a])]); inc = D.app("+", [inc, D.app("norm", [a])]); ex.append((o, sg, b)); sc += abs(a) if isinstance(a, complex) else 0
            return D, s, i, tot, inc, ex, sc
        U1 = evald(lambda f: amps.Ren(seed * 2 + 1, f)); U2 = evald(lambda f: amps.Ren(seed * 2 + 2, f))
        def numeric(pick):
            """witness search: pick(result) -> (got, want)"""
            for t in range(6):
                env = amps.kinematics(t, [M.get(x, .3) for x in fs])
                r = evald(lambda f: amps.flt(env, t, f))
                if r is None: continue
                for nm, g, w in pick(r):
                    if g is not None and w is not None and abs(g - w) > 1e-7 * r[6]: return dict(input={"momenta": env, "permutation": nm}, got=str(g), want=str(w))
            return None
        v = [evald(lambda f: amps.flt(amps.kinematics(t, [M.get(x, .3) for x in fs]), t, f)) for t in range(2)]
        if not any(r and abs(r[1]) < 1e300 and abs(r[3]) > 0 for r in v): rep.violate(G, "the amplitude is finite and does not vanish identically", why="numerical evaluation at 2 phase-space points", got=str([r and r[1:4] for r in v]))
        def decide(name, proved, pick):
            if proved: rep.ob(G, name, True, "congruence + F_p-identity"); return
            w = numeric(pick)
            if w: rep.violate(G, name, why="numerical evaluation of the real amplitude", **w)
            else: rep.bound(G, name, 6, "6 phase-space points (no exact proof)")
        ok = False
        if U1 and U2:
            c = amps.constant_ratio(U1[1], U1[3], U2[1], U2[3], U1[0]); ok = c is not None and (c == 0.0 or abs(c * math.sqrt(n) - 1) < 1e-12)
        decide("amplitude = (1/sqrt(n)) sum over permutations of identical particles, with exchange sign", ok, lambda r: [("sum", r[1], r[3] / math.sqrt(n))])
        ok = False
        if U1 and U2:
            D = U1[0]; ok = U1[2] == D.app("sqrt", [D.div(U1[4], D.const(float(n)))])
        decide("incoherent amplitude = sqrt(mean of |.|^2 over permutations)", ok, lambda r: [("sum", r[2], (r[4] / n) ** .5)])
        ok = bool(U1) and all(b == U1[0].app("*", [sg, U1[1]]) for o, sg, b in U1[5])
        decide("exchanging identical particles (momenta and polarisations) multiplies the amplitude by the exchange sign", ok, lambda r: [(o, b, sg * r[1]) for o, sg, b in r[5]])
        same(G, k, fs)
    for k, (d, f) in enumerate(MANY): same("%s -> %s" % (d, f), k, f.split(), "M%dafter" % k, "M%dprop" % k)
    rep.functions += ["Particle::getExpression", "Particle::setOrdering", "Particle::setPolarisationState", "Particle::spinTensor", "Particle::propagator", "helicityAmplitude"]
    rep.std_assumptions()
    rep.assumptions.append("decay topologies enumerated: %d decays in both spin formalisms; all momenta" % len(CASES))
