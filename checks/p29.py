"""P29: CP conjugation of amplitudes and couplings."""
import amps, uf, pt, decays, re, random, itertools
from decays import parse, show, leaves
LEVEL = "proof"
M = {"pi+": .139, "pi-": .139, "K-": .494, "K+": .494, "pi0": .135}
CASES = ["D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}", "D0[P]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}", "D0[D]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}", "D0{K(1)(1270)bar-{rho(770)0{pi+,pi-},K-},pi+}",
 "D0{K(1)(1270)bar-[D]{K*(892)bar0{K-,pi+},pi-},pi+}", "D0{a(1)(1260)+{rho(770)0{pi+,pi-},pi+},K-}", "D0{a(1)(1260)+[D]{rho(770)0{pi+,pi-},pi+},K-}", "D0{K-,pi+}", "D0{phi(1020)0{K+,K-},rho(770)0{pi+,pi-}}",
 "D0[P]{phi(1020)0{K+,K-},rho(770)0{pi+,pi-}}", "D0{f(0)(980)0{pi+,pi-},rho(770)0{pi+,pi-}}", "D0{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}}", "D0[P]{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}}", "D0{K(2)*(1430)bar0{K-,pi+},rho(770)0{pi+,pi-}}",
 "D0{omega(782)0{pi0,rho(770)0{pi+,pi-}},pi0}", "D0{K*(892)bar0{K-,pi+},pi0}", "D0{a(1)(1260)+{f(0)(980)0{pi+,pi-},pi+},K-}", "D0{phi(1020)0{rho(770)+{pi+,pi0},pi-},pi0}", "D0{K*(892)+{K+,pi0},K*(892)bar-{K-,pi0}}",
 "D0[P]{K*(892)+{K+,pi0},K*(892)bar-{K-,pi0}}", "D0{f(2)(1270)0{pi+,pi-},rho(770)0{pi+,pi-}}", "D0{f(0)(1370)0{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}},pi0}", "D0{b(1)(1235)+{omega(782)0{pi+,pi-},pi+},pi-}", "D0{b(1)(1235)0{omega(782)0{pi+,pi-},pi0},pi0}",
 "D0{phi(1020)0{K+,K-},pi0}", "D0{a(1)(1260)0{rho(770)+{pi+,pi0},pi-},pi0}", "D0{h(1)(1170)0{rho(770)0{pi+,pi-},pi0},pi0}", "D0{f(0)(1710)0{K*(892)0{K+,pi-},K*(892)bar0{K-,pi+}},pi0}", "D0{NonResV0{K-,pi+},pi0}", "D0{K(0)*(1430)bar0{K-,pi+},rho(770)0{pi+,pi-}}",
 "D+{K*(892)bar0{K-,pi+},pi+}", "D(s)+{phi(1020)0{K+,K-},pi+}", "B0{a(1)(1260)+{rho(770)0{pi+,pi-},pi+},pi-}", "B+{rho(770)0{pi+,pi-},K*(892)+{K+,pi0}}", "B(s)0{phi(1020)0{K+,K-},phi(1020)0{K+,K-}}"]
CASES += ["B-{D0{K*(892)bar0{K-,pi+},pi0},K-}", "B0{D0{D0{K*(892)bar0{K-,pi+},pi0}},pi0}", "D0{phi(1020)0{phi(1020)0{K+,K-}},pi0}", "B0{D0{rho(770)0{pi+,pi-},K*(892)bar0{K-,pi+}},pi0}", "B0{D0[P]{rho(770)0{pi+,pi-},K*(892)bar0{K-,pi+}},pi0}", "B0{D0{D0{rho(770)0{pi+,pi-},K*(892)bar0{K-,pi+}}},pi0}", "B+{D*(2007)bar0{Dbar0{K+,pi-},pi0},pi+}"]
# stable particles with spin: the momenta are reversed, the spin labels follow the conventions of P12
SPIN = ["B0{J/psi0{mu+,mu-},K*(892)0{K+,pi-}}", "B0[P]{J/psi0{mu+,mu-},K*(892)0{K+,pi-}}", "B0[D]{J/psi0{mu+,mu-},K*(892)0{K+,pi-}}", "B0{J/psi0{e+,e-},phi(1020)0{K+,K-}}", "D0{omega(782)0,rho(770)0{pi+,pi-}}", "D0[P]{omega(782)0,rho(770)0{pi+,pi-}}", "B+{K+,J/psi0{mu+,mu-}}", "B0{K(0)*(1430)0{K+,pi-},J/psi0{mu+,mu-}}", "B(s)0{J/psi0{mu+,mu-},J/psi0{mu+,mu-}}"]
FORM = ("Covariant", "Canonical")
def run(rep, deep, seed):
    T = decays.Table(pt.table()[0])
    anti = {x: (x if not T.p[x]["anti"] else T.ids[-T.p[x]["id"]]["name"]) for x in T.p if not T.p[x]["anti"] or -T.p[x]["id"] in T.ids}
    def f(flip):
        def g(n):
            if re.fullmatch(r"\d+_P[xyz]", n): return (-1 if flip else 1), n
            h, _, t = n.rpartition("_")
            if h in anti: n = min(h, anti[h]) + "_" + t       # the parameters of a particle and of its antiparticle have the same value
            return 1, n
        return g
    lines = []
    for form in FORM:
        for i, d in enumerate(CASES):
            fs = leaves(parse(d))
            for m in ("same", "conj"): lines.append(("%s%s%d" % (form, m, i), ["Particle::SpinFormalism " + form, "Particle::SpinBasis Dirac"], m, [], d, fs))
    N, R, crash = amps.fetch(lines)
    if crash: rep.violate("CP of amplitudes", "amplitudes and their CP conjugates can be built", why=str(crash)[:300])
    for form in FORM:
        for i, d in enumerate(CASES):
            G = "%s (%s)" % (d, form); fs = leaves(parse(d)); nm = "amplitude of the conjugate decay at the parity-transformed point = CP() x amplitude"
            a, b = R.get("%ssame%d" % (form, i)), R.get("%sconj%d" % (form, i))
            if not a or not b or "ids" not in a or "ids" not in b: rep.violate(G, "the conjugate decay can be built", why=str((a, b))[:300]); continue
            cp, cq = R["%ssame%d#cp" % (form, i)]["num"], R["%sconj%d#cp" % (form, i)]["num"]
            rep.ob(G, "the decay and its conjugate have the same CP sign", float(cp) == float(cq) and abs(float(cp)) == 1, "concrete", got=(cp, cq), input=d)
            ra, rb = a["ids"][0], b["ids"][0]; s = int(float(cp))
            if form == "Covariant":
                u, = amps.values(N, [ra], amps.Ren(seed, f(0))); v, = amps.values(N, [rb], amps.Ren(seed, f(1))); D = uf.UF(seed)
                if u is not None and v is not None and u != (0, 0) and v == D.mul(D.const(float(s)), u): rep.ob(G, nm, True, "congruence + F_p-identity"); continue
            bad = []; n = 0
            for t in range(5):
                env = amps.at_rest(amps.kinematics(t, [M.get(x, .3) for x in fs]), len(fs))
                x, = amps.values(N, [ra], amps.flt(env, t, f(0))); y, = amps.values(N, [rb], amps.flt(env, t, f(1)))
                if x is None or y is None: continue
                n += 1
                if not abs(y - s * x) <= 1e-6 * max(abs(x), abs(y)): bad.append(dict(input=dict(decay=d, momenta=env), got=str(y), want="%d * %s" % (s, x)))
            if n == 0: rep.violate(G, nm, why="no finite value at 5 phase-space points", input=d)
            else: rep.bound(G, nm, n, "%d phase-space points in the rest frame" % n, bad[:2])
    spinful(rep, deep, seed, T, f)
    couplings(rep, deep, seed, T, anti)
    rep.functions += ["Particle::conj", "Particle::CP", "Particle::C", "Particle::finalStateParity", "Particle::getExpression", "AddCPConjugate", "EventType::conj", "Particle::sortDaughters"]
    rep.std_assumptions()
    rep.assumptions += ["%d decay topologies; C and P conserving decays of the intermediate resonances" % len(CASES), "decays written as chained rules carry the sign of the first vertex only (see DESIGN.md)", "canonical formalism: bounded (numerical, rest frame)"]
def spinful(rep, deep, seed, T, f):
    """covariant: the label of an antifermion is opposite to that of its fermion, and each fermion contributes i x label; canonical: same labels"""
    lines = []; plan = []; rng = random.Random("p29s:%d" % seed)
    for form in FORM:
        for i, d in enumerate(SPIN):
            fs = leaves(parse(d)); S = list(itertools.product(*[{0: [0], 1: [1, -1], 2: [1, 0, -1]}[T.p[x]["s2"]] for x in [parse(d)[0]] + fs]))
            for pol in S if deep else rng.sample(S, min(3, len(S))):
                fer = [T.p[x]["s2"] % 2 for x in [parse(d)[0]] + fs]; k = "%s%d:%s" % (form, i, ",".join(map(str, pol)))
                con = [-v if q and form == "Covariant" else v for v, q in zip(pol, fer)]; sg = 1
                if form == "Covariant":
                    for v, q in zip(pol, fer): sg *= 1j * v if q else 1
                o = ["Particle::SpinFormalism " + form, "Particle::SpinBasis Dirac"]; lines += [(k + "s", o, "same", list(pol), d, fs), (k + "c", o, "conj", con, d, fs)]; plan.append((form, d, fs, pol, k, sg))
    N, R, crash = amps.fetch(lines)
    if crash: rep.violate("CP of amplitudes", "amplitudes and their CP conjugates can be built", why=str(crash)[:300]); return
    for form, d, fs, pol, k, sg in plan:
        G = "%s %s (%s)" % (d, pol, form); nm = "amplitude of the conjugate decay at the parity-transformed point = CP() x amplitude, spin states included"; a, b = R[k + "s"], R[k + "c"]
        if "ids" not in a or "ids" not in b: rep.violate(G, "the conjugate decay can be built", why=str((a, b))[:300]); continue
        s = float(R[k + "s#cp"]["num"]) * sg.real; rep.ob(G, "the decay and its conjugate have the same CP sign", R[k + "s#cp"]["num"] == R[k + "c#cp"]["num"], "concrete", input=d)
        if form == "Covariant":
            u, = amps.values(N, [a["ids"][0]], amps.Ren(seed, f(0))); v, = amps.values(N, [b["ids"][0]], amps.Ren(seed, f(1))); D = uf.UF(seed)
            if u is not None and v is not None and u != (0, 0) and v == D.mul(D.const(s), u): rep.ob(G, nm, True, "congruence + F_p-identity"); continue
        bad = []; n = 0
        for t in range(3):
            env = amps.at_rest(amps.kinematics(t, [T.p[x]["mass"] for x in fs]), len(fs)); x, = amps.values(N, [a["ids"][0]], amps.flt(env, t, f(0))); y, = amps.values(N, [b["ids"][0]], amps.flt(env, t, f(1)))
            if x is None or y is None or abs(x) < 1e-9: continue
            n += 1
            if not abs(y - s * x) <= 1e-5 * max(abs(x), abs(y)): bad.append(dict(input=dict(decay=d, spins=pol, momenta=env), got=str(y), want="%g * %s" % (s, x)))
        rep.bound(G, nm, n, "%d phase-space points in the rest frame" % n, bad[:2])
def couplings(rep, deep, seed, T, anti):
    rng = random.Random("p29:%d" % seed); L = []; plan = []; pool = CASES; N = 300 if deep else 80
    cps = dict(zip(pool, [None if pt.bad(a) else (a[3], a[1]["dd"]) for a in pt.ask([["conj", d] for d in pool])]))
    for k in range(N):
        polar = rng.choice(["cartesian", "polar"]); L += [["opt", "CouplingConstant::Coordinates " + polar], ["mps"]]; pars = []; want = {}
        forbid = re.split(r"[\[{]", rng.choice(pool))[0] if rng.random() < .3 else "nothing"; L.insert(-1, ["opt", "AddCPConjugate::Forbid other " + forbid])
        for d in rng.sample(pool, 4):
            if cps[d] is None: continue
            pre = rng.choice(["", "", "x_"]); re_, im = rng.uniform(-2, 2), rng.uniform(-2, 2); s, c = cps[d]
            pars += [(pre + d + "_Re", re_), (pre + d + "_Im", im)]
            if re.split(r"[\[{]", d)[0] == forbid: continue
            want[pre + c + "_Re"] = s * re_; want[pre + c + "_Im"] = im if polar == "polar" else s * im
        for n in rng.sample(["K*(892)+_mass", "K*(892)+_width", "rho(770)0_mass", "unrelated", "some_thing", "a_b_c", "D0_radius", "foo_Re", "K(1)(1270)+::Spline::Re::0"], 4):
            v = rng.uniform(.1, 3); pars.append((n, v)); h, sep, t = (n.partition("::") if "::" in n else n.rpartition("_"))
            if h in anti and n.count("_") < 2: want[anti[h] + sep + t] = v
        if rng.random() < .3 and set(want) - {x for x, _ in pars}:      # a conjugate coupling that is already there is left alone
            n = rng.choice(sorted(set(want) - {x for x, _ in pars})); pars.append((n, 7.5)); want[n] = 7.5
        # parameters that are conjugates of each other keep their own values
        for n, v in pars: want[n] = v
        # conjugates of an explicitly given conjugate coupling
        for n, v in pars: L.append(["par", n, repr(v)])
        plan.append((len(L), pars + [("Forbid", forbid)], polar, want)); L.append(["cp"])
    A = pt.ask(L); bad = []
    for i, pars, polar, want in plan:
        a = A[i]
        if pt.bad(a): bad.append(dict(input=pars, got=a)); continue
        got = {n: v for n, v in a}; names = [n for n, _ in a]
        if len(names) != len(set(names)): bad.append(dict(input=pars, got="a parameter appears twice: %s" % sorted(names)))
        for n, v in want.items():
            if n not in got or abs(got[n] - v) > 1e-12: bad.append(dict(input=dict(parameters=pars, coordinates=polar), got="%s = %s" % (n, got.get(n)), want=v))
        extra = set(got) - set(want)
        if extra: bad.append(dict(input=dict(parameters=pars, coordinates=polar), got="unexpected parameters %s" % sorted(extra)))
    rep.bound("CP conjugate couplings", "every coupling and shape parameter gets its CP conjugate: conjugate name, value times CP sign, nothing else", len(plan), "random parameter sets, cartesian and polar", bad[:3])
