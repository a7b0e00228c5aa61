"""P32: an amplitude is the product of the lineshapes and spin couplings of its vertices, in both formalisms."""
import amps, uf, pt, decays, lsamp, itertools, math, random
from decays import parse, show, leaves
from p29 import CASES as SPINLESS
from p20 import mod
LEVEL = "proof"
SPIN = ["B0{J/psi0{mu+,mu-},K*(892)0{K+,pi-}}", "B0[P]{J/psi0{mu+,mu-},K*(892)0{K+,pi-}}", "B0[D]{J/psi0{mu+,mu-},K*(892)0{K+,pi-}}", "J/psi0{rho(770)0{pi+,pi-},pi0}", "Lambda(c)+{p+,K*(892)bar0{K-,pi+}}", "Lambda(c)+[P]{p+,K*(892)bar0{K-,pi+}}",
 "Lambda(c)+{Delta(1232)++{p+,pi+},K-}", "Lambda(b)0{Lambda(1520)0{p+,K-},J/psi0{mu+,mu-}}", "Lambda(c)+{Lambda(1405)0{Sigma+{p+,pi0},pi-},pi+}", "Lambda(c)+{Lambda0{p+,pi-},a(1)(1260)+{rho(770)0{pi+,pi-},pi+}}", "D0{omega(782)0,rho(770)0{pi+,pi-}}",
 "D0[D]{omega(782)0,rho(770)0{pi+,pi-}}", "B0{a(1)(1260)+{omega(782)0,pi+},pi-}", "J/psi0{p+,pbar-}", "J/psi0{Delta(1232)++{p+,pi+},Delta(1232)bar--{pbar-,pi-}}", "D0{K(1)(1270)bar-{omega(782)0,K-},pi+}", "psi(2S)0{J/psi0{mu+,mu-},f(0)(980)0{pi+,pi-}}"]
# a number after the orbital letter selects (twice) the total spin of the daughters
SPIN += ["Lambda(b)0[P1]{Lambda(1520)0{p+,K-},J/psi0{mu+,mu-}}", "Lambda(b)0[P3]{Lambda(1520)0{p+,K-},J/psi0{mu+,mu-}}", "Lambda(b)0[D5]{Lambda(1520)0{p+,K-},J/psi0{mu+,mu-}}", "J/psi0[P2]{p+,pbar-}",
 "Lambda(b)0{Lambda(1520)0{Lambda(1520)0{p+,K-}},J/psi0{J/psi0{mu+,mu-}}}", "B0{J/psi0{J/psi0{mu+,mu-}},K*(892)0{K*(892)0{K+,pi-}}}",
 "Lambda(b)0[S1]{p+,K*(892)bar-{K-,pi0}}", "Lambda(b)0[D3]{p+,K*(892)bar-{K-,pi0}}"]
# heads with spin 0, 1/2, 1 whose couplings exist in the covariant formalism
COVSPIN = ["B0{J/psi0{mu+,mu-},K*(892)0{K+,pi-}}", "B0[P]{J/psi0{mu+,mu-},K*(892)0{K+,pi-}}", "B0[D]{J/psi0{mu+,mu-},K*(892)0{K+,pi-}}", "J/psi0{rho(770)0{pi+,pi-},pi0}", "Lambda(c)+{Delta(1232)++{p+,pi+},K-}", "D0{omega(782)0,rho(770)0{pi+,pi-}}",
 "B0{a(1)(1260)+{omega(782)0,pi+},pi-}", "Lambda(c)+{Lambda(1405)0{Sigma+{p+,pi0},pi-},pi+}", "B0{J/psi0{J/psi0{mu+,mu-}},pi0}", "Lambda(c)+{p+,K*(892)bar0{K-,pi+}}"]
# direct three-body decays, quasi-particles with a single daughter, decays without spin dynamics
OTHER = ["D0{omega(782)0{pi+,pi-,pi0},pi0}", "D0{eta0{pi+,pi-,pi0},pi0}", "D0{K-,pi+,pi0}", "D0[BW]{K-,pi+,pi0}", "D0{K(0)*(1430)bar0{K-,pi+,pi0},pi0}", "D0{omega(782)0[SBW]{pi+,pi-,pi0},rho(770)0{pi+,pi-}}", "D0[P]{omega(782)0{pi+,pi-,pi0},rho(770)0{pi+,pi-}}",
 "B0{D0{D0[SBW]{K-,pi+}},pi0}", "B0{D0{D0{K-,pi+}},pi0}", "D0{NonResV0{rho(770)0{pi+,pi-}},pi0}", "B0{K(0)*(1430)0{K(0)*(1430)0{K(0)*(1430)0{K+,pi-}}},pi0}"]
LSH = ["BW", "SBW", "FormFactor", "GounarisSakurai", "RBW", "ExpFF", "Flatte", "LASS"]
COV = ["Particle::SpinFormalism Covariant", "Particle::SpinBasis Dirac"]; CAN = ["Particle::SpinFormalism Canonical", "Particle::SpinBasis Dirac"]
def states(T, d):
    sp = lambda x: {0: [0], 1: [1, -1], 2: [1, 0, -1]}[T.p[x]["s2"]]
    t = parse(d); return list(itertools.product(*[sp(x) for x in [t[0]] + leaves(t)]))
def with_ls(d, k):
    """put lineshape modifiers on the decaying particles of d"""
    c = [k]
    def f(t, top):
        if not t[2]: return t
        m = list(t[1])
        if not top and len(t[2]) > 1: m.append(LSH[c[0] % len(LSH)]); c[0] += 1
        return (t[0], m, [f(x, False) for x in t[2]])
    return show(f(parse(d), True))
def run(rep, deep, seed):
    T = decays.Table(pt.table()[0]); lines = []; cov = []; can = []
    dl = [d for d in SPINLESS if d != "D0{K-,pi+}"]
    cl = dl + [with_ls(d, i + j * 3) for j in range(3 if deep else 1) for i, d in enumerate(dl)]
    for i, d in enumerate(cl): cov.append(("v%d" % i, d, []))
    for i, d in enumerate(OTHER + [mod(d, "BgSpin0") for d in dl[:12:2] + OTHER[:3]]): cov.append(("o%d" % i, d, []))
    for i, d in enumerate(COVSPIN):
        S = states(T, d)
        for p in S if deep or len(S) <= 6 else random.Random(seed).sample(S, 6): cov.append(("w%d:%s" % (i, "".join(map(str, p))), d, list(p)))
    for k, d, pol in cov: lines += [(k, COV, "same", pol, mod(d, "NoSym"), leaves(parse(d))), (k + "f", COV, "factor", pol, mod(d, "NoSym"), leaves(parse(d)))]
    known = [d for d in dl if all(n in T.p for n in names(parse(d)))]
    for i, d in enumerate(known + SPIN):
        S = states(T, d); S = S if deep or len(S) <= 6 else random.Random(seed).sample(S, 6); can.append((i, d, S)); fs = leaves(parse(d))
        for p in can[-1][2]: lines.append(("c%d:%s" % (i, ",".join(map(str, p))), CAN, "same", list(p), mod(d, "NoSym"), fs))
        lines.append(("cp%d" % i, CAN, "prop", [], mod(d, "NoSym"), fs))
        lines.append(("cv%d" % i, COV, "prop", [], mod(d, "NoSym"), fs))
    bg = [d for d in known[:8:2]]
    for i, d in enumerate(bg): fs = leaves(parse(d)); lines += [("bg%d" % i, CAN, "same", [], mod(mod(d, "NoSym"), "BgSpin0"), fs), ("bp%d" % i, CAN, "prop", [], mod(mod(d, "NoSym"), "BgSpin0"), fs)]
    N, R, crash = amps.fetch(lines)
    if crash: rep.violate("amplitudes", "the amplitudes can be built", why=str(crash)[:300])
    # covariant formalism: exact
    for k, d, pol in cov:
        G = d + (" %s" % pol if pol else ""); nm = "covariant amplitude = product of lineshapes x contraction of vertices"
        a, b = R.get(k), R.get(k + "f")
        if not a or not b or "ids" not in a or "ids" not in b: rep.violate(G, "the amplitude can be built", why=str((a, b))[:300], input=d); continue
        D = uf.UF(seed); x, y = amps.values(N, [a["ids"][0], b["ids"][0]], D)
        if x is not None and x == y: rep.ob(G, nm, True, "congruence + F_p-identity"); continue
        bad = []; n = 0
        for t in range(5):
            env = amps.at_rest(amps.kinematics(t, [T.p[q]["mass"] for q in leaves(parse(d))]), len(leaves(parse(d)))); x, y = amps.values(N, [a["ids"][0], b["ids"][0]], amps.flt(env, t))
            if x is None or y is None: continue
            n += 1
            if not abs(x - y) <= (2e-5 if y == 1 else 1e-6) * max(abs(x), abs(y)): bad.append(dict(input=dict(decay=d, momenta=env, polarisation=pol), got=str(x), want=str(y)))
        if n == 0: rep.violate(G, nm, why="no finite value at 5 phase-space points", input=d)
        else: rep.bound(G, nm, n, "%d phase-space points (no exact proof)" % n, bad[:2])
    for i, d in enumerate(bg):
        if all("ids" in R.get(k % i, {}) for k in ("bg%d", "bp%d")):
            x, y = amps.values(N, [R["bg%d" % i]["ids"][0], R["bp%d" % i]["ids"][0]], uf.UF(seed)); rep.ob(mod(d, "BgSpin0"), "canonical amplitude of a decay without spin dynamics = product of lineshapes", x == y and x is not None, "congruence + F_p-identity", input=mod(d, "BgSpin0"))
    # canonical formalism: against the LS-coupled amplitude in canonical rest frames
    npts = 6 if deep else 3
    for i, d, S in can:
        fs = leaves(parse(d)); nm = "canonical amplitude = lineshapes x LS-coupled spherical harmonics (up to a constant phase)"; bad = []; ph = None; n = 0; spinful = any(T.p[x]["s2"] % 2 for x in names(parse(d)))
        if any("ids" not in R.get(q % i, {}) for q in ("cp%d", "cv%d")): rep.violate(d, "the amplitude can be built", why=str(R.get("cp%d" % i))[:200], input=d); continue
        x, y = amps.values(N, [R["cp%d" % i]["ids"][0], R["cv%d" % i]["ids"][0]], uf.UF(seed))
        rep.ob(d, "the product of lineshapes does not depend on the spin formalism", x == y and x is not None, "congruence + F_p-identity", input=d)
        for pol in S:
            k = "c%d:%s" % (i, ",".join(map(str, pol)))
            if k not in R or "ids" not in R[k]: bad.append(dict(input=dict(decay=d, polarisation=pol), got=str(R.get(k)))); continue
            t = lsamp.label(parse(R[k + "#d"]["str"]), iter(map(int, R[k + "#i"]["str"].split())))
            for q in range(npts):
                env = amps.at_rest(amps.kinematics(q + 10 * seed, [T.p[x]["mass"] for x in fs]), len(fs)); p = dict(enumerate(amps.momenta(env, len(fs))))
                A, B = amps.values(N, [R[k]["ids"][0], R["cp%d" % i]["ids"][0]], amps.flt(env, q))
                if A is None or B is None or B == 0: continue
                w = lsamp.amp(T, t, p, dict(enumerate(pol[1:])))[pol[0] * (2 if T.p[t[0]]["s2"] == 2 else 1)]; A = A / B; n += 1
                if abs(w) < 1e-9:
                    if abs(A) > 1e-6: bad.append(dict(input=dict(decay=d, momenta=env, polarisation=pol), got=str(A), want="0"))
                    continue
                if ph is None: ph = lsamp.sign(T, t) if not spinful and T.p[t[0]]["s2"] == 0 else A / w; ph = ph / abs(ph) if abs(ph) else 1
                if not abs(A - ph * w) <= 1e-5 * abs(w): bad.append(dict(input=dict(decay=d, momenta=env, polarisation=pol), got=str(A), want=str(ph * w)))
        if n == 0: rep.violate(d, nm, why="no finite value", input=d)
        else: rep.bound(d + " (canonical)", nm, n, "%d phase-space points x %d spin states" % (npts, len(S)), bad[:2])
    rep.functions += ["Particle::getExpression", "Particle::propagator", "Particle::spinTensor", "Particle::P", "Particle::Q", "Particle::massSq", "Particle::orbitalString", "ParticleProperties::spinName", "helicityAmplitude", "calculate_recoupling_constants", "wickTransform", "wigner_D", "angCoordinates", "basisSpinor", "basisVector", "Lineshape::Factory::get", "Vertex::Factory::getSpinFactor"]
    rep.std_assumptions()
    rep.assumptions += ["decay topologies enumerated (%d spinless, %d with spin)" % (len(dl), len(SPIN)), "the individual lineshapes and vertices are the subject of P14 and P15 and are not re-derived here", "canonical formalism: bounded (numerical, head at rest, Dirac spin basis)"]
def names(t): return [t[0]] + [x for k in t[2] for x in names(k)]
