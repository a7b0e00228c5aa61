"""P31: predictions do not depend on the frame in which the event is described."""
import amps, uf, pt, decays, random, math
from decays import parse, leaves
from p29 import CASES as SPINLESS
from p32 import COVSPIN, SPIN, states, COV, CAN
from p20 import mod
LEVEL = "proof"
SEQ = [[("r", 0), ("r", 2)], [("r", 1)], [("b", 2)], [("r", 0), ("b", 0), ("r", 2), ("b", 1)]]
EXTRA = ["D0[P]{K(2)*(1430)bar0{K-,pi+},rho(770)0{pi+,pi-}}", "D+{f(2)(1270)0{pi+,pi-},pi+}", "B0{a(1)(1260)+[D]{rho(770)0{pi+,pi-},pi+},pi-}", "D0{K-,pi+,pi0}", "D0{omega(782)0{pi+,pi-,pi0},pi0}", "D0{pi(1300)+{rho(770)0{pi+,pi-},pi+},K-}"]
WEYL = "Particle::SpinBasis Weyl"; RAD = ["D0{omega(782)0{gamma0,pi0},rho(770)0{pi+,pi-}}", "B0{K*(892)0{K+,pi-},gamma0}"]
def run(rep, deep, seed):
    T = decays.Table(pt.table()[0]); mass = lambda x: T.p[x]["mass"]
    sl = [d for d in SPINLESS if d != "D0{K-,pi+}"] + EXTRA[:3] + EXTRA[4:]; lines = []
    for i, d in enumerate(sl):
        fs = leaves(parse(d))
        lines.append(("v%d" % i, COV, "same", [], d, fs))
        if i < len(SPINLESS) - 1: lines.append(("c%d" % i, CAN, "same", [], d, fs))
    sums = []
    for form, L in ((COV, COVSPIN[1:2] + COVSPIN[3:]), (CAN, [d for d in SPIN if d in COVSPIN or deep] + ["Lambda(c)+[P]{p+,K*(892)bar0{K-,pi+}}"]), ([COV[0], WEYL], RAD), ([CAN[0], WEYL], RAD)):
        for d in L:
            k = len(sums); S = [p for p in states(T, d) if all(s != 0 or x != "gamma0" for s, x in zip(p[1:], leaves(parse(d))))]; sums.append((d, form, S))
            for j, p in enumerate(S): lines.append(("s%d:%d" % (k, j), form, "same", list(p), d, leaves(parse(d))))
    N, R, crash = amps.fetch(lines)
    if crash: rep.violate("amplitudes", "the amplitudes can be built", why=str(crash)[:300])
    def numeric(G, nm, ids, fs, frames, n, total):
        """frames: functions of (rng, momenta)"""
        bad = []; m = 0
        for t in range(n):
            rng = random.Random("%d:%d" % (seed, t)); env = amps.event(t + 100 * seed, [mass(x) for x in fs], mass(G.split("{")[0].split("[")[0])); p0 = amps.momenta(env, len(fs))
            v0 = amps.values(N, ids, amps.flt(env, t))
            if None in v0 or total(v0) == 0: continue
            for f in frames:
                p1 = f(rng, p0); v1 = amps.values(N, ids, amps.flt(amps.env4(p1), t)); m += 1
                if None in v1: continue
                a, b = total(v0), total(v1)
                if not abs(a - b) <= 1e-6 * abs(a): bad.append(dict(input=dict(decay=G, momenta=env, transformed=amps.env4(p1)), got=str(b), want=str(a)))
        if m == 0: rep.violate(G, nm, why="no finite value at %d phase-space points" % n, input=G)
        else: rep.bound(G, nm, m, "%d events x %d frames" % (n, len(frames)), bad[:2])
    def rot(rng, p):
        for k in range(3):
            a = rng.uniform(-3, 3); p = [amps.rotv(v, k, a) for v in p]
        return p
    def boost(rng, p):
        b = [rng.uniform(-.4, .4) for _ in range(3)]; return [amps.boostv(v, b) for v in p]
    for i, d in enumerate(sl):
        fs = leaves(parse(d)); n = len(fs); a = R.get("v%d" % i)
        if not a or "ids" not in a: rep.violate(d, "the amplitude can be built", why=str(a)[:200], input=d); continue
        x, = amps.values(N, a["ids"], uf.UF(seed)); ok = x is not None
        for q in SEQ if ok else []:
            y, = amps.values(N, a["ids"], amps.Lorentz(seed, n, q)); ok = ok and y == x
        nm = "covariant amplitude is invariant under rotations and boosts"
        if ok: rep.ob_many(d, nm, len(SEQ), "congruence + F_p-identity (rational Lorentz transformations)")
        else: numeric(d, nm, a["ids"], fs, [rot, boost], 3, lambda v: v[0])
        c = R.get("c%d" % i)
        if c and "ids" in c: numeric(d + " (canonical)", "canonical amplitude is invariant under rotations of the rest frame", c["ids"], fs, [rot], 3, lambda v: v[0])
    for k, (d, form, S) in enumerate(sums):
        G = "%s (%s)" % (d, ", ".join(x.split()[1] for x in form)); r = [R.get("s%d:%d" % (k, j)) for j in range(len(S))]
        if any(not x or "ids" not in x for x in r): rep.violate(G, "the amplitude can be built", why=str(r)[:200], input=d); continue
        numeric(G, "rate summed over spin states is invariant", [x["ids"][0] for x in r], leaves(parse(d)), [rot, boost] if "Covariant" in form[0] and "gamma0" not in d else [rot], 2, lambda v: sum(abs(x) ** 2 for x in v))
    rep.functions += ["Particle::getExpression", "Particle::spinTensor", "Particle::propagator", "Particle::externalSpinTensor", "helicityAmplitude", "wickTransform", "every spin coupling used by the enumerated decays"]
    rep.std_assumptions()
    rep.assumptions += ["decay topologies enumerated (%d spinless, %d with spin)" % (len(sl), len(sums)), "the exact proofs cover the listed sequences of rotations and boosts with all (rational) angles and rapidities", "photons: only rotations are claimed (the couplings fix a gauge in the rest frame of the parent)", "the canonical formalism is defined with the parent at rest: rotations only, bounded (numerical)"]
