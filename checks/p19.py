"""P19: allowed spin-orbit configurations follow from angular momentum and parity conservation."""
import pt, decays, random, itertools
from decays import show, ls_pairs
LEVEL = "exploration"
def run(rep, deep, seed):
    R = range(0, 13 if deep else 11); L = []; nm = {}; G = "two-body selection rules"
    for s in R:
        for P in "+-":
            n = "Q%d%s" % (s, "p" if P == "+" else "m"); nm[s, P] = n
            L.append(["add", n, "spin", "%d/2" % s if s % 2 else str(s // 2), "parity", P, "mass", "2", "width", "0.1", "charge", "0"])
    K = []
    for a, b, c in itertools.product(R, R, R):
        for pa, pb, pc in itertools.product("+-", repeat=3): K.append((a, b, c, pa, pb, pc)); L.append(["L", "%s{%s,%s}" % (nm[a, pa], nm[b, pb], nm[c, pc])])
    A = pt.ask(L)[len(nm):]; n = {"set": 0, "range": 0, "empty": 0}; bad = []
    sg = {"+": 1, "-": -1}
    for (a, b, c, pa, pb, pc), r in zip(K, A):
        inp = "J^P = %d/2%s -> %d/2%s + %d/2%s" % (a, pa, b, pb, c, pc)
        if pt.bad(r): bad.append(dict(obligation="selection rules", input=inp, got=r)); continue
        for i in (0, 1):
            want = ls_pairs(a, b, c, sg[pa] * sg[pb] * sg[pc] if i else None); got = sorted((int(x[0]), int(round(2 * x[1]))) for x in r[i][2])
            what = "parity conserved" if i else "parity not conserved"
            if got == want: n["set"] += 1
            else: bad.append(dict(obligation="the (L,S) pairs are exactly those allowed by angular momentum and parity", input=inp + ", " + what, got=got, want=want))
            if want:
                rng = [want[0][0], want[-1][0]]
                if r[i][:2] == rng: n["range"] += 1
                else: bad.append(dict(obligation="the range of L runs from the smallest to the largest allowed", input=inp + ", " + what, got=r[i][:2], want=rng))
            else:
                if r[i][0] > 100: n["empty"] += 1
                else: bad.append(dict(obligation="no orbital angular momentum is offered when none is allowed", input=inp + ", " + what, got=r[i][:2]))
    ex = "exhaustive (all spins up to %d/2, all parities)" % R[-1]
    rep.ob_many(G, "the (L,S) pairs are exactly those allowed by angular momentum and parity", n["set"], ex); rep.ob_many(G, "the range of L runs from the smallest to the largest allowed", n["range"], ex); rep.ob_many(G, "no orbital angular momentum is offered when none is allowed", n["empty"], ex)
    for b in bad[:6]: rep.violate(G, b.pop("obligation"), why="real code on a concrete decay", **b)
    # decays of tabulated particles: default orbital, strong or weak
    T0, names = pt.table(); T = decays.Table(T0); rng = random.Random("p19:%d" % seed); pool = [x for x in decays.POOL if x in T.p]; alln = [x for x in T.p if T.p[x]["s2"] in decays.GOODSPIN]
    trees = []; N = 12000 if deep else 4000
    # decays that conserve flavour are rare among random ones: draw them by construction as well
    byq = {}
    for x in alln:
        for q in T.p[x]["q"]: byq.setdefault(tuple(q), []).append(x)
    while len(trees) < N:
        if rng.random() < .4: t = (rng.choice(alln), [], [(rng.choice(alln), [], []), (rng.choice(alln), [], [])])
        else:
            b, c = rng.choice(alln), rng.choice(alln); q = rng.choice(sorted(decays.qsum({tuple(x) for x in T.p[b]["q"]}, {tuple(x) for x in T.p[c]["q"]})) or [None])
            if q not in byq: continue
            t = (rng.choice(byq[q]), [], [(b, [], []), (c, [], [])])
        if rng.random() < .1: t = (rng.choice([x for x in alln if "NonRes" in x]), [], t[2])
        trees.append(t)
    A = pt.ask([["L", show(t)] for t in trees]); bad = []; strong = 0
    for t, r in zip(trees, A):
        if pt.bad(r): bad.append(dict(input=show(t), got=r)); continue
        want = T.minL(t); strong += T.strong(t)
        for i in (0, 1):
            w = T.pairs(t, bool(i)); g = sorted((int(x[0]), int(round(2 * x[1]))) for x in r[i][2])
            if g != w: bad.append(dict(input=show(t) + " parity %sconserved" % ("" if i else "not "), got=g, want=w))
        if r[2] != want: bad.append(dict(input=show(t), got="default L = %s" % r[2], want="L = %d (%s decay)" % (want, "strong" if T.strong(t) else "weak")))
    rep.bound("decays of tabulated particles", "default orbital angular momentum is the smallest allowed; parity is required exactly of flavour-conserving decays", len(trees), "%d random two-body decays, %d flavour conserving" % (len(trees), strong), bad[:4])
    if strong < len(trees) // 10: rep.violate("decays of tabulated particles", "the sample contains flavour-conserving decays", found=False, why="only %d" % strong)
    rep.functions += ["Particle::orbitalRange", "Particle::spinOrbitCouplings", "Particle::conservesParity", "Particle::pdgLookup", "Particle::quarks", "Particle::daughterQuarks", "QuarkContent::operator==", "ParticlePropertiesList::addParticle"]
    rep.explored(2 * len(K) + len(trees), len(K) + len({show(t) for t in trees}), "all spin-parity triples (exhaustive) and random decays of tabulated particles, distinct by text", [show(t) for t in trees[:4]])
