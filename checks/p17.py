"""P17: decay descriptors denote the decay tree they spell out."""
import pt, decays, random
from decays import parse, show, leaves
LEVEL = "exploration"
LS = ["BW", "RBW", "SBW", "GounarisSakurai", "FormFactor", "BL", "Flatte", "ExpFF", "BW.FixedWidth", "BW.L", "FormFactor.BL", "RBW.BL", "LASS", "kMatrix.pole.0", "kMatrix.prod.3", "Dabba", "Bugg", "SBW.L", "CoupledChannel", "GenericKmatrix"]
def canon(t, T, ls, thr):
    f, _ = T.facts(t, ls, thr); return (f, tuple(sorted(canon(k, T, ls, thr) for k in t[2])))
def seen(a):
    """the tree the code built, in the same form (modifiers read from the descriptor it prints)"""
    d = parse(a["dd"])
    def go(x, m):
        if x["n"] != m[0] or len(x["d"]) != len(m[2]): raise ValueError("descriptor %s does not spell out the tree: %s" % (a["dd"], x["n"]))
        fl = tuple(sorted(f for f in m[1] if f in ("BgSpin0", "Inco", "NoSym"))); kv = tuple(f for f in m[1] if "=" in f)
        return ((x["n"], x["L"], int(x["S"]), x["ls"], fl, kv), tuple(sorted(go(y, z) for y, z in zip(x["d"], m[2]))))
    return go(a, d)
def flat(x, out):
    if not x["d"]: out.append((x["n"], x["ix"], x["ox"]))
    for d in x["d"]: flat(d, out)
    return out
def strip(x, idx=True):
    r = {k: v for k, v in x.items() if k not in ("d",) and (idx or k not in ("ix", "ox"))}; r["d"] = [strip(d, idx) for d in x["d"]]; return r
EXACT, PARTIAL, NONE = "E", "P", "N"
def names_only(t): return (t[0], tuple(sorted(names_only(k) for k in t[2])))
def seen_names(x): return (x["n"], tuple(sorted(seen_names(d) for d in x["d"])))
def other(t, rng):
    """the same tree with another particle at one place"""
    if not t[2] or rng.random() < .3: return ("eta0" if t[0] != "eta0" else "pi0", t[1], t[2])
    i = rng.randrange(len(t[2])); return (t[0], t[1], [other(k, rng) if j == i else k for j, k in enumerate(t[2])])
def quasi(t, T, thr):
    """the tree with every intermediate state that is not long-lived replaced by its decay products"""
    k = []
    for d in t[2]:
        q = quasi(d, T, thr)
        if not q[2] or (T.p[d[0]]["width"] < thr and d[0] != "gamma0" and len(t[2]) != 1): k.append(q)
        else: k += q[2]
    return (t[0], [], k)
def shape(rep, trees, rng, T, deep):
    """functions that copy, reduce or compare trees"""
    sub = trees[:1500 if deep else 400] + trees[-40:]; L = []
    for t in sub: L += [["clone", show(t)] + leaves(t), ["qst", show(t)], ["match", show(t), show(t)], ["setd", show(t)], ["match", show(t), t[0]], ["match", show(t), show(other(t, rng))]]
    A = pt.ask(L); bad = {}; cnt = {}
    def chk(k, ok, inp, got, want=None):
        cnt[k] = cnt.get(k, 0) + 1; bad.setdefault(k, [])
        if not ok: bad[k].append(dict(input=inp, got=str(got)[:400], want=str(want)[:400]))
    for i, t in enumerate(sub):
        c, q, m, d, pm, om = A[6 * i:6 * i + 6]; s = show(t)
        ok = not pt.bad(c) and c[0] == c[1]
        chk("a clone is the same tree", ok, s, c)
        n = len(leaves(t)); chk("changing a clone leaves the original as it was", not pt.bad(c) and c[2] == c[0] and sorted(x[1] for x in flat(c[3], [])) == list(range(n + 5, 2 * n + 5)) and all(ix == n + 5 + ox for _, ix, ox in flat(c[3], [])), s, c)
        w = names_only(quasi(t, T, 1e-6)); chk("the quasi-stable tree keeps the long-lived states and the final state only", not pt.bad(q) and seen_names(q) == w, s, q if pt.bad(q) else seen_names(q), w)
        chk("a decay matches itself exactly", m == EXACT, s, m, EXACT)
        chk("a decay matches the same decay left unexpanded partially", pm == PARTIAL, s, pm, PARTIAL)
        chk("decays that differ in one particle do not match", isinstance(om, str) and "N" in om and "E" not in om, s, om, NONE)
        chk("replacing the daughters by the same daughters gives the same decay", not pt.bad(d) and seen_names(d[0]) == seen_names(d[1]) and len(d[1]["d"]) == len(t[2]), s, d)
    for k in cnt: rep.bound("copies and comparisons of decay trees", k, cnt[k], "random decay trees up to depth 5", bad[k][:3])
    rep.functions += ["Particle::clone", "Particle::quasiStableTree", "Particle::matches", "Particle::setDaughters", "Particle::addDaughter", "Particle::setOrdering", "Particle::getFinalStateParticles"]
def run(rep, deep, seed):
    T0, names = pt.table(); T = decays.Table(T0); rng = random.Random("p17:%d" % seed); n = 6000 if deep else 1500
    pool = [x for x in decays.POOL if x in T.p]; allnames = [x for x in T.p if T.p[x]["s2"] in decays.GOODSPIN]
    thr = 1e-3   # ParticlePropertiesList::QuasiStableThreshold (KeV option) is not changed: particles are called stable below 1 keV
    # which lineshape names the code knows, and the quasi-stable threshold, are read off single particles
    A = pt.ask([["tree", "rho(770)0[%s]{pi+,pi-}" % l] for l in LS]); ls = [l for l, a in zip(LS, A) if not pt.bad(a) and a["ls"] == l]
    if len(ls) < 5: raise Exception("lineshape probe failed")
    trees = []
    while len(trees) < n:
        t = decays.rand_tree(rng, T, rng.choice([1, 1, 1, 2, 2, 2, 3, 3, 3, 5]), pool if rng.random() < .7 else allnames, ls)
        if t[2]: trees.append(t)
    # many-body final states: nine to twelve particles
    pi = ["pi+", "pi-", "pi0", "K-", "K+", "p+", "mu+"]
    for k in range(40):
        a = [(rng.choice(pi), [], []) for _ in range(rng.randrange(9, 13))]; q = rng.randrange(2, 5); b = [("rho(770)0", [], [a[2 * i], a[2 * i + 1]]) for i in range(q)] + a[2 * q:]
        trees.append(("B0", [], [("D0", [], b[:4]), ("D+", [], b[4:7]), ("D-", [], b[7:])] if len(b) > 8 else [("D0", [], b[:3]), ("D+", [], b[3:])]))
    L = []; plan = []
    for t in trees:
        f = leaves(t); g = list(f); rng.shuffle(g)
        plan.append((t, g, len(L)))
        L.append(["tree", show(t)] + g); L.append(["rt", show(t)] + g)
        u = decays.shuffled(t, rng); plan[-1] += (u,); L.append(["tree", show(u)] + g)
        bad = list(g); w = rng.choice(["drop", "extra", "swap"])
        if w == "drop" and len(bad) > 1: bad.pop(rng.randrange(len(bad)))
        elif w == "extra": bad.insert(rng.randrange(len(bad) + 1), rng.choice(pool))
        else: bad[rng.randrange(len(bad))] = rng.choice(pool)
        plan[-1] += (bad,); L.append(["tree", show(t)] + bad)
        L.append(["evt", show(t)])
        # an unknown particle somewhere in the tree
        s = show(t); nm = rng.choice(f); L.append(["tree", s.replace(nm, "nosuchparticle", 1) if s.count(nm) == 1 else "nosuchparticle{%s,%s}" % (s, nm)])
    A = pt.ask(L); thr = None
    # quasi-stable threshold: largest width of a particle whose default lineshape is the form factor
    w = sorted((T.p[m]["width"], m) for m in allnames); P = pt.ask([["tree", m] for _, m in w])
    ff = [x for (x, m), a in zip(w, P) if not pt.bad(a) and a["ls"] == "FormFactor" and "NonRes" not in m]; bw = [x for (x, m), a in zip(w, P) if not pt.bad(a) and a["ls"] == "BW"]
    thr = (max(ff) + min(bw)) / 2 if ff and bw else 1e-3
    names_ = ["the tree has the spelled-out particles, orbital, spin number, lineshape and modifiers", "printing and re-parsing gives the same tree", "the printed descriptor does not depend on the order the decay products are written in",
              "every final-state particle gets its own slot of the event type, with its name", "a decay is accepted exactly when its final state is that of the event type", "the event type of the decay is its final state", "an unknown particle gives an invalid decay, not a crash"]
    bad = {k: [] for k in names_}; cnt = {k: 0 for k in names_}
    for t, g, i, u, wrong in plan:
        s = show(t); a, rt, sh, wr, ev, unk = A[i:i + 6]
        def chk(k, ok, got, want=None):
            cnt[k] += 1
            if not ok: bad[k].append(dict(input="Particle(%s, {%s})" % (s, ",".join(g)), got=str(got)[:400], want=str(want)[:400]))
        if pt.bad(a): chk(names_[0], False, a); continue
        try: ok = seen(a) == canon(t, T, ls, thr); got = seen(a)
        except (ValueError, AssertionError, IndexError) as e: ok = False; got = e
        chk(names_[0], ok, got, canon(t, T, ls, thr))
        chk(names_[1], not pt.bad(rt) and strip(rt[0], False) == strip(rt[1], False) and strip(rt[0]) == strip(a), rt)
        if not decays.ties(t, T): chk(names_[2], not pt.bad(sh) and sh["dd"] == a["dd"], sh if pt.bad(sh) else sh["dd"], a["dd"])
        fl = flat(a, []); ix = [x[1] for x in fl]
        chk(names_[3], sorted(ix) == list(range(len(g))) and all(g[k] == m and k == o for m, k, o in fl), fl, g)
        chk(names_[4], a["good"] == 1 and (not pt.bad(wr)) and (wr["good"] == 1) == (sorted(wrong) == sorted(g)), wr if pt.bad(wr) else "accepted=%s for final states %s" % (wr["good"], wrong), sorted(g))
        chk(names_[5], not pt.bad(ev) and ev[0] == t[0] and sorted(ev[1:]) == sorted(g), ev)
        chk(names_[6], not pt.bad(unk) and unk["good"] == 0, unk)
    for k in names_: rep.bound("decay descriptors", k, cnt[k], "random decay trees up to depth 5, 2 and 3 body", bad[k][:3])
    shape(rep, trees, rng, T, deep)
    # fixed corner cases
    C = [("valid", "D0{K-,pi+}", 1), ("valid", "D0", 0), ("valid", "D0{K-,pi+", 0), ("valid", "D0{K-,nosuch}", 0), ("valid", "D0{K*(892)bar0[P]{K-,pi+},pi0}_Re", 1), ("valid", "prefix_D0{K-,pi+}", 1), ("valid", "D0{K*(892)bar0{K-,pi+},rho(770)0[D;GounarisSakurai]{pi+,pi-}}", 1), ("valid", "D0{K-,pi+}}", 0)]
    R = pt.ask([c[:2] for c in C])
    for (c, d, w), r in zip(C, R): rep.ob("decay descriptors", "recognition of %s" % d, r == w, "concrete", why="wanted %s" % w, got=r, input=d)
    rep.functions += ["Particle::Particle(decayString, finalStates)", "Particle::parseModifier", "Particle::pdgLookup", "Particle::makeUniqueString", "Particle::modifierString", "Particle::sortDaughters", "Particle::operator<", "getItems", "Particle::isValidDecayDescriptor", "Particle::eventType"]
    rep.explored(sum(cnt.values()), len({show(t) for t in trees}), "random decay trees over the particle table with random modifiers; distinct by text; every tree has at least one decay", [show(t) for t in trees[:5]])
    rep.assumptions.append("bounded: contracts checked on generated descriptors, not proved for all strings (std::string code is outside the reach of the term prover)")
