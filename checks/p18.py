"""P18: antiparticles and charge conjugation."""
import pt, decays, random, re, os, build
from decays import show, leaves, parse
LEVEL = "exploration"
SIGN = {"+": 1, "-": -1, "++": 2, "--": -2, "0": 0, "": 0, "+2/3": None, "-1/3": None}
def rows():
    """the particle data files, read by the rules written in their header"""
    out = []
    for fn in ("mass_width.csv", "MintDalitzSpecialParticles.csv"):
        p = os.path.join(build.REPO, "options", fn)
        for l in open(p, errors="replace"):
            l = l.rstrip("\n")
            if not l or l[0] == "*": continue
            s = [x.strip() for x in l.split(",")]
            if len(s) != 18: continue
            out.append(s + [fn != "mass_width.csv"])
    return out
def spin2(s):
    if re.fullmatch(r"\d+", s): return 2 * int(s)
    m = re.fullmatch(r"(\d+)/2", s); return int(m.group(1)) if m else None
def flip(s): return s.translate(str.maketrans("+-", "-+"))
def expected():
    out = []
    for s in rows():
        A = s[11]; 
        try: pid = int(s[12])
        except ValueError: pid = 0
        q = SIGN.get(s[13]); sp = spin2(s[8]); sg = lambda c: {"+": 1, "-": -1}.get(c, 0)
        base = dict(err=[float(s[i]) * 1e-3 for i in (1, 2, 4, 5)], S=s[15][:1], I=s[6], R=s[14], base=s[16], mass=float(s[0]) * 1e-3, width=float(s[3]) * 1e-3, s2=sp, G=sg(s[7]), P=sg(s[9]), C=sg(s[10]), id=pid, charge=q, name=s[16] + s[13], anti=A != "", q=s[17], special=s[18])
        out.append(base)
        if A:
            a = dict(base); a["id"] = -pid; a["charge"] = None if q is None else -q; a["name"] = s[16] + ("bar" if A == "F" and pid != 0 else "") + flip(s[13])
            if sp is not None and sp % 2: a["P"] = -base["P"]
            a["of"] = len(out) - 1; out.append(a)
    return out
QC = {"u": 2, "d": -1, "s": -1, "c": 2, "b": -1, "t": 2}; QO = "dusctb"
def charge3(v, order): return sum(n * QC[f] for n, f in zip(v, order))
def run(rep, deep, seed):
    T, names = pt.table(); E = expected(); G = "particle table"
    rep.ob(G, "one entry per particle and per distinct antiparticle in the data files", len(T) == len(E), "exhaustive", got=len(T), want=len(E))
    from collections import Counter
    cn = Counter(e["name"] for e in E)
    uniq = [e for e in E if cn[e["name"]] == 1 and e["id"] != 0]
    L = [["get", e["name"]] for e in uniq] + [["getid", e["id"]] for e in uniq] + [["anti", e["name"]] for e in uniq]
    A = pt.ask(L); n = len(uniq); ok = Counter(); bad = {}
    def chk(k, c, e, got, want=""):
        if c: ok[k] += 1
        else: bad.setdefault(k, []).append(dict(input=e["name"], got=str(got)[:300], want=str(want)[:300]))
    TEX = {}
    for l in open(os.path.join(build.REPO, "options", "pdgID_to_latex.dat")):
        t = l.split()
        if len(t) >= 3 and re.fullmatch(r"-?\d+", t[0]): TEX[int(t[0])] = t[1:3]
    byname = {}; ex = {e["name"]: e for e in uniq}
    for e, a, b, c in zip(uniq, A[:n], A[n:2 * n], A[2 * n:]):
        if pt.bad(a) or a is None: chk("every particle is found by its name", False, e, a); continue
        byname[e["name"]] = a
        chk("every particle is found by its name", a["name"] == e["name"] and a["id"] == e["id"], e, a)
        chk("look-up by PDG id and by name agree", b == a, e, b, a)
        for k in ("mass", "width"): chk("mass and width are those of the data file (GeV)", abs(a[k] - e[k]) <= 1e-12 * max(1, abs(e[k])), e, a[k], e[k])
        for k, t in (("P", "parity"), ("C", "charge-conjugation parity"), ("G", "G parity")): chk("P, C, G are those of the data file (parity of an antifermion opposite)", a[k] == e[k], e, (t, a[k]), e[k])
        if e["s2"] is not None:
            chk("spin is that of the data file", a["s2"] == e["s2"], e, a["s2"], e["s2"])
            chk("printed spin", a["J"] == (str(e["s2"] // 2) if e["s2"] % 2 == 0 else "%d/2" % e["s2"]), e, a["J"])
            chk("fermion means half-integer spin, boson integer", (a["fermion"] == 1) == (e["s2"] % 2 == 1) and (a["boson"] == 1) == (e["s2"] % 2 == 0), e, (a["fermion"], a["boson"]))
        if e["charge"] is not None: chk("charge is that of the data file", a["charge"] == e["charge"], e, a["charge"], e["charge"])
        if a["width"] > 0: chk("lifetime is hbar over width", abs(a["life"] * a["width"] * 1e3 / 6.582119514e-13 - 1) < 1e-6, e, a["life"])
        if pt.bad(c) or c is None: chk("the antiparticle exists", False, e, c); continue
        q, r = c
        chk("conjugating twice gives the particle back", r == a, e, r, a)
        if e["anti"]:
            chk("the antiparticle has the same mass, width, spin, C, G and radius", all(q[k] == a[k] for k in ("mass", "width", "s2", "C", "G", "radius", "J", "I", "life")), e, q, a)
            chk("the antiparticle has opposite charge, PDG id and quark content", q["charge"] == -a["charge"] and q["id"] == -a["id"] and q["q"] == [[-x for x in s] for s in a["q"]], e, q, a)
            chk("intrinsic parity flips for fermions only", q["P"] == (-a["P"] if a["s2"] % 2 == 1 else a["P"]), e, q["P"], a["P"])
            w = [x for x in uniq if x["id"] == -e["id"]]
            if w: chk("the antiparticle has the name the table gives it", q["name"] == w[0]["name"], e, q["name"], w[0]["name"])
        else: chk("a particle without distinct antiparticle is its own antiparticle", q == a, e, q, a)
        chk("errors on mass and width are those of the data file (GeV)", all(abs(x - y) <= 1e-12 * max(1, abs(y)) for x, y in zip(a["err"], e["err"])), e, a["err"], e["err"])
        chk("isospin and status are those of the data file", a["I"] == e["I"] and a["S"] == e["S"], e, (a["I"], a["S"]), (e["I"], e["S"]))
        chk("photons, neutrinos and non-resonant states are those and no others", (a["photon"], a["nu"], a["nr"]) == (int(e["id"] == 22), int(abs(e["id"]) in (12, 14, 16)), int("NonRes" in e["base"])), e, (a["photon"], a["nu"], a["nr"]))
        if e["s2"] is not None and 0 <= e["s2"] < 8:
            w = "SfVrTeHc"[e["s2"]]; chk("the letter of the spin structure: S, V, T, H; f, r, e, c for particles and F, R, E, C for antiparticles", a["spin"] == (w.upper() if e["s2"] % 2 == 0 or e["id"] < 0 else w), e, a["spin"], w)
        if e["s2"] in (0, 1, 2, 4): chk("spin projections of external states: 2J+1, two for the photon", a["pol"] == ({0: [0], 1: [1, -1], 2: [1, 0, -1], 4: [2, 1, 0, -1, -2]}[e["s2"]] if e["id"] != 22 else [1, -1]), e, a["pol"])
        if abs(e["id"]) in TEX: chk("the label is that of the label file, particle or antiparticle", a["label"] == TEX[abs(e["id"])][e["id"] < 0], e, a["label"], TEX[abs(e["id"])][e["id"] < 0])
    # quark content against charge and against the PDG numbering scheme
    order = qorder(A[:n], uniq)
    for e in uniq:
        a = byname.get(e["name"])
        if a is None or not order: continue
        i = abs(e["id"]); s = str(i).zfill(7); d = [int(x) for x in s]
        if i < 100 or i >= 1000000 or e["special"] or e["name"].startswith(("pi(1)", "a(0)(980)")) or i in (130, 310, 5334): continue   # K0S, K0L; Omega(b)- carries the id of the spin-3/2 state in the data file
        real = [x for x in a["q"] if any(x)]
        if a["q"] and real and e["charge"] is not None: chk("charge is the sum of the quark charges", all(charge3(x, order) == 3 * e["charge"] for x in real), e, a["q"], e["charge"])
        if e["s2"] is not None and d[6] > 0: chk("spin agrees with the PDG numbering scheme", e["s2"] == a["s2"] and a["s2"] == d[6] - 1, e, a["s2"], d[6] - 1)
    for k, v in sorted(ok.items()): rep.ob_many(G, k, v, "exhaustive (whole particle table)")
    for k, v in bad.items():
        for b in v[:2]: rep.violate(G, k, why="real code on a concrete particle", **b)
    ordering(rep, deep, seed, uniq)
    overrides(rep, seed, uniq, byname)
    decays_(rep, deep, seed, T)
    rep.functions += ["ParticleProperties::anti", "ParticleProperties::antiThis", "ParticleProperties::name", "ParticleProperties::J", "ParticleProperties::isFermion", "ParticlePropertiesList::get", "ParticlePropertiesList::readFile", "QuarkContent::antiThis", "Particle::conj", "Particle::conjThis", "EventType::conj"]
    rep.assumptions += ["options/*.csv data are taken as given; entries without PDG id, or whose name is also that of another entry (b(1)(1235)0, a(1)(1260)0), are outside the property", "decay trees are generated, not proved for all trees"]
def ordering(rep, deep, seed, uniq):
    """particles are the same exactly when their numbers are; the comparisons are one total order"""
    rng = random.Random(seed); ids = [e for e in uniq]; pairs = [(rng.choice(ids), rng.choice(ids)) for _ in range(4000 if deep else 1200)] + [(e, e) for e in ids[::7]] + [(a, b) for a in ids[::40] for b in ids if b["id"] == -a["id"]]
    A = pt.ask([["cmp", a["name"], b["name"]] for a, b in pairs]); ok = 0
    for (a, b), r in zip(pairs, A):
        eq = int(a["id"] == b["id"]); lt = int(a["id"] < b["id"])
        if r != [eq, lt, int(not eq and not lt), int(eq or lt), int(not lt)]: rep.violate("particle table", "particles are equal exactly if their numbers are, and ordered by them", why="real code on a concrete pair", found=True, input=[a["name"], b["name"]], got=r); return
        ok += 1
    rep.ob_many("particle table", "particles are equal exactly if their numbers are, and ordered by them", ok, "executed pairs")
def overrides(rep, seed, uniq, byname):
    """properties and aliases given in options: what is given is taken, everything else stays"""
    rng = random.Random(seed + 5); sg = {"+": 1, "-": -1, "0": 0, "++": 2, "--": -2}; L = []; W = []
    def give():
        kv = {}
        for k in rng.sample(["mass", "width", "spin", "parity", "charge", "quarks"], rng.randint(1, 5)):
            kv[k] = {"mass": "%.4f" % rng.uniform(.1, 5), "width": "%.5f" % rng.uniform(0.001, 1), "spin": rng.choice(["0", "1", "2", "3", "1/2", "3/2", "5/2"]), "parity": rng.choice("+-"), "charge": rng.choice(["+", "-", "0", "++", "--"]), "quarks": rng.choice(["uD", "sU", "uud", "cS"])}[k]
        return kv
    cand = [e for e in uniq if e["name"] in byname and e["s2"] is not None and " " not in e["name"] and "#" not in e["name"]]
    for i, e in enumerate(rng.sample(cand, 40)):
        kv = give(); L.append(["optprops" if i % 2 else "props", e["name"]] + [x for p in kv.items() for x in p]); W.append((dict(byname[e["name"]]), kv, None))
    for i in range(20):
        kv = give(); n = "Xnew%d" % i; L.append(["optprops" if i % 2 else "props", n] + [x for p in kv.items() for x in p]); W.append((dict(name=n, mass=0, width=0, charge=0, P=0, s2=0), kv, None))
    used = {l[1] for l in L}
    for i, e in enumerate(rng.sample([c for c in cand if c["name"] not in used], 20)): L.append(["alias", e["name"], "Al%d" % i]); W.append((byname[e["name"]], None, "Al%d" % i))
    QS = ["uD", "sU", "uud", "cS"]; QV = dict(zip(QS, pt.ask([["q", x] for x in QS]))); A = pt.ask(L); ok = 0
    for l, (b, kv, al), a in zip(L, W, A):
        bad = None
        if pt.bad(a) or a is None: bad = "no answer: %s" % a
        elif al:
            x, o = a
            if o != b: bad = "the original changed: %s" % o
            elif x["name"] != al or any(x[k] != b[k] for k in ("mass", "width", "s2", "P", "C", "G", "charge", "q", "id", "radius")): bad = str(x)
        else:
            w = dict(b)
            for k, v in kv.items():
                if k in ("mass", "width"): w[k] = float(v)
                elif k == "spin": w["s2"] = spin2(v)
                elif k == "parity": w["P"] = sg[v]
                elif k == "charge": w["charge"] = sg[v]
            for k in ("name", "mass", "width", "charge", "P", "s2") + (("C", "G", "id", "radius", "I", "label") if "id" in b else ()):
                if (abs(a[k] - w[k]) > 1e-9 if k in ("mass", "width") else a[k] != w[k]): bad = "%s is %s, not %s" % (k, a[k], w[k])
            if "q" in b and "quarks" not in kv and a["q"] != b["q"]: bad = "quark content changed"
            if "quarks" in kv and a["q"] != QV[kv["quarks"]]: bad = "quark content %s is not %s" % (a["q"], kv["quarks"])
        if bad: rep.violate("options", "a property given for a particle is taken, and everything else stays; an alias is the same particle under another name", why="real code on a concrete line", found=True, input=" ".join(l[1:]), got=bad); return
        ok += 1
    rep.ob_many("options", "a property given for a particle is taken, and everything else stays; an alias is the same particle under another name", ok, "executed lines")
    rep.functions += ["ParticleProperties::setProperty", "ParticlePropertiesList::addParticle", "ParticlePropertiesList::makeAlias", "ParticleProperties::spinName", "ParticleProperties::polarisations", "ParticleProperties::operator=="]
def qorder(A, uniq):
    """flavour order of the quark vector, read off K+, D0, B+, pi+ (checked to be consistent)"""
    m = {e["name"]: a for e, a in zip(uniq, A) if not pt.bad(a) and a}
    idx = {}
    for f, n, rest in (("s", "phi(1020)0", None),): pass
    def pos(n, s):
        v = m[n]["q"][0]; return [i for i in range(6) if v[i] == s]
    try:
        u = set(pos("pi+", 1)) & set(pos("K+", 1)); d = set(pos("pi+", -1)); s_ = set(pos("K+", -1)); c = set(pos("D+", 1)); b = set(pos("B+", -1))
        if all(len(x) == 1 for x in (u, d, s_, c, b)):
            o = [None] * 6
            for x, f in ((u, "u"), (d, "d"), (s_, "s"), (c, "c"), (b, "b")): o[x.pop()] = f
            if o.count(None) == 1: o[o.index(None)] = "t"; return o
    except (KeyError, IndexError): pass
    return None
def decays_(rep, deep, seed, T0):
    T = decays.Table(T0); rng = random.Random("p18:%d" % seed); G = "conjugation of decays"; n = 4000 if deep else 1000
    ls = ["RBW", "SBW", "GounarisSakurai", "BL", "ExpFF", "BW.FixedWidth"]
    pool = [x for x in decays.POOL if x in T.p]; alln = [x for x in T.p if T.p[x]["s2"] in decays.GOODSPIN]
    anti = {x: (x if not T.p[x]["anti"] else T.ids[-T.p[x]["id"]]["name"] if -T.p[x]["id"] in T.ids else None) for x in T.p}
    trees = []
    while len(trees) < n:
        t = decays.rand_tree(rng, T, rng.choice([1, 2, 2, 3]), pool if rng.random() < .7 else alln, ls)
        if t[2] and all(anti[x] for x in allnames(t)) and not decays.ties(t, T): trees.append(t)
    L = []
    for t in trees:
        s = show(t); f = leaves(t)
        L += [["conj", s] + f, ["conjf", s], ["etconj", t[0]] + f, ["tree", show(conjt(t, anti))]]
    A = pt.ask(L)
    N = ["conjugating a decay conjugates every particle and keeps orbitals, spin numbers, lineshapes and modifiers", "conjugating a decay twice gives it back", "the conjugate decay is the one its conjugated descriptor spells out", "conjugation without the head keeps the head and conjugates the rest", "conjugate event types are the conjugated names, in the same order; twice is the identity", "charge and C, CP eigenvalues: opposite charge, same C and CP sign"]
    cnt = {k: 0 for k in N}; bad = {k: [] for k in N}
    def facts(x): return (x["n"], x["L"], x["S"], x["ls"], tuple(sorted(facts(d) for d in x["d"])))
    def cf(x): return (anti[x["n"]], x["L"], x["S"], x["ls"], tuple(sorted(cf(d) for d in x["d"])))
    def mods(t): return (tuple(sorted(m for m in t[1])), t[0], tuple(sorted(mods(k) for k in t[2])))
    def cmods(t): return (tuple(sorted(m for m in t[1])), anti[t[0]], tuple(sorted(cmods(k) for k in t[2])))
    for i, t in enumerate(trees):
        a, b, e, d = A[4 * i:4 * i + 4]; s = show(t)
        def chk(k, ok, got, want=""):
            cnt[k] += 1
            if not ok: bad[k].append(dict(input=s, got=str(got)[:400], want=str(want)[:400]))
        if pt.bad(a): chk(N[0], False, a); continue
        p, q, r, cp, cq, c, f = a
        chk(N[0], facts(q) == cf(p) and mods(parse(q["dd"])) == cmods(parse(p["dd"])), q["dd"], p["dd"])
        chk(N[1], facts(r) == facts(p) and r["dd"] == p["dd"], r["dd"], p["dd"])
        chk(N[2], not pt.bad(d) and d["dd"] == q["dd"], q["dd"], d if pt.bad(d) else d["dd"])
        if not pt.bad(b): chk(N[3], b[1]["n"] == t[0] and sorted(facts(x) for x in b[1]["d"]) == sorted(cf(x) for x in b[0]["d"]), b[1]["dd"], s)
        ff = leaves(t)
        chk(N[4], not pt.bad(e) and e[0] == [t[0]] + ff and e[1] == [anti[x] for x in [t[0]] + ff] and e[2] == e[0] and e[3] == [anti[t[0]]] + ff and e[4] == [t[0]] + [anti[x] for x in ff], e)
        if twobody(t): chk(N[5], cp == cq and cp in (1, -1) and c in (1, -1), (cp, cq, c))
    for k in N: rep.bound(G, k, cnt[k], "random decay trees up to depth 3", bad[k][:3])
    rep.explored(sum(cnt.values()), len({show(t) for t in trees}), "random decay trees, distinct by text; plus the whole particle table", [show(t) for t in trees[:4]])
def twobody(t): return len(t[2]) in (0, 2) and all(map(twobody, t[2]))
def allnames(t): return [t[0]] + [x for k in t[2] for x in allnames(k)]
def conjt(t, anti): return (anti[t[0]], t[1], [conjt(k, anti) for k in t[2]])
