"""P23: events and event types: layout, invariant masses, permutations, conjugation, identical particles."""
import build, sym, oblig, uf, random, os, tempfile, itertools, importlib
LEVEL = "proof"
# name: (antiparticle, spin dimension, pdg id)
PART = {"D0": ("Dbar0", 1, 421), "Dbar0": ("D0", 1, -421), "K*(892)bar0": ("K*(892)0", 3, -313), "K+": ("K-", 1, 321), "K-": ("K+", 1, -321), "pi+": ("pi-", 1, 211), "pi-": ("pi+", 1, -211), "pi0": ("pi0", 1, 111), "gamma0": ("gamma0", 2, 22), "mu+": ("mu-", 2, -13), "mu-": ("mu+", 2, 13), "e-": ("e+", 2, 11), "e+": ("e-", 2, -11),
        "K*(892)0": ("K*(892)bar0", 3, 313), "B+": ("B-", 1, 521), "B-": ("B+", 1, -521), "Lambda(c)+": ("Lambda(c)bar-", 2, 4122), "p+": ("pbar-", 2, 2212), "J/psi0": ("J/psi0", 3, 443), "eta0": ("eta0", 1, 221), "D+": ("D-", 1, 411), "rho(770)0": ("rho(770)0", 3, 113)}
TYPES = [["D0", "K-", "pi+"], ["B+", "D0", "Dbar0", "D0"], ["B+", "K*(892)0", "K*(892)bar0", "pi+"], ["B+", "D0", "pi0", "pi0", "pi0"], ["D0", "K+", "K-", "pi0"], ["D0", "K-", "pi+", "pi+", "pi-"], ["D+", "K-", "pi+", "pi+"], ["B+", "K+", "pi+", "pi-", "gamma0"], ["B+", "J/psi0", "K+"], ["B-", "mu+", "mu-", "K-"], ["Lambda(c)+", "p+", "K-", "pi+"],
         ["B+", "K+", "pi+", "pi+", "pi-", "pi-", "pi0"], ["J/psi0", "e+", "e-"], ["D0", "pi0", "pi0", "pi0", "pi0"], ["B+", "pi0", "pi+", "pi0", "pi0", "pi0", "pi0", "pi0"], ["B+", "pi+", "pi+", "pi+", "pi-"], ["D0", "pi0", "pi0", "eta0"], ["B+", "K*(892)0", "rho(770)0", "pi+"], ["B+", "K+", "pi+", "pi-", "K-", "pi0", "gamma0", "pi-", "eta0", "gamma0", "pi+", "pi0", "pi+"]]
def masses():
    r = {}
    for s in importlib.import_module("checks.p18" if 0 else "p18").rows(): r.setdefault(s[16] + s[13], float(s[0]) * 1e-3)
    for a, b in (("Dbar0", "D0"), ("K*(892)bar0", "K*(892)0")): r[a] = r[b]
    return r
def ask(lines):
    fd, p = tempfile.mkstemp(prefix="evt", dir=build.BUILD); os.close(fd)
    try:
        with open(p, "w") as f:
            for l in lines: f.write("\t".join(map(str, l)) + "\n")
        os.environ["H_SCRIPT"] = p; d = oblig.run_harness(build.harness("evt"), ["script"], timeout=300)
        if not d["recs"] or "json" not in d["recs"][0]: raise build.BuildError("event harness gave no answer: " + str(d.get("crash"))[:800])
        return d["recs"][0]["json"]
    finally: os.remove(p)
def pickle(n, alt):
    for a, b in (("+", "p" if alt else "~"), ("-", "m" if alt else "#"), ("(", ""), (")", "")): n = n.replace(a, b)
    return n
def layout(t, td, ext, out, alt=False):
    n = len(t) - 1; f = {}
    for i in range(n):
        st = str(i)
        if out:
            k = pickle(t[i + 1], alt)
            if alt: st = k + (str(t[1:i + 1].count(t[i + 1])) if t[1:].count(t[i + 1]) > 1 else "")
            else: st = "_%d_%s" % (i + 1, k)
        for j, c in enumerate(("Px", "Py", "Pz", "E")): f[st + "_" + c] = 4 * i + j
    if td: f[t[0] + "_decayTime"] = 4 * n
    for e in ext: f[e] = len(f)
    return f
def labels(n): return [100 * (i // 4) + i % 4 + 1 for i in range(4 * n + 1)]
def s_of(v, ix): p = [sum(v[4 * i + k] for i in ix) for k in range(4)]; return p[3] ** 2 - p[0] ** 2 - p[1] ** 2 - p[2] ** 2
def run(rep, deep, seed):
    rng = random.Random("p23:%d" % seed); M = masses(); anti = lambda n: PART[n][0]
    full = {}
    for k, (a, d, i) in PART.items(): full[k] = i; full.setdefault(a, -i if a != k else i)
    dim = lambda n: next(d for k, (a, d, _) in PART.items() if n in (k, a))
    # ---- event types
    jobs = []; exp = []
    for td4, t in enumerate(TYPES):
        for td, ext in ((0, []), (1, []), (1, ["tag", "wrong"]), (0, ["x"]), (td4 % 2, ["z", "y", "a", "tag", "b"])):
            others = [rng.choice(TYPES), t, [t[0]] + t[1:][::-1], t[:-1] + ["K-"]]
            probe = t[1:] + ["K-", "gamma0", "pi"]
            jobs.append(("type", " ".join(t), td, " ".join(ext) or "-", " ".join(probe)) + tuple(" ".join(o) for o in others))
            exp.append((t, td, ext, probe, others))
    R = ask(jobs); bad = []
    for (t, td, ext, probe, others), r in zip(exp, R):
        if not isinstance(r, dict): bad.append(dict(input=dict(type=t), got=r)); continue
        n = len(t) - 1; dm = 1
        for x in t[1:]: dm *= dim(x)
        mm = lambda x: M[x] if x in M else M[anti(x)]
        W = dict(names=t, mother=t[0], size=n, esize=4 * n + td, td=td, dim=[dim(t[0]), dm], fmt=layout(t, td, ext, False), out=layout(t, td, ext, True), count=[[t[1:i + 1].count(t[i + 1]), t[1:].count(t[i + 1])] for i in range(n)],
                 dd=t[0] + "{" + ",".join(t[1:]) + "}", cs=" ".join(t), conj=[anti(x) for x in t] if all(x in PART for x in t) else None, conjtd=td, cc=1, pydim=(dim(t[0]) << 16) + dm, has=[int(x in t[1:]) for x in probe], eq=[int(o == t) for o in others])
        W["conjh"] = [anti(t[0])] + t[1:]; W["conjd"] = [t[0]] + [anti(x) for x in t[1:]]
        if n > 2: W["dof"] = 3 * n - 7
        for k, w in W.items():
            if r.get(k) != w: bad.append(dict(input=dict(type=t, time_dependent=td, extra=ext, what=k), got=r.get(k), want=w))
        for k, w in dict(M=mm(t[0]), masses=[mm(x) for x in t[1:]], mass=[mm(x) for x in t[1:]]).items():
            g = r[k]; g, w = (g, w) if isinstance(g, list) else ([g], [w])
            if len(g) != len(w) or any(abs(a - b) > 1e-12 for a, b in zip(g, w)): bad.append(dict(input=dict(type=t, what=k), got=g, want=w))
        for m in range(2 ** n):
            ix = [i for i in range(n) if m >> i & 1]; lo = sum(r["masses"][i] for i in ix); hi = r["M"] - sum(r["masses"][i] for i in range(n) if i not in ix)
            if abs(r["minmax"][m][0] - lo) > 1e-12 or abs(r["minmax"][m][1] - hi) > 1e-12: bad.append(dict(input=dict(type=t, what="range of the mass of " + str(ix)), got=r["minmax"][m], want=[lo, hi]))
    rep.bound("EventType", "names, masses, layout, dimension, conjugate, counts, limits of invariant masses, equality", len(jobs), "%d event types x 5 variants" % len(TYPES), bad[:4])
    # alternative names of the branches, and momenta without energy
    R = ask([("opt", "EventType::AlternativeParticleNames 1")] + [("type", " ".join(t), 0, "-", "K-") for t in TYPES])[1:]
    bad = [dict(input=dict(type=t, what="alternative branch names"), got=r["out"] if isinstance(r, dict) else r, want=layout(t, 0, [], True, True)) for t, r in zip(TYPES, R) if not isinstance(r, dict) or r["out"] != layout(t, 0, [], True, True)]
    R = ask([("opt", "EventType::IncludeEnergy 0")] + [("type", " ".join(t), 0, "-", "K-") for t in TYPES])[1:]
    for t, r in zip(TYPES, R):
        w = {"%d_%s" % (i, c): 3 * i + j for i in range(len(t) - 1) for j, c in enumerate(("Px", "Py", "Pz"))}
        if not isinstance(r, dict) or r["fmt"] != w: bad.append(dict(input=dict(type=t, what="layout without energies"), got=r["fmt"] if isinstance(r, dict) else r, want=w))
    rep.bound("EventType", "optional layouts", 2 * len(TYPES), "all types", bad[:3])
    # ---- exchange of identical particles
    bad = []; nn = 0
    reps = 4000 if deep else 1200
    calls = lambda t, reps=reps: 40000 if sorted(t[1:].count(x) for x in set(t[1:]))[-1] in (3, 4) and len(t) < 7 else reps
    R = ask([("sym", " ".join(t), calls(t)) for t in TYPES]); reps_ = reps
    for t, r in zip(TYPES, R):
        n = len(t) - 1; L = labels(n); groups = {}; reps = calls(t)
        for i, x in enumerate(t[1:]): groups.setdefault(x, []).append(i)
        allowed = set()
        for ps in itertools.product(*[itertools.permutations(g) for g in groups.values()]):
            m = {}
            for g, p in zip(groups.values(), ps): m.update(zip(g, p))
            allowed.add(tuple(L[4 * m[i] + k] for i in range(n) for k in range(4)) + (L[4 * n],))
        if not isinstance(r, list): bad.append(dict(input=t, got=r)); continue
        seen = {}
        for (d, w, g, ix), c in r:
            nn += c; seen[tuple(d)] = c
            if tuple(d) not in allowed or w != .5 or g != 1: bad.append(dict(input=dict(type=t, event=L), got=d, want="a permutation of identical particles"))
        for g in groups.values():
            for i in g:
                for j in g:
                    c = sum(v for k, v in seen.items() if k[4 * i] == L[4 * j]); q = 1. / len(g)
                    if abs(c - reps * q) > 6 * (reps * q * (1 - q)) ** .5 + 1: bad.append(dict(input=dict(type=t, calls=reps, slot=i, particle=j), got=c, want="about %g" % (reps * q)))
        e = reps / len(allowed)
        if len(allowed) <= 40 and any(abs(seen.get(a, 0) - e) > 6 * e ** .5 + 1 for a in allowed): bad.append(dict(input=dict(type=t, calls=reps), got={str(k): v for k, v in list(seen.items())[:6]}, want="about %g of each of the %d arrangements" % (e, len(allowed))))
    rep.bound("EventType::symmetriser", "only identical particles change places, whole momenta move together, every arrangement is equally likely", nn, "%d calls per type, 40000 for three or four identical particles" % reps_, bad[:3])
    # ---- ordering by particle numbers
    jobs = []; exp = []
    for t in TYPES:
        ids = [full[x] for x in t[1:]]; conj = [full[anti(x)] for x in t[1:]]; n = len(ids)
        for src in (ids, conj):
            for _ in range(12 if deep else 5):
                p = list(range(n)); rng.shuffle(p); jobs.append(("order", " ".join(t), " ".join(str(src[i]) for i in p))); exp.append((t, [src[i] for i in p], (ids, conj)))
        for wrong in ([ids[0]] * n, [ids[0]] + [ids[0]] + ids[2:], ids[:-1] + [2112], [ids[-1]] * 2 + ids[2:], ids[:-1] + [-ids[-1]], ids + [ids[0]], conj + [conj[-1]], ids + [22], ids[:-1]):
            if sorted(wrong) not in (sorted(ids), sorted(conj)): jobs.append(("order", " ".join(t), " ".join(map(str, wrong)))); exp.append((t, wrong, None))
    R = ask(jobs); bad = []
    for (t, act, src), r in zip(exp, R):
        n = len(t) - 1; L = labels(n); inp = dict(type=t, particle_numbers=act)
        if not isinstance(r, list): bad.append(dict(input=inp, got=r, want="an answer")); continue
        ok, (d, w, g, ix) = r
        if src is None:
            if ok or d != L: bad.append(dict(input=inp, got=[ok, d], want="rejected, event unchanged"))
            continue
        # slot i must hold a particle whose number is src[i]; each particle exactly once
        pos = [int(d[4 * i] // 100) for i in range(n)]
        if not ok or sorted(pos) != list(range(n)) or any(d[4 * i:4 * i + 4] != L[4 * pos[i]:4 * pos[i] + 4] for i in range(n)) or [act[q] for q in pos] != src[sorted(act) != sorted(src[0])] or d[4 * n:] != L[4 * n:]: bad.append(dict(input=inp, got=[ok, d], want="every particle in the slot of its kind"))
    rep.bound("EventType::automaticOrdering", "particles are moved to the slots of their kind, or the event is rejected and left alone", len(jobs), "generated orders of %d types and their conjugates" % len(TYPES), bad[:4])
    # ---- Event, as built
    jobs = []; vs = []
    for np_ in (2, 3, 4, 5, 6):
        for x in (0, 1):
            v = [round(rng.uniform(-2, 2), 6) for _ in range(4 * np_ + x)]; vs.append(v); jobs.append(("ev", len(v), " ".join(map(str, v))))
    R = ask(jobs); bad = []
    for v, r in zip(vs, R):
        if not isinstance(r, dict): bad.append(dict(input=v, got=r)); continue
        n = len(v) // 4; close = lambda a, b: len(a) == len(b) and all(abs(x - y) < 1e-9 for x, y in zip(a, b))
        C = dict(s1=[s_of(v, [i]) for i in range(n)], s2=[s_of(v, [i, j]) for i in range(n) for j in range(n)], s3=[s_of(v, [i, j, k]) for i in range(n) for j in range(n) for k in range(n)], sv=[s_of(v, [i for i in range(n) if m >> i & 1]) for m in range(1, 2 ** n)])
        for k, w in C.items():
            if not close(r[k], w): bad.append(dict(input=dict(event=v, what=k), got=r[k][:6], want=w[:6]))
        sw = v[4 * n - 4:4 * n] + v[4:4 * n - 4] + v[:4] + v[4 * n:]; ro = v[4 * n - 4:4 * n] + v[:4 * n - 4] + v[4 * n:]; st = v[:4] + [1, 2, 3, 4] + v[8:]; sv = [5, 6, 7, 8] + st[4:]; s1 = sv[:2] + [9.5] + sv[3:]
        for k, w in dict(swap=sw, swap2=v, swap0=v, reorder=ro, copy=v, set=st, setv=sv, set1=s1, ext=s1 + [2.5], ptr=v).items():
            if r[k][0] != w: bad.append(dict(input=dict(event=v, what=k), got=r[k][0], want=w))
        if r["ext"][1:] != [3, 4, 7] or r["wp"] != [3, 4] or r["size"] != len(v) or r["ad"] != v[5] or r["cv"] != v[2] or r["copy"][1:] != [1, 1, 0]: bad.append(dict(input=dict(event=v, what="weight, genPdf, index, addresses"), got=[r["ext"], r["wp"], r["size"], r["ad"], r["cv"]]))
    rep.bound("Event", "invariant masses, exchange, reordering, assignment", len(jobs), "executed on generated events", bad[:4])
    # ---- Event, for all momenta
    try: exe = sym.harness("event")
    except build.BuildError as ex: rep.notes.append("src/Event.cpp no longer compiles over the symbolic scalar; decided by execution only"); return
    for n in (2, 3, 4, 5, 6) if deep else (2, 4, 5):
        try: T = sym.run(exe, "s", n); U = sym.run(exe, "move", n)
        except sym.Crash as e: rep.violate("Event", "runs on symbolic momenta", found=False, why=str(e)); continue
        v = [sym.fvar(seed, "p%d" % i) for i in range(4 * n + 1)]; P = sym.P; groups = {}
        for k in T.out:
            kind, a = k.split("_", 1); ix = [int(x) for x in a.split("_")] if kind == "s" else [i for i in range(n) if int(a) >> i & 1]
            ok = T.fp(T.ids(k), seed=seed)[0] == s_of(v, ix) % P; groups.setdefault((kind, len(ix)), []).append((k, ok))
        for (kind, m), l in sorted(groups.items()):
            f = [k for k, ok in l if not ok]
            rep.ob("Event::s", "%d particles, %s form, %d indices: (sum E)^2 - |sum p|^2 for all momenta" % (n, dict(s="index", v="vector", r="reversed vector")[kind], m), not f, "F_p-identity", why="differs for " + ",".join(f[:4]), found=False)
        groups = {}
        for k in U.out:
            got = U.fp(U.ids(k), seed=seed); a = k.split("_"); q = [sym.fvar(seed, "q%d" % i) for i in range(4)]; w = list(v)
            if a[0] == "swap": i, j = int(a[1]), int(a[2]); w[4 * i:4 * i + 4], w[4 * j:4 * j + 4] = v[4 * j:4 * j + 4], v[4 * i:4 * i + 4]
            elif a[0] == "reorder":
                for i, x in enumerate(a[1:]): w[4 * int(x):4 * int(x) + 4] = v[4 * i:4 * i + 4]
            elif a[0] in ("setp", "setv"): w[4 * int(a[1]):4 * int(a[1]) + 4] = q
            elif a[0] == "set1": w[int(a[1])] = q[0]
            elif a[0] == "ext": w.append(q[1])
            groups.setdefault(a[0], []).append((k, got == w))
        for g, l in sorted(groups.items()):
            f = [k for k, ok in l if not ok]; rep.ob("Event::" + g, "%d particles: every slot afterwards, for all contents (%d cases)" % (n, len(l)), not f, "F_p-identity", why="differs for " + ",".join(f[:4]), found=False)
    rep.functions += ["Event::s", "Event::swap", "Event::reorder", "Event::set", "Event::extendEvent", "EventType::EventType", "EventType::getEventFormat", "EventType::conj", "EventType::minmax", "EventType::symmetriser", "EventType::automaticOrdering", "EventType::count"]
    rep.assumptions += ["machine arithmetic treated as exact real arithmetic in the symbolic part"]; rep.trusted += ["g++", "symbolic scalar harness/sym/sym.h", "F_p evaluation"]
    # a symbolic failure whose concrete counterpart also failed is already reported with an input
    if any(x.get("found") and x["group"] == "Event" for x in rep.violations): rep.violations = [x for x in rep.violations if x.get("found")]
