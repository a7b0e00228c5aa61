"""P36: event lists: what goes in comes out, for the scalar and the vectorised list, through trees, transformations and projections."""
import build, oblig, random, os, tempfile, importlib, math
LEVEL = "exploration"
def ask(lines):
    exe = build.rharness("evl"); fd, p = tempfile.mkstemp(prefix="evl", dir=build.BUILD); os.close(fd)
    try:
        with open(p, "w") as f:
            for l in lines: f.write("\t".join(map(str, l)) + "\n")
        r = oblig.run_harness(exe, ["script"], timeout=600, env=dict(H_SCRIPT=p))
        if not r["recs"] or "json" not in r["recs"][0]: raise build.BuildError("event list harness gave no answer: " + str(r.get("crash"))[:800])
        J = {q["out"]: q["json"] for q in r["recs"] if "json" in q}; return [J.get("r%d" % i) for i in range(len(lines))]
    finally: os.remove(p)
TYPES = [(["D0", "K-", "pi+"], 0), (["D0", "K+", "K-", "pi0"], 0), (["D+", "K-", "pi+", "pi+"], 1), (["B+", "K+", "pi+", "pi-", "gamma0"], 0), (["D0", "K-", "pi+", "pi+", "pi-"], 1)]
def ev(k, nf, idx): return [[1000. * k + f + 0.25 for f in range(nf)], 0.5 + k, 2. + k, idx]
def seq(ks, nf, w=None, g=None):
    r = []
    for i, k in enumerate(ks):
        e = ev(k, nf, i)
        if w is not None: e[1] = w
        if g is not None: e[2] = g
        r.append(e)
    return r
def lanes(es):
    """(weight, genPdf) per lane; the lanes beyond the last event carry no weight and a density that can be divided by"""
    r = []
    for b in range((len(es) + 3) // 4): r.append([(es[4 * b + k][1], es[4 * b + k][2]) if 4 * b + k < len(es) else None for k in range(4)])
    return r
def lanes_ok(got, es):
    W = lanes(es)
    if len(got) != len(W): return False
    for g, w in zip(got, W):
        for (a, b), x in zip(g, w):
            if x is not None and (a, b) != x: return False
            if x is None and (a != 0 or not (b > 0)): return False
    return True
def noidx(l): return [e[:3] for e in l]
def hist(vals, nb, lo, hi):
    c = [0.] * (nb + 2)
    for x, w in vals: c[0 if x < lo else nb + 1 if x >= hi else 1 + int((x - lo) / (hi - lo) * nb)] += w
    return c
def close(a, b): return len(a) == len(b) and all(abs(x - y) <= 1e-11 * (1 + abs(y)) for x, y in zip(a, b))
def run(rep, deep, seed):
    rng = random.Random("p36:%d" % seed); p18 = importlib.import_module("p18"); M = {}; ID = {}
    for s in p18.rows(): M.setdefault(s[16] + s[13], float(s[0]) * 1e-3); ID.setdefault(s[16] + s[13], int(s[12]) if s[12].lstrip("-").isdigit() else None)
    for a, b in (("K-", "K+"), ("pi-", "pi+")): M.setdefault(a, M.get(b))
    NS = list(range(1, 10)) + [12, 16, 17] + ([11, 15, 31, 32, 33, 64, 65] if deep else [])
    jobs = []; exp = []
    def job(kind, line, **kw): jobs.append(line); exp.append((kind, line, kw))
    for t, td in TYPES:
        nf = 4 * (len(t) - 1) + td
        for n in NS:
            for c in ("list", "simd", "proj"): job(c, (c, " ".join(t), td, n), n=n, nf=nf)
            el = [rng.randrange(n) for _ in range(rng.choice((1, 2, 3, 5, 7)))]
            job("tree", ("tree", " ".join(t), td, n, "-"), n=n, nf=nf, el=None, t=t, td=td, x=0)
            job("tree", ("tree", " ".join(t), td, n, ",".join(map(str, el))), n=n, nf=nf, el=el, t=t, td=td, x=0)
            job("tree", ("tree", " ".join(t), td, n, ",".join(map(str, el)) if n % 2 else "-", "x"), n=n, nf=nf, el=el if n % 2 else None, t=t, td=td, x=1)
    IDS = {"K-": -321, "K+": 321, "pi+": 211, "pi-": -211, "pi0": 111, "gamma0": 22}
    for t, td in TYPES + [(["D0", "K-", "pi+", "pi+", "pi-"], 0), (["B0", "pi0", "pi0", "pi0", "K+", "K-"], 0)]:
        nf = 4 * (len(t) - 1) + td
        if td: continue
        for n in (1, 3, 5, 16):
            perm = list(range(len(t) - 1)); rng.shuffle(perm); sgn = rng.choice((1, -1))
            ids = [IDS[t[1 + q]] for q in perm]
            if sorted(IDS[x] for x in t[1:]) == sorted(IDS[x] if IDS[x] in (111, 22) else -IDS[x] for x in t[1:]): sgn = 1   # a self-conjugate final state: the numbers mean what they say
            if sgn < 0: ids = [i if i in (111, 22) else -i for i in ids]
            job("branches", ("branches", " ".join(t), td, n, "-", ",".join(map(str, ids))), n=n, nf=nf, t=t, perm=perm)
    for kind, sz in (("cs", 4), ("ca", 4), ("rs", 1), ("ra", 1)):
        for n in NS: job("store", ("store", kind, n, "f:2", "g:1", "f:2", "h:3"), n=n, sz=sz, al=kind[1])
    R = ask(jobs); bad = {}; cnt = {}
    for (kind, line, kw), r in zip(exp, R):
        n = kw["n"]; nf = kw.get("nf"); W = {}; F = {}
        def want(k, v): W[k] = v
        E = [ev(k, nf, k) for k in range(n)] if nf else None
        if kind == "list":
            both = list(range(n)) + [50, 51, 52]; keep = [k for k in both if int(0.5 + k) % 3 == 0]; rest = [k for k in both if k not in keep]; er = [0] + list(range(n - 1, n)) + [50, 51, 52] if n > 2 else both
            want("a", E); want("b", E); want("c", E); want("int", float(sum(e[1] for e in E))); want("w", [[e[1], e[2]] for e in E]); want("add", seq(both, nf)); want("count", len(keep)); want("clear", 0)
            F["filter"] = noidx(seq(rest, nf)); F["erase"] = noidx(seq(er, nf)); tr = noidx(seq(er, nf, w=9.)); 
            for e in tr: e[0] = [-e[0][0]] + e[0][1:]
            F["tr"] = tr; st = seq(both, nf); st[n - 1][1] = 3.25; st[n - 1][2] = 1.75; st[0][2] = 8.5; F["set"] = noidx(st)
        elif kind == "simd":
            al = 4 * ((n + 3) // 4); want("size", n); want("al", al); want("nb", al // 4); want("nf", nf)
            for k in ("a", "b", "c", "nc"): want(k, E)
            tr = [[[x if i != 1 else -x for i, x in enumerate(e[0])], e[1] + 0.125, 2 * e[2], e[3]] for e in E]; want("tr", tr)
            want("cl", [0, 0, n]); want("me", [[x] * 4 for x in E[0][0]])
        elif kind == "tree":
            x = kw["x"]; ks = kw["el"] if kw["el"] is not None else list(range(n)); xn = nf + x
            want("n", n); want("title", " ".join(kw["t"])); want("back", seq(ks, xn)); want("bsz", xn); want("key", nf if x else 0); want("plain", seq(ks, nf, 1., 1.)); want("auto", seq(range(n), nf, w=1.)); want("autot", kw["t"][0] + "{" + ",".join(kw["t"][1:]) + "}"); want("td", kw["td"]); want("two", seq(list(range(n)) * 2, nf, w=1.))
            if not x: want("sback", seq(ks, nf)); want("splain", seq(ks, nf, 1., 1.)); want("sauto", seq(range(n), nf, w=1.)); want("stwo", seq(list(range(n)) * 2, nf, w=1.)); want("sw", seq(range(n), nf)); want("st", " ".join(kw["t"]))
        elif kind == "store":
            sz = kw["sz"]; nb = (n + sz - 1) // sz; want("size", n); want("nb", nb); want("nf", 6); want("raw", 6 * nb); want("al", sz * nb); want("idx", {"f": [0, 1], "g": [2], "h": [3, 4, 5]}); want("same", 1); want("pos", [b * 6 + k if kw["al"] == "a" else k * nb + b for b in range(nb) for k in range(6)])
            nb2 = (n + 5 + sz - 1) // sz; want("nb2", nb2); want("raw2", 6 * nb2); want("sz2", n + 5); want("nf2", 6); want("raw3", 3 * nb); want("nf3", 3)
        why = []
        if not isinstance(r, dict) or "crash" in r or "exception" in r: why.append(("the call", "an answer", r))
        else:
            for k, v in W.items():
                cnt[kind] = cnt.get(kind, 0) + 1
                if r.get(k) != v: why.append((k, v, r.get(k)))
            for k, v in F.items():
                cnt[kind] = cnt.get(kind, 0) + 1
                if noidx(r.get(k) or []) != v: why.append((k, v, r.get(k)))
            if kind == "simd":
                if not lanes_ok(r["lanes"], E): why.append(("lanes", lanes(E), r["lanes"]))
                if not lanes_ok(r["trl"], tr): why.append(("lanes after a transformation", lanes(tr), r["trl"]))
                if r["set"] and r["set"][0] != [[1., 5.], [2., 6.], [3., 7.], [4., 8.]]: why.append(("set", "lanes as set", r["set"][0]))
                for i, e in enumerate(E):
                    if [r["blk"][i // 4][f][i % 4] for f in range(nf)] != e[0]: why.append(("block", e[0], r["blk"][i // 4]))
            if kind == "tree" and not kw["x"]:
                if not lanes_ok(r["sl"], seq(ks, nf)): why.append(("lanes", lanes(seq(ks, nf)), r["sl"]))
                if not lanes_ok(r["stl"], seq(list(range(n)) * 2, nf, w=1.)): why.append(("lanes of two files", lanes(seq(list(range(n)) * 2, nf, w=1.)), r["stl"]))
            if kind == "branches":
                t = kw["t"]; m = [M[x] for x in t[1:]]; A = []; V = []; I = []
                for i in range(n):
                    P = [[1000. * (i + 1) + 100 * p + 10 * k for k in range(3)] for p in range(len(t) - 1)]
                    en = lambda p, q: p + [math.sqrt(m[q] ** 2 + sum(c * c for c in p))]
                    A.append([sum((en(p, q) for q, p in enumerate(P)), []), 0.5 + i, 1.]); V.append([sum((en([c * 1e-3 for c in p], q) for q, p in enumerate(P)), []), 1., 1.])
                    # the list orders the momenta as the type does; identical particles keep the order they came in
                    act = [(t[1 + q], P[j]) for j, q in enumerate(kw["perm"])]; out = []
                    for q, x in enumerate(t[1:]): out.append([a for a in act if a[0] == x][t[1:][:q].count(x)][1])
                    I.append([sum((en(p, q) for q, p in enumerate(out)), []), 1., 1.])
                X = [[a[0] + [0.5 + i]] + a[1:] for i, a in enumerate(V)]; K = [[sum((en([c * 1e-3 for c in e[0][4 * q:4 * q + 3]], q) for q in range(len(m))), []), 1., 1.] for e in I]
                # symmetrised: the momenta of identical particles in any order, each on its mass shell, and not always the order they came in
                for k, v in (("sy", [[a[0], 1., 1.] for a in A]), ("sid", K)):
                    cnt[kind] = cnt.get(kind, 0) + 1; moved = 0; ok = len(r[k]) == n
                    for g, w in zip(r[k], v):
                        gp = [g[0][4 * q:4 * q + 4] for q in range(len(m))]; wp = [w[0][4 * q:4 * q + 4] for q in range(len(m))]
                        ok = ok and g[1:3] == [1., 1.] and all(close(sum(sorted(gp[q] for q in range(len(m)) if t[1 + q] == x), []), sum(sorted(wp[q] for q in range(len(m)) if t[1 + q] == x), [])) for x in set(t[1:]))
                        moved += not close(g[0], w[0])
                    if not ok or (n >= 16 and len(set(t[1:])) < len(t) - 1 and not moved): why.append((k, v, r[k]))
                for k, v in (("a", A), ("mev", V), ("id", I), ("ex", X)):
                    cnt[kind] = cnt.get(kind, 0) + 1
                    if len(r[k]) != n or not all(close(g[0], w[0]) and g[1:3] == w[1:] for g, w in zip(r[k], v)): why.append((k, v, r[k]))
            if kind == "proj":
                es = [(int(0.5 + k) * 0.1 + 0.05, 0.5 + k, 2. + k, 1000. * k + 1.25, int(0.5 + k) % 2 == 0) for k in range(n)]; H = lambda v: hist(v, 8, 0., 0.8)
                w0 = H([(x, w) for x, w, g, f, s in es]); w1 = H([(x, w * f / g) for x, w, g, f, s in es]); w2 = H([(x, w) for x, w, g, f, s in es if s]); w3 = H([(x, w * f / g) for x, w, g, f, s in es if s])
                for k, v in (("p", w0), ("pw", w1), ("ps", w2), ("psw", w3), ("pi", w0), ("piw", w1), ("pis", w2), ("vp", w0), ("vpw", w1), ("vps", w2), ("vpsw", w3)):
                    cnt[kind] = cnt.get(kind, 0) + 1
                    if not close(r[k], v): why.append((k, v, r[k]))
                yv = lambda k: 1 + int(0.5 + k) % 3   # bin of the second projection
                def H2(on, wt, q=None):
                    c = [0.] * 60
                    for k, (x, w, g, f, s_) in enumerate(es):
                        if on and not s_: continue
                        b = 0 if x < 0 else 9 if x >= .8 else 1 + int(x / .8 * 8); c[b + 10 * yv(k)] += w * f / g if wt else w
                    return c
                for pre in ("q", "qi", "vq", "vqi"):
                    for sfx, on, wt in (("", 0, 0), ("w", 0, 1), ("s", 1, 0), ("sw", 1, 1)):
                        cnt[kind] += 1
                        if not close(r[pre + sfx], H2(on, wt)): why.append((pre + sfx, H2(on, wt), r[pre + sfx]))
                for on, nrm, sfx in ((0, 1., ""), (0, None, "r"), (1, 3.5, "s")):
                    hs = [H([(x, w * c(w, f) / g) for x, w, g, f, s_ in es if s_ or not on]) for c in (lambda w, f: f, lambda w, f: w / 4, lambda w, f: 2.)]
                    hs.sort(key=lambda h: sum(h[1:-1])); tot = sum(sum(h[1:-1]) for h in hs)
                    if nrm and tot: hs = [[z * nrm / tot for z in h] for h in hs]
                    for pre in ("kf", "vkf"):
                        cnt[kind] += 1; g = r[pre + sfx]
                        if r[pre + sfx + "n"] != 3 or len(g) != 3 or not all(any(close(x, y) for y in g) for x in hs) or [sum(x[1:-1]) for x in g] != sorted(sum(x[1:-1]) for x in g): why.append((pre + sfx, hs, g))
                ov = [int(0.5 + k) * .2 - .45 for k in range(n)]; O1 = hist([(x, e[1]) for x, e in zip(ov, es)], 6, -.5, .7); O2 = hist([(x, e[1]) for x, e in zip(ov, es)], 6, -.5, 1.9); OW = hist([(x, e[1] * e[3] / e[2]) for x, e in zip(ov, es)], 6, -.5, 1.9)
                for k, v in (("o", O1), ("vo", O1), ("o2", O2)):
                    if not close(r[k], v): why.append((k, v, r[k]))
                if r["of"] != list(range(min(n, 6))) or r["og"] != [k // 2 for k in range(min(n, 12))]: why.append(("binFunctor", list(range(min(n, 6))), [r["of"], r["og"]]))
                if not (close(r["mp"][0], w0) and close(r["mp"][1], O2) and close(r["vmp"][0], w1) and close(r["vmp"][1], OW)): why.append(("makeProjections", [w0, O2, w1, OW], [r["mp"], r["vmp"]]))
                if r["bf"] != [int(0.5 + k) for k in range(n)]: why.append(("bf", list(range(n)), r["bf"]))
        for k, w, g in why: bad.setdefault((kind, k), []).append(dict(input=list(line), what=k, expected=w, got=g))
    NAMES = {"list": "EventList.contents", "simd": "EventListSIMD.contents", "tree": "trees.round_trip", "branches": "trees.chosen_branches", "proj": "projections", "store": "Store.layout"}
    rep.explored(sum(cnt.values()), len(jobs), "every list size x event type x operation compared with the specification", [list(map(str, j)) for j in jobs[:3]])
    for kind, nm in NAMES.items():
        b = [x for (kk, _), v in sorted(bad.items()) if kk == kind for x in v[:1]]
        rep.bound(nm, WHAT[kind], cnt.get(kind, 0), "lists of %s events of %d types; contents are distinct labels, which the code only moves" % (NS, len(TYPES)), b[:4])
    rep.functions += ["EventList::add", "EventList::push_back", "EventList::integral", "EventList::loadFromTree", "EventList::tree", "EventList::makeProjection", "EventListSIMD::EventListSIMD", "EventListSIMD::scatter", "EventListSIMD::gather", "EventListSIMD::operator[]", "EventListSIMD::loadFromTree", "EventListSIMD::tree", "Projection::projInternal", "Store::Store", "Store::addFunctor", "Store::resize", "scatter_iterator", "utils::gather", "TreeReader::getEntry"]
    rep.trusted += ["g++", "rootmini: trees as columns of values, files as maps of objects, histograms as bins"]
WHAT = {"list": "every event with its values, weight and density, in order, through every access; adding, filtering, erasing, transforming", "simd": "the same events as the scalar list; lanes beyond the last event carry no weight", "tree": "writing and reading back, entry lists, several files, deduced type", "branches": "chosen branches, units, particle numbers, energies from masses",
        "proj": "sum of weights per bin, with selection and weight function", "store": "fields and blocks never overlap, size follows the number of entries"}
