"""P06: sums of amplitudes are normalised to their integral, on every path of access and after every history of changes."""
import build, oblig, random, os, tempfile, math, cmath, itertools, time
LEVEL = "exploration"
def ask(lines):
    exe = build.rharness("sums"); fd, p = tempfile.mkstemp(prefix="sums", dir=build.BUILD); os.close(fd)
    try:
        with open(p, "w") as f:
            for l in lines: f.write("\t".join(map(str, l)) + "\n")
        r = oblig.run_harness(exe, ["script"], timeout=700, env=dict(H_SCRIPT=p))
        if not r["recs"] or "json" not in r["recs"][0]: raise build.BuildError("harness of sums gave no answer: " + str(r.get("crash"))[:800])
        J = {q["out"]: q["json"] for q in r["recs"] if "json" in q}; return [J.get("r%d" % i) for i in range(len(lines))]
    finally: os.remove(p)
D3 = "D0 K- pi+ pi0"
AMP = ["D0{K*(892)bar0{K-,pi+},pi0}", "D0{rho(770)+{pi+,pi0},K-}", "D0{K*(892)bar-{K-,pi0},pi+}", "D0{rho(1450)+{pi+,pi0},K-}", "D0{K(0)*(1430)bar0{K-,pi+},pi0}", "D0{K(0)*(1430)bar-{K-,pi0},pi+}",
       "D0{K(2)*(1430)bar0{K-,pi+},pi0}", "D0{K*(1410)bar0{K-,pi+},pi0}", "D0{rho(1700)+{pi+,pi0},K-}", "D0{K*(1680)bar0{K-,pi+},pi0}"]
RES = [a.split("{")[1] for a in AMP]
# ---- the oracle: mirrors only the injected amplitudes and the definition of the densities
def event(k, seed, nf): return [((k * 37 + f * 11 + seed * 7 + k * f) % 64) / 32 - 1 for f in range(nf)], .5 + ((k * 5 + seed) % 7) / 8, .75 + ((k * 3 + seed) % 5) / 8
def A(I, c, x, m):
    X = lambda f: x[f % len(x)]
    return complex(.5 + .125 * I + m * X(I + c) + X(I + 2 * c + 1) * X(3 * I + c) * .5, .25 * (c + 1) - m * X(2 * I + c + 1) + X(I + c + 2) * .75)
def rho(dim, p):
    """density matrix in the basis of rising and lowering states, trace = dim"""
    if dim == 2: return [[1 + p["Pz"], p["Px"] + 1j * p["Py"]], [p["Px"] - 1j * p["Py"], 1 - p["Pz"]]]
    if dim == 3:
        px, py, pz, Tyy, Tzz, Txy, Txz, Tyz = [p[k] for k in ("Px", "Py", "Pz", "Tyy", "Tzz", "Txy", "Txz", "Tyz")]
        v = math.sqrt(1.125) * (px + 1j * py); t = math.sqrt(3) * (Txz + 1j * Tyz); T = -math.sqrt(1.5) * (Tzz + 2 * Tyy - 2j * Txy)
        return [[1 + 1.5 * pz + math.sqrt(1.5) * Tzz, v + t, T], [(v + t).conjugate(), 1 - math.sqrt(6) * Tzz, v - t], [T.conjugate(), (v - t).conjugate(), 1 - 1.5 * pz + math.sqrt(1.5) * Tzz]]
    return [[1.0 * (i == j) for j in range(dim)] for i in range(dim)]
class Model:
    def __init__(s, kind, par, info, names, prefix="", dims=(1, 1)):
        s.kind, s.par, s.nf, s.slot, s.me, s.names, s.prefix, s.dims = kind, par, info["nf"], info["slot"], info["me"], names, prefix, dims
    def g(s, i, par):
        z = 1
        for n in s.names[s.me[i]]: re, im = par[n + "_Re"], par[n + "_Im"]; z *= cmath.rect(re, im) if s.polar else complex(re, im)
        return z
    polar = False
    def amps(s, x, par):
        nc = s.dims[0] * s.dims[1]
        return [[A(i, c, x, par[s.mass[i]] if s.slot[i] >= 0 else 1) for c in range(nc)] for i in range(len(s.me))]
    def bil(s, a, b, par):
        """sesquilinear form whose diagonal is the density"""
        if s.kind != "pol": return a[0] * b[0].conjugate()
        R = rho(s.dims[0], par); d1, d2 = s.dims; t = 0
        for m1 in range(d1):
            for m2 in range(d1):
                for f in range(d2): t += R[m1][m2] * a[m1 * d2 + f] * b[m2 * d2 + f].conjugate() * (1 if "polFrac" not in par else par["polFrac"] if f == 0 else 1 - par["polFrac"])
        return t
    def dens(s, x, par):
        a = s.amps(x, par); g = [s.g(i, par) for i in range(len(a))]
        if s.kind == "inc": return sum(abs(gi * ai[0]) ** 2 for gi, ai in zip(g, a))
        t = [sum(gi * ai[c] for gi, ai in zip(g, a)) for c in range(len(a[0]))]
        return s.bil(t, t, par).real
    def comps(s, x, par):
        a = s.amps(x, par); g = [s.g(i, par) for i in range(len(a))]; n = len(a)
        if s.kind == "inc": return [abs(gi * ai[0]) ** 2 for gi, ai in zip(g, a)]
        return [(1 if i == j else 2) * s.bil([g[i] * z for z in a[i]], [g[j] * z for z in a[j]], par).real for i in range(n) for j in range(i, n)]
def close(a, b, t=1e-9):
    if isinstance(a, list): return len(a) == len(b) and all(close(x, y, t) for x, y in zip(a, b))
    return isinstance(a, (int, float)) and abs(a - b) <= t * (1 + abs(b))
def cl(z): return [z.real, z.imag]
def expect(M, par, ev, mc, prep, wname):
    """what every accessor must give after prepare with these parameters (prep), these events and this integration sample; None: not determined"""
    E = {}; n = len(M.me); w = par[wname] if wname else 1
    X = [event(k, ev[1], M.nf)[0] for k in range(ev[0])] if ev else []
    E["coef"] = [cl(complex(M.g(i, par))) for i in range(n)]; E["w"] = w
    N = 1
    if mc:
        S = [event(k, mc[1], M.nf) for k in range(mc[0])]; ws = [b / c for _, b, c in S]; am = [M.amps(x, par) for x, _, _ in S]
        N = sum(q * M.dens(x, par) for q, (x, _, _) in zip(ws, S)) / sum(ws)
        E["nij"] = [cl(complex(sum(q * M.bil(a[i], a[j], par) for q, a in zip(ws, am)) / sum(ws))) for i in range(n) for j in range(i, n)]
        if M.kind == "inc": E["nij"] = [z if i == j else None for z, (i, j) in zip(E["nij"], [(i, j) for i in range(n) for j in range(i, n)])]
        E["norm"] = N; E["m_norm"] = N; E["emc"] = [w * M.dens(x, par) / N for x, _, _ in S]
    d = [M.dens(x, par) for x in X]
    if ev:
        for k in ("ev", "blk", "dbl", "eval"): E[k] = [w * q / N for q in d]
        E["un"] = E["unnc"] = d; E["comp"] = [list(z) for z in zip(*[M.comps(x, par) for x in X])]
        if M.kind == "coh":
            a = [cl(complex(sum(M.g(i, par) * q[0] for i, q in enumerate(M.amps(x, par))))) for x in X]
            for k in ("amp", "ampnc", "ae"): E[k] = a
    return E
def diff(got, E):
    bad = []
    for k, want in E.items():
        if k not in got: continue
        g = got[k]
        if k == "nij": g, want = [x for x, y in zip(g, want) if y is not None], [y for y in want if y is not None]
        if not close(g, want): bad.append((k, g if not isinstance(g, list) else g[:6], want if not isinstance(want, list) else want[:6]))
    return bad
WHAT = dict(coef="couplings", w="weight", nij="normalisation integrals of pairs", norm="normalisation", m_norm="normalisation in use", ev="density of an event", blk="density of a block", dbl="density by index", eval="evaluator of a list", emc="evaluator of the integration sample",
            un="unnormalised density", unnc="density without cache", comp="components", amp="amplitude", ampnc="amplitude without cache", ae="amplitude evaluator")
def pf(p): return p + "_" if p else ""
def val(rng): return rng.choice((-1, 1)) * rng.randint(4, 40) / 16
def history(rng, kind, names, masses, typ, pre="", dims=(1, 1), polf=False, polar=False, length=10, only=None):
    """one random history; returns (line, plan) where plan = [(index of look in the answer, parameters, events, mc, weight)]"""
    l = [kind, typ]; par = {}
    def P(n, v): par[n] = v; l.append("par|%s|%r" % (n, v))
    for n in names: P(n + "_Re", abs(val(rng)) if polar else val(rng)); P(n + "_Im", val(rng))
    for i, m in enumerate(masses): P(m + "_mass", rng.randint(20, 60) / 32 + (i + 1) / 1003)
    P("yield", 0.75); P("other", 1.25)
    if kind == "pol":
        for n in {1: [], 2: ["Px", "Py", "Pz"], 3: ["Px", "Py", "Pz", "Tyy", "Tzz", "Txy", "Txz", "Tyz"]}[dims[0]]: P(n, rng.randint(-20, 20) / 64)
        if polf: P("polFrac", rng.randint(5, 59) / 64)
    if polar: l.append("opt|CouplingConstant::Coordinates polar")
    l.append("build" + ("|" + pre if pre else "")); ev = mc = None; w = None; dirty = True; plan = []; k = 0
    for i in range(length):
        o = rng.random()
        if i == 0: o = .5
        if only == "noev" and .42 <= o < .6: o = .62
        if i == 1: o = .62
        if i == 2 or i == length - 1: o = .9
        if o < .3:
            n = rng.choice([q for q in par if q not in ("yield", "other")] * 3 + ["yield", "other"]); 
            if polf and n == "polFrac": par[n] = rng.randint(5, 59) / 64
            elif n in ("Px", "Py", "Pz") or n[0] == "T" and len(n) == 3: par[n] = rng.randint(-20, 20) / 64
            elif n.endswith("_mass"): par[n] = par[n] + rng.randint(1, 9) / 64
            elif n in ("yield", "other"): par[n] = rng.randint(1, 40) / 16
            else: par[n] = abs(val(rng)) if polar and n.endswith("_Re") else val(rng)
            l.append("set|%s|%r" % (n, par[n])); dirty = True
        elif o < .42: w = rng.choice(("yield", "other")); l.append("weight|" + w); dirty = True
        elif o < .6: ev = (rng.choice((1, 3, 4, 5, 8, 9)), rng.randint(1, 20)); l.append("events|%s|%d|%d" % (rng.choice("sl"), ev[0], ev[1])); dirty = True
        elif o < .72 and only != "nomc": mc = (rng.choice((2, 4, 6, 7, 11)), rng.randint(1, 20)); l.append("mc|%s|%d|%d" % (rng.choice("sl"), mc[0], mc[1])); dirty = True
        else:
            if dirty or rng.random() < .3: l.append("prep"); dirty = False
            l.append("look"); k += 1; plan.append((k, dict(par), ev, mc, w))
            if mc and rng.random() < .5:
                n = rng.choice([q for q in par if q.endswith("_Re") or q.endswith("_Im")]); par[n] = abs(val(rng)); l.append("set|%s|%r" % (n, par[n]))
                if rng.random() < .3 and masses: m = masses[0] + "_mass"; par[m] += 1 / 16; l.append("set|%s|%r" % (m, par[m])); l.append("ff|recompute")
                elif rng.random() < .5: l.append("fff"); k += 1; plan.append((k, dict(par), None, mc, "fff")); dirty = True; continue
                else: l.append("ff")
                k += 1; plan.append((k, dict(par), None, mc, "ff")); dirty = True
    return l, plan
def judge(rep, name, kind, H, ans, names, mass, dims, polar, bad, npt, pre=""):
    for (l, plan), r in zip(H, ans):
        if not isinstance(r, list): bad.setdefault("runs to the end", []).append(dict(input=l, got=str(r)[:300])); continue
        info = r[0]; M = Model(kind, None, info, names, dims=dims); M.polar = polar; M.mass = [mass.get(n) for n in info["me"]]
        if sorted(info["me"]) != sorted(names): bad.setdefault("amplitudes listed", []).append(dict(input=l, got=info["me"], want=sorted(names))); continue
        for k, par, ev, mc, w in plan:
            if w == "ff":
                E = expect(M, par, None, mc, True, None); n_ = len(M.me); ij = iter(E["nij"]); N = {(i, j): complex(*(next(ij) or (0, 0))) for i in range(n_) for j in range(i, n_)}; g = [M.g(i, par) for i in range(n_)]
                if kind == "inc": N = {q: v if q[0] == q[1] else 0 for q, v in N.items()}
                S = lambda a, b: sum(g[i] * complex(g[j]).conjugate() * (N[i, j] if j >= i else complex(N[j, i]).conjugate()) for i in a for j in b); T = S(range(n_), range(n_)).real; sets = [([i], [i]) for i in range(n_)] + [([0, n_ - 1],) * 2, ([n_ - 1], [0]), (range(n_),) * 2]
                want = [S(a, b).real / T for a, b in sets]; want = want + [sum(want), T, complex(S([n_ - 1], [0])).imag / T]; npt[0] += len(want)
                if not close(r[k], want): bad.setdefault("fit fractions", []).append(dict(input=l, look=k, got=r[k], want=want))
                continue
            if w == "fff":
                want = fractions(M, par, mc, l, names, pre); npt[0] += len(want); e = differs(r[k], want)
                if e: bad.setdefault("fit fractions", []).append(dict(input=l, look=k, what=e, got=r[k][:20]))
                continue
            E = expect(M, par, ev, mc, True, w); npt[0] += len(E)
            for key, g, want in diff(r[k], E): bad.setdefault(WHAT[key], []).append(dict(input=[x for x in l[:]], look=k, got=g, want=want))
def fractions(M, par, mc, line, names, pre):
    """the list fitFractions() must give: per head of rules each rule with at least one but not all amplitudes of the head, their sum, for coherent sums the interference of each pair of rules of the mother;
    uncertainties by central differences of one standard deviation (0.1) of every coupling, the integrals kept"""
    E = expect(M, par, None, mc, True, None); n = len(M.me); ij = iter(E["nij"]); N = {(i, j): complex(*(next(ij) or (0, 0))) for i in range(n) for j in range(i, n)}; everything = list(range(n)); mother = line[1].split()[0]
    if M.kind == "inc": N = {q: v if q[0] == q[1] else 0 for q, v in N.items()}
    free = [x.split("|")[1] for x in line if x.startswith("par|")]
    def S(a, b, norm, q):
        g = [complex(M.g(i, q)) for i in everything]; s = lambda a, b: sum(g[i] * g[j].conjugate() * (N[i, j] if j >= i else complex(N[j, i]).conjugate()) for i in a for j in b).real
        return s(a, b) / s(norm, norm)
    def entries(head, items, norm):
        at = lambda q: (lambda v: v + [sum(v)])([S(a, b, norm, q) for _, a, b in items]); v = at(par); err = [0] * len(v)
        for f in free:
            if not (f.endswith("_Re") or f.endswith("_Im")): continue
            q = dict(par); q[f] = par[f] + .1; up = at(q); q[f] = par[f] - .1; dn = at(q); err = [e + ((x - y) / 2) ** 2 for e, x, y in zip(err, up, dn)]
        return [(nm, x, math.sqrt(e) if M.kind != "pol" else None) for nm, x, e in zip([i[0] for i in items] + ["Sum_" + head], v, err)]
    if M.kind == "inc": return entries(mother, [(a, [i], [i]) for i, a in enumerate(M.me)], everything)
    base = lambda s: s[len(pf(pre)):] if pre and s.startswith(pf(pre)) else s
    rules = list(dict.fromkeys(x for f in free if f.endswith("_Re") for x in [base(f[:-3])] if any(x in [base(y) for y in names[a]] for a in M.me))); want = []; idx = {x: [i for i in everything if x in [base(y) for y in names[M.me[i]]]] for x in rules}
    for h in dict.fromkeys(x.split("{")[0] for x in rules):
        norm = [i for i in everything if h in M.me[i]]; it = [(x, idx[x], idx[x]) for x in rules if x.split("{")[0] == h and idx[x] != norm]
        if it: want += entries(h, it, norm)
    if M.kind == "coh":
        hr = [x for x in rules if x.split("{")[0] == mother]; it = [((x, y), idx[x], idx[y]) for x, y in itertools.combinations(hr, 2)]
        want += entries(mother + "_interference", it, everything)
    return want
def differs(got, want):
    if not isinstance(got, list): return str(got)[:200]
    key = lambda n: n if isinstance(n, str) else n[0] + "x" + n[1]; W = {key(n): (v, e) for n, v, e in want}
    for n, v, e in want:
        if not isinstance(n, str): W[n[1] + "x" + n[0]] = (v, e)
    if len(got) != len(want): return "%d entries, not %d: %s" % (len(got), len(want), [g[0] for g in got][:40])
    for n, v, e in got:
        if n not in W: return "unexpected entry " + n
        if not close([v, e] if W[n][1] is not None else [v], [z for z in W[n] if z is not None], 1e-8): return "%s: %r +- %r, not %r +- %r" % ((n, v, e) + W[n])
    if len({tuple(sorted(x[0].split("x"))) for x in got}) != len(got): return "entry given twice"
POL = [("Lambda(c)+ p+ K- pi+", (2, 2), ["Lambda(c)+{K*(892)bar0{K-,pi+},p+}", "Lambda(c)+{Delta(1232)++{p+,pi+},K-}", "Lambda(c)+{Lambda(1520)0{p+,K-},pi+}"]),
       ("J/psi0 pi+ pi- pi0", (3, 1), ["J/psi0{rho(770)0{pi+,pi-},pi0}", "J/psi0{rho(770)+{pi+,pi0},pi-}"]),
       ("B+ K+ pi+ pi- gamma0", (1, 2), ["B+{K(1)(1270)+{rho(770)0{pi+,pi-},K+},gamma0}", "B+{K(1)(1270)+{K*(892)0{K+,pi-},pi+},gamma0}"])]
def sums(rep, deep, rng):
    t0 = time.time()
    for kind, nm, pre in (("coh", "CoherentSum", ""), ("inc", "IncoherentSum", "Inco")):
        bad, npt, n = {}, [0], 0
        for nam in (1, 2, 3, 4, 5, 9) if not deep else (1, 2, 3, 4, 5, 6, 8, 9, 10):
            A_ = rng.sample(AMP, nam); names = {a: [pf(pre) + a] for a in A_}; mass = {a: a.split("{")[1] + "_mass" for a in A_}; polar = nam == 3
            H = [history(rng, kind, [pf(pre) + a for a in A_], [a.split("{")[1] for a in A_[:3]], D3, pre, polar=polar, length=12, only=("nomc" if q == 5 else "noev" if q == 4 else None)) for q in range(6 if not deep else 20)]
            n += len(H); judge(rep, nm, kind, H, ask([h[0] for h in H]), names, mass, (1, 1), polar, bad, npt, pre)
        # couplings that are products along a chain of rules
        ch = {"D0{K*(892)bar0{K-,pi+},pi0}": [pf(pre) + "D0{K*(892)bar0,pi0}", "K*(892)bar0{K-,pi+}"], "D0{rho(770)+{pi+,pi0},K-}": [pf(pre) + "D0{rho(770)+,K-}", "rho(770)+{pi+,pi0}"]}
        H = [history(rng, kind, [x for v in ch.values() for x in v], ["K*(892)bar0"], D3, pre, length=12) for q in range(4)]; n += len(H)
        judge(rep, nm, kind, H, ask([h[0] for h in H]), ch, {a: a.split("{")[1] + "_mass" for a in ch}, (1, 1), False, bad, npt, pre)
        # a large integration sample
        A_ = rng.sample(AMP, 2); names = {a: [pf(pre) + a] for a in A_}; H = [history(rng, kind, [pf(pre) + a for a in A_], [], D3, pre, length=3)]; h = H[0]; b = 20003 + rng.randint(0, 3)
        h = ([("mc|s|%d|7" % b if x.startswith("mc|") else x) for x in h[0]], [(k, p_, e, (b, 7) if m else m, w) for k, p_, e, m, w in h[1]]); n += 1
        judge(rep, nm, kind, [h], ask([h[0]]), names, {}, (1, 1), False, bad, npt, pre)
        # four bodies: several chains below one resonance
        K1 = "K(1)(1270)bar-"; top = pf(pre) + "D0{%s,pi+}" % K1; ch = {"D0{%s{%s,%s},pi+}" % (K1, x, y): [top, "%s{%s,%s}" % (K1, x, y)] for x, y in (("K*(892)bar0{K-,pi+}", "pi-"), ("rho(770)0{pi+,pi-}", "K-"), ("K(0)*(1430)bar0{K-,pi+}", "pi-"), ("rho(1450)0{pi+,pi-}", "K-"), ("K*(1410)bar0{K-,pi+}", "pi-"))}
        z = "D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}"; ch[z] = [pf(pre) + z]
        H = [history(rng, kind, list(dict.fromkeys(x for v in ch.values() for x in v)), [], "D0 K- pi+ pi+ pi-", pre, length=12) for q in range(4)]; n += len(H)
        judge(rep, nm, kind, H, ask([h[0] for h in H]), ch, {}, (1, 1), False, bad, npt, pre)
        # rules of another prefix for the same amplitudes do not enter
        A_ = rng.sample(AMP, 4); q = "Sig"; names = {a: [q + "_" + a] for a in A_}; H = [history(rng, kind, [q + "_" + a for a in A_] + ["Else_" + a for a in A_[:2]] + [A_[3]], [], D3, q, length=12) for _ in range(3)]; n += len(H)
        judge(rep, nm, kind, H, ask([h[0] for h in H]), names, {}, (1, 1), False, bad, npt, q)
        for k in ["runs to the end", "amplitudes listed", "fit fractions"] + [WHAT[q] for q in ("coef", "w", "nij", "norm", "m_norm", "ev", "blk", "eval", "emc", "comp") + (("amp", "ampnc", "ae") if kind == "coh" else ("dbl", "un", "unnc"))]:
            rep.bound(nm, k + " after every history", n, "executed histories of parameter, weight, event and sample changes", bad.get(k, [])[:2])
        rep.explored(npt[0], n, "%s: random histories of 12 steps" % nm, [H[0][0]])
def polarised(rep, deep, rng):
    bad, npt, n = {}, [0], 0
    for typ, dims, amps in POL:
        for polf in (False, True) if dims[1] == 2 else (False,):
            names = {a: [a] for a in amps}; mass = {a: a.split("{")[1] + "_mass" for a in amps}
            H = [history(rng, "pol", amps, [a.split("{")[1] for a in amps[:1]], typ, dims=dims, polf=polf, length=14, only="noev" if q == 2 else None) for q in range(3 if not deep else 6)]; n += len(H)
            judge(rep, "PolarisedSum", "pol", H, ask([h[0] for h in H]), names, mass, dims, False, bad, npt)
    for k in ["runs to the end", "amplitudes listed", "fit fractions"] + [WHAT[q] for q in ("coef", "w", "nij", "norm", "m_norm", "ev", "blk", "dbl", "eval", "emc", "comp", "unnc")]:
        rep.bound("PolarisedSum", k + " after every history", n, "executed histories", bad.get(k, [])[:2])
    rep.explored(npt[0], n, "PolarisedSum: random histories of 14 steps", [H[0][0]])
def standalone(rep, rng):
    """generateSourceCode: FCN of the written, compiled and loaded model is the density built from the model's own amplitudes and the couplings at the time of writing, over the given normalisation"""
    bad, L, P = [], [], []; four = "D0 K- pi+ pi+ pi-"; v = "{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}"; K1 = "K(1)(1270)bar-"
    jobs = [("coh", D3, (1, 1), {a: [a] for a in rng.sample(AMP, 4)}, {}), ("coh", four, (1, 1), {"D0" + w + v: ["D0" + w + v] for w in ("", "[P]", "[D]")}, {}),
            ("coh", four, (1, 1), {"D0{%s{%s},pi+}" % (K1, x): ["D0{%s,pi+}" % K1, "%s{%s}" % (K1, x)] for x in ("K*(892)bar0{K-,pi+},pi-", "rho(770)0{pi+,pi-},K-")}, {})]
    for typ, dims, amps in POL[:2]:
        pol = {n: rng.randint(-20, 20) / 64 for n in {1: [], 2: ["Px", "Py", "Pz"], 3: ["Px", "Py", "Pz", "Tyy", "Tzz", "Txy", "Txz", "Tyz"]}[dims[0]]}
        jobs.append(("pol", typ, dims, {a: [a] for a in amps}, pol))
        if dims[1] == 2: jobs.append(("pol", typ, dims, {a: [a] for a in amps}, dict(pol, polFrac=rng.randint(5, 59) / 64)))
    with tempfile.TemporaryDirectory(prefix="model", dir=build.BUILD) as D:
        for q, (kind, typ, dims, names, pol) in enumerate(jobs):
            par = dict(pol)
            for x in dict.fromkeys(y for z in names.values() for y in z): par[x + "_Re"], par[x + "_Im"] = val(rng), val(rng)
            os.mkdir("%s/%d" % (D, q)); l = [kind, typ] + ["par|%s|%r" % kv for kv in par.items()] + ["build"]; ch = rng.choice([x for x in par if x.endswith("_Re")]); par[ch] = val(rng); L.append(l + ["set|%s|%r" % (ch, par[ch]), "src|%s/%d" % (D, q)]); P.append(par)
        R = ask(L)
    for l, par, (kind, typ, dims, names, pol), r in zip(L, P, jobs, R):
        if not isinstance(r, list) or "pt" not in r[1] or sorted(r[0]["me"]) != sorted(names): bad.append(dict(input=l, got=str(r)[:300])); continue
        M = Model(kind, None, r[0], names, dims=dims); nc = dims[0] * dims[1]; sg = [1 if x == 1 else -1 for x in r[1]["par"]]
        for pt in r[1]["pt"]:
            a = [complex(*z) for z in pt["a"]]
            if len(a) != nc * len(M.me): bad.append(dict(input=l, got="%d amplitudes" % len(a))); break
            def dens(pa, p):
                t = [sum(M.g(i, par) * a[i * nc + c] * (pa if kind == "coh" and sg[i] < 0 else 1) for i in range(len(M.me))) for c in range(nc)]
                return M.bil(t, t, p).real / 2
            want = [dens(1, par), dens(-1, par)]; ext = None
            if kind == "pol":
                q = {k: z if len(k) != 3 else 0 for k, z in par.items() if k != "polFrac"}; q.update(Px=.25, Py=-.5, Pz=.125); ext = dens(1, q)
            if not all(abs(x - y) <= 1e-8 * abs(y) + 1e-14 for x, y in zip(pt["f"], want)): bad.append(dict(input=l, got=pt["f"], want=want, what="FCN")); break
            if ext is not None and abs(pt.get("x", 1e9) - ext) > 1e-8 * abs(ext) + 1e-14: bad.append(dict(input=l, got=pt["x"], want=ext, what="FCN_extPol")); break
    rep.bound("stand-alone model", "the written source computes the density of the sum, for either parity and for a given polarisation", len(L), "models written, compiled, loaded and evaluated", bad[:3])
def likelihood(rep, rng):
    bad, L, P = [], [], []
    for q in range(6):
        A_ = rng.sample(AMP, 3); B_ = rng.sample(AMP, 2); par = {}
        for a in A_: par[a + "_Re"], par[a + "_Im"] = val(rng), val(rng)
        for a in B_: par["Inco_" + a + "_Re"], par["Inco_" + a + "_Im"] = val(rng), val(rng)
        par["fSig"], par["fBkg"] = .75, .25; l = ["lik", D3] + ["par|%s|%r" % kv for kv in par.items()] + ["size|%d|%d" % (rng.choice((3, 4, 9)) if q < 5 else 1203, rng.choice((4, 7)) if q < 5 else 2501)]; pl = []
        for st in range(4):
            k = rng.choice(list(par)); par[k] = rng.randint(1, 30) / 32; l.append("set|%s|%r" % (k, par[k])); w = rng.choice(("val", "val", "vall", "val3")); l.append(w); pl.append((w, dict(par)))
        L.append(l); P.append((pl, A_, B_))
    for l, (pl, A_, B_), r in zip(L, P, ask(L)):
        if not isinstance(r, list): bad.append(dict(input=l, got=str(r)[:300])); continue
        nev, nmc = [int(x) for x in [y for y in l if y.startswith("size")][0].split("|")[1:]]; k = 1
        mk = lambda kind, pre, me: Model(kind, None, dict(nf=12, slot=[-1] * len(me), me=me), {a: [pf(pre) + a] for a in me}, dims=(1, 1))
        C, I = mk("coh", "", r[0]["me"]), mk("inc", "Inco", r[0]["mi"]); C.mass = I.mass = [None] * 9
        for w, par in pl:
            S = [event(i, 5, 12) for i in range(nmc)]; sw = sum(b / c for _, b, c in S); N = lambda M: sum(b / c * M.dens(x, par) for x, b, c in S) / sw; NC, NI = N(C), N(I)
            E = [event(i, 3, 12) for i in range(nev)]; p = [par["fSig"] * C.dens(x, par) / NC + par["fBkg"] * I.dens(x, par) / NI for x, _, _ in E]; LL = -2 * sum(b * math.log(q) for (_, b, _), q in zip(E, p))
            if w == "val3": p = [par["fSig"] * C.dens(x, par) / NC + 2 * par["fBkg"] * I.dens(x, par) / NI for x, _, _ in E]; LL = -2 * sum(b * math.log(q) for (_, b, _), q in zip(E, p))
            want = [LL, p, p] if w == "val3" else [LL, LL, p, p] if w == "val" else [LL, p]
            for j, x in enumerate(want):
                if not close(r[k + j], x): bad.append(dict(input=l, what=("likelihood", "likelihood again", "density", "evaluator")[j] if w == "val" else ("likelihood of three components" if w == "val3" else "likelihood of a plain list", "density", "evaluator")[j], got=r[k + j], want=x))
            k += len(want)
    rep.bound("SumPDF", "the likelihood is -2 times the weighted sum of the logarithm of the summed normalised densities, for both kinds of list", len(L), "executed histories", bad[:3])
def run(rep, deep, seed):
    rng = random.Random(seed * 7 + 6)
    sums(rep, deep, rng); polarised(rep, deep, rng); likelihood(rep, rng); standalone(rep, rng)
    rep.functions += ["CoherentSum::prepare", "CoherentSum::updateNorms", "CoherentSum::norm", "CoherentSum::getVal", "CoherentSum::getValNoCache", "CoherentSum::operator()", "CoherentSum::evaluator", "CoherentSum::amplitudeEvaluator", "CoherentSum::componentEvaluator", "CoherentSum::setEvents", "CoherentSum::setMC", "IncoherentSum::*", "PolarisedSum::*", "SumPDF::getVal", "SumPDF::evaluator", "Integrator::*", "Bilinears::*", "MatrixElement::operator()", "FunctionCache::update", "CoherentSum::fitFractions", "IncoherentSum::fitFractions", "PolarisedSum::fitFractions", "CoherentSum::generateSourceCode", "PolarisedSum::generateSourceCode", "PolarisedSum::probExpression"]
    rep.assumptions += ["compiled amplitudes obey the contract of generated code (decided by P03)", "ROOT is replaced by rootmini (headers of the same names with the members used)"]
