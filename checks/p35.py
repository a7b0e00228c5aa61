"""P35: generated events conserve momentum, sit on the mass shells and populate phase space as stated; kinematic functions are the quantities they name."""
import build, sym, subprocess, json, uf, math, random, os, tempfile, time, itertools
LEVEL = "proof"
M4 = lambda a, b: a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]
def add(ps):
    r = list(ps[0])
    for p in ps[1:]: r = [x + y for x, y in zip(r, p)]
    return r
def shadows(T, keys):
    sh = {}
    for k in keys:
        for i, x in T.out[k]:
            if T.N[i][0] == "v": sh[T.N[i][1]] = x
    return sh
class W3(sym.World2):
    """masses fixed by one seed, random numbers by another"""
    def __init__(s, seed, useed, shadow): super().__init__(seed, shadow); s.useed = useed
    def v(s, n):
        if n not in s.var: s.var[n] = sym.Fp2(uf._h(s.useed if n[0] == "u" else s.seed, "var", n), 0, s.sh(n) if s.sh(n) is not None else 0.3); s.note(s.var[n])
        return s.var[n]
def dot3(W, a, b, Q): return M4(a, Q) * M4(b, Q) / M4(Q, Q) - M4(a, b)
def fill_case(rep, exe, N, seed, w, zero, how, easy, bad):
    tag = "%d particles%s%s" % (N, ", massless: " + bin(zero) if zero else "", ", decay time" if how == 2 else "")
    try: T = sym.run(exe, "fill", N, seed, w, zero, how, easy)
    except sym.Crash as e:
        if "no answer" in str(e): rep.notes.append("PhaseSpace %s: %s" % (tag, e)); return
        rep.ob("PhaseSpace", "an event is generated (%s)" % tag, False, "replay", why=str(e)); return
    sh = shadows(T, ["u", "m"] + (["u2"] if w == 1 else [])); sh["M"] = sum(T.shadow("m")) + 1.3; sh["old"] = -77.; sh["tau"] = .41
    for which, key, u in [("fill", "ev", "u")] + ([("makeEvent", "made", "u2")] if w == 1 else []):
        out = T.shadow(key); off = 1 if w > 1 else 0; sl = lambda f: f * w + (off if key == "ev" else 0)
        names = [T.N[i][1] for i, _ in T.out[u]]
        if which == "makeEvent": names = names[int(T.json["k"]):]
        # what the code computed with doubles: the concrete witness
        P = [[out[sl(4 * i + k)] for k in range(4)] for i in range(N)]; ms = T.shadow("m"); conc = []
        for i in range(N):
            if not abs(M4(P[i], P[i]) - ms[i] ** 2) < 1e-9 * (1 + P[i][3] ** 2): conc.append("mass of particle %d is %r, not %r" % (i, math.sqrt(abs(M4(P[i], P[i]))), ms[i]))
            if not P[i][3] > 0: conc.append("energy of particle %d is %r" % (i, P[i][3]))
        S = add(P)
        for k, t in enumerate([0, 0, 0, sh["M"]]):
            if not abs(S[k] - t) < 1e-9 * (1 + sh["M"]): conc.append("sum of component %d is %r, not %r" % (k, S[k], t))
        ok = {}
        try:
            for att in range(6):
                try: R = decide(T, N, names, key, sl, sh, seed + 100 * att, zero, which, how, w); break
                except sym.NoRoot: R = None
        except uf.Zero: R = None
        if conc: bad.append(dict(function="PhaseSpace::" + which, particles=N, masses=ms, mother=sh["M"], random_numbers=[sh[n] for n in names[:20]], momenta=P, why="; ".join(conc[:3])))
        if R is None: rep.notes.append("PhaseSpace %s: no point of the field has the square roots needed" % tag); continue
        for k, (st, n) in R.items():
            if st: rep.ob_many("PhaseSpace::" + which, k + " (%s)" % tag, n, "F_p2-identity")
            elif k in ("every momentum is on its mass shell", "the momenta add up to the mother at rest"):
                if not conc: rep.notes.append("PhaseSpace::%s %s: '%s' is not decided by the field argument; holds on the executed event" % (which, tag, k))
            else: rep.extra.setdefault("undecided", []).append((which, tag, k))
        if which == "makeEvent" and T.shadow("gen")[0] != 1: bad.append(dict(function="PhaseSpace::makeEvent", why="generated density is %r, not 1" % T.shadow("gen")[0]))
        if key == "ev" and w > 1:
            touched = [i for i in range(len(out)) if T.ids("ev")[i] != T.ids("ev")[0] and not (i % w == 1)]
            if touched: bad.append(dict(function="PhaseSpace::fill", why="with stride %d, lane 1, it writes to other lanes" % w, positions=touched))
        nslot = (4 * N + (1 if how == 2 else 0)); left = [f for f in range(nslot, 4 * N + 1) if key == "ev" and out[sl(f)] != -77.]
        if left: bad.append(dict(function="PhaseSpace::fill", why="writes past the event", fields=left))
        if how == 2:
            i = T.ids(key)[sl(4 * N)]; n = T.N[i]; good = n[0] == "app" and n[1] == "exponential" and T.N[T.args(n)[0]] == ["v", "tau"]
            rep.ob("PhaseSpace::" + which, "the decay time is exponential with the mother's lifetime", good, "term", why=str(n))
def hints(W, N, m, us):
    Tc = W.v("M")
    for x in m: Tc = Tc - x
    r = [W.c(0)] + sorted(us, key=lambda z: z.x) + [W.c(1)]; Ms = []; s = W.c(0); q2 = []
    for n in range(N): s = s + m[n]; Ms.append(r[n] * Tc + s)
    for n in range(N - 1):
        a, b, c = Ms[n + 1], Ms[n], m[n + 1]; e = (a * a + b * b - c * c) / (a + a); W.note(e); W.note((a * a - b * b + c * c) / (a + a)); q2.append(e * e - b * b)
    return Ms, q2, Tc
def decide(T, N, names, key, sl, sh, seed, zero, which, how, w):
    """which of the obligations hold as identities in the masses and random numbers"""
    # draws compared with the weight: acceptance; the trial is the block of draws between two acceptance draws
    vid = {T.N[i][1]: i for i in range(len(T.N)) if T.N[i][0] == "v"}; idv = {v: k for k, v in vid.items()}
    acc = []   # (position of the draw, id of the weight)
    pos = {n: k for k, n in enumerate(names)}
    for op, a, b, r in T.path:
        for x, y in ((a, b), (b, a)):
            if x in idv and idv[x] in pos and T.N[y][0] not in ("v", "c"): acc.append((pos[idv[x]], y, r))
    trials = []; start = 0
    for k, y, r in acc:
        if k >= start: trials.append((names[start:k], names[k], y)); start = k + 1
    R = {}
    fin = trials[-1][0] if trials else []
    W = W3(seed, seed, sh.get); m = [W.c(0) if zero >> i & 1 else W.v("m%d" % i) for i in range(N)]
    mass_draws = [n for n in fin]
    if len(mass_draws) != N - 2: mass_draws = names[:N - 2]
    Ms, q2, Tc = hints(W, N, m, [W.v(n) for n in mass_draws])
    V = W.run(T, [T.ids(key)[sl(f)] for f in range(4 * N)]); P = [V[4 * i:4 * i + 4] for i in range(N)]
    R["every momentum is on its mass shell"] = (all((M4(p, p) - x * x).zero() for p, x in zip(P, m)), N)
    S = add(P); R["the momenta add up to the mother at rest"] = (all((S[k] - (W.v("M") if k == 3 else W.c(0))).zero() for k in range(4)), 4)
    used = []; ok = True; s = m[0]
    for i in range(1, N - 1):
        s = s + m[i]; Q = add(P[:i + 1]); hit = [n for n in names if n not in used and (M4(Q, Q) - (W.v(n) * Tc + s) * (W.v(n) * Tc + s)).zero()]
        if hit: used.append(hit[0])
        else: ok = False
    if ok and sorted(used, key=lambda n: sh[n]) != used: ok = False
    R["the masses of the first subsystems are uniform and ordered"] = (ok, N - 2)
    # directions
    ok = True; one = W.c(1)
    for i in range(1, N):
        free = [n for n in names if n not in used]
        if i == N - 1:
            p = P[i]; q = p[0] * p[0] + p[1] * p[1] + p[2] * p[2]; found = None
            for n in free:
                c = W.v(n) * W.c(2) - one
                for k in range(3):
                    if (p[k] * p[k] - q * c * c).zero():
                        for n2 in free:
                            C, Z = W.circle(W.c(2 * math.pi) * W.v(n2)); t = q * (one - c * c)
                            for l in range(3):
                                if l != k and (p[l] * p[l] - t * C * C).zero() and n2 != n: found = (n, n2)
        else:
            Q = add(P[:i + 1]); a, b = P[i], P[i + 1]; ab, aa, bb = dot3(W, a, b, Q), dot3(W, a, a, Q), dot3(W, b, b, Q); found = None
            c1 = [n for n in free if (ab * ab - aa * bb * (W.v(n) * W.c(2) - one) * (W.v(n) * W.c(2) - one)).zero()]
            if c1:
                if i + 2 < N: ref = P[i + 2]
                else: ref = None
                for n2 in free:
                    if n2 in c1: continue
                    C, Z = W.circle(W.c(2 * math.pi) * W.v(n2))
                    if ref is not None:
                        ac, bc, cc = dot3(W, a, ref, Q), dot3(W, b, ref, Q), dot3(W, ref, ref, Q); x = ac - ab * bc / bb; y = (aa - ab * ab / bb) * (cc - bc * bc / bb)
                        if (x * x - y * C * C).zero() or (x * x - y * Z * Z).zero(): found = (c1[0], n2)
                    else:
                        # the last but one: azimuth about the last particle, relative to the axes the final rotation keeps
                        for k in range(3):
                            e = [W.c(0)] * 4; e[k] = one
                            # the plane spanned by the last particle and a fixed axis
                            tot = add(P); rest = tot; 
                            f = dot3(W, a, e, rest), dot3(W, b, e, rest), dot3(W, e, e, rest)
                            # a is measured in the mother's frame: boosts along b leave azimuths about b unchanged
                            AB, AA, BB = dot3(W, a, b, rest), dot3(W, a, a, rest), dot3(W, b, b, rest)
                            x = f[0] - AB * f[1] / BB; y = (AA - AB * AB / BB) * (f[2] - f[1] * f[1] / BB)
                            if (x * x - y * C * C).zero() or (x * x - y * Z * Z).zero(): found = (c1[0], n2)
        if found: used += list(found)
        else: ok = False
    R["every two-body decay is isotropic in its rest frame"] = (ok, 2 * (N - 1))
    # acceptance: weight = constant x product of break-up momenta, never above one
    ok = bool(trials) and N >= 2; cnt = 0; K = None
    for ds, d, y in (trials[-3:] if N > 2 else []):
        if len(ds) != N - 2: ok = False; break
        for us in (seed, seed + 17):
            X = W3(seed, us, sh.get); mm = [X.c(0) if zero >> i & 1 else X.v("m%d" % i) for i in range(N)]; _, qq, _ = hints(X, N, mm, sorted([X.v(n) for n in ds], key=lambda z: z.x)); wt = X.run(T, [y])[0]
            pr = X.c(1)
            for q in qq: pr = pr * q
            k2 = wt * wt / pr; cnt += 1
            if K is None: K = k2.key()
            elif K != k2.key(): ok = False
        full = [math.fsum(T.shadow("m")[:n + 1]) for n in range(N)]; Te = sh["M"] - full[-1]
        brk = lambda M, a, b: .5 * math.sqrt(max(0, (M * M - (a + b) ** 2) * (M * M - (a - b) ** 2))) / M
        lim = 1.; val = 1.
        for n in range(1, N): lim *= brk(Te + full[n], full[n - 1], T.shadow("m")[n])
        r = [0] + sorted(sh[x] for x in ds) + [1]; MM = [r[n] * Te + full[n] for n in range(N)]
        for n in range(1, N): val *= brk(MM[n], MM[n - 1], T.shadow("m")[n])
        wt = X.run(T, [y])[0].x
        if not (wt / val * lim <= 1 + 1e-9): ok = False
    if N > 2: R["the acceptance weight is the product of the break-up momenta over a bound"] = (ok, cnt)
    return R
def phase_space(rep, exe, deep, seed, bad):
    for N in range(2, 10 if deep else 8):
        for s in range(1, (4 if deep else 3)): fill_case(rep, exe, N, 10 * seed + s, 1, 0, 0, 1, bad)
    for N in (3, 4): fill_case(rep, exe, N, seed + 5, 1, 0, 1, 0, bad); fill_case(rep, exe, N, seed + 6, 4, 0, 1, 1, bad); fill_case(rep, exe, N, seed + 7, 1, 0, 2, 1, bad); fill_case(rep, exe, N, seed + 8, 1, 1, 0, 1, bad); fill_case(rep, exe, N, seed + 8, 1, 6, 0, 1, bad)
    fill_case(rep, exe, 2, seed + 9, 4, 0, 2, 1, bad)
def kinematics(rep, exe, deep, seed, bad):
    def go(*a):
        try: return sym.run(exe, *a)
        except sym.Crash as e: rep.ob("kinematics", " ".join(map(str, a)), False, "replay", why=str(e)); return None
    def world(T, s, extra=()):
        sh = dict(extra)
        def f(n): return sh.get(n)
        for att in range(8): yield sym.World2(s + 1000 * att, f)
    def comps(name, T, roots, want, sh, what):
        """each output is the given function of the inputs, as an identity; on failure the executed numbers decide"""
        for W in world(T, seed, sh.items()):
            try: V = W.run(T, [i for i, _ in roots]); E = want(W); break
            except sym.NoRoot: continue
        else: rep.notes.append(name + ": no point with the square roots needed"); return
        ok = all((a - b).zero() for a, b in zip(V, E))
        if ok: rep.ob_many(name, what, len(E), "F_p2-identity"); return
        num = [dict(component=k, got=x, expected=b.x) for k, ((_, x), b) in enumerate(zip(roots, E)) if not abs(x - b.x) < 1e-9 * (1 + abs(b.x))]
        if num: bad.append(dict(function=name, obligation=what, input=sh, wrong=num[:4]))
        else: rep.notes.append("%s: %s: not decided by the field argument, holds on the executed input" % (name, what))
    def ev(n, salt=0.):
        sh = {}
        for i in range(n):
            q = 0.
            for k in range(3): x = math.sin(1.7 * (4 * i + k) + 0.31 * (4 * i + k) * (4 * i + k) + 0.3 + salt); q += x * x; sh["p%d" % (4 * i + k)] = x
            sh["p%d" % (4 * i + 3)] = math.sqrt(q + .1 * (i + 1))
        return sh
    for n in (1, 2, 4):
        sh = ev(n); sh.update(nx=.3, ny=-1.1, nz=.7, v=.6)
        def unit(W): x = [W.v("nx"), W.v("ny"), W.v("nz")]; N = W.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); return [c / N for c in x]
        def boosted(W):
            u = unit(W); v = W.v("v"); g = W.c(1) / W.sqrt(W.c(1) - v * v); r = []
            for i in range(n):
                p = [W.v("p%d" % (4 * i + k)) for k in range(4)]; l = u[0] * p[0] + u[1] * p[1] + u[2] * p[2]; L = g * (l + v * p[3])
                r += [p[k] + (L - l) * u[k] for k in range(3)] + [g * (p[3] + v * l)]
            return r
        def rotated(W):
            u = unit(W); c, s = W.circle(W.v("v")); r = []
            for i in range(n):
                p = [W.v("p%d" % (4 * i + k)) for k in range(4)]; l = u[0] * p[0] + u[1] * p[1] + u[2] * p[2]; x = [u[1] * p[2] - u[2] * p[1], u[2] * p[0] - u[0] * p[2], u[0] * p[1] - u[1] * p[0]]
                r += [l * u[k] + c * (p[k] - l * u[k]) + s * x[k] for k in range(3)] + [p[3]]
            return r
        T = go("boost", n)
        if T: comps("boost", T, T.out["out"], boosted, sh, "every momentum is boosted along the direction by the velocity (%d particles)" % n)
        T = go("rotate", n)
        if T: comps("rotate", T, T.out["out"], rotated, sh, "every momentum is rotated about the axis by the angle (%d particles)" % n)
        for i in range(3): sh.update({"a%d" % (3 * i): .3 + i, "a%d" % (3 * i + 1): -1.1, "a%d" % (3 * i + 2): .7 * i})
        def basis(W):
            r = []; A = [[W.v("a%d" % (3 * i + k)) for k in range(3)] for i in range(3)]; N = [W.sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]) for a in A]
            for i in range(n):
                p = [W.v("p%d" % (4 * i + k)) for k in range(4)]; r += [(a[0] * p[0] + a[1] * p[1] + a[2] * p[2]) / q for a, q in zip(A, N)] + [p[3]]
            return r
        T = go("basis", n)
        if T: comps("rotateBasis", T, T.out["out"], basis, sh, "components along the three directions (%d particles)" % n)
    # functions of an event: the square of the value is compared in the field, its sign by the executed numbers
    rng = random.Random("p35k:%d" % seed)
    def value(name, what, T, key, salt, sq, num, n=5, inner=None):
        i, x = T.out[key][0]; sh = ev(n, salt); E = num([[sh["p%d" % (4 * j + k)] for k in range(4)] for j in range(n)])
        if not abs(x - E) < 1e-8 * (1 + abs(E)): bad.append(dict(function=name, obligation=what, input=sh, got=x, expected=E)); return
        if inner:
            if T.N[i][0] != inner: rep.notes.append("%s: computed in another way than by %s; compared on executed inputs" % (name, inner)); return
            i = T.N[i][1:]
        else: i = [i]
        for W in world(T, seed, sh.items()):
            try: V = W.run(T, i); S = sq(W, [[W.v("p%d" % (4 * j + k)) for k in range(4)] for j in range(n)]); break
            except sym.NoRoot: continue
        else: rep.notes.append(name + ": no point with the square roots needed"); return
        if len(V) == 2: ok = (V[1] * V[1] - S).zero() and (V[0] * V[0] + V[1] * V[1] - W.c(1)).zero()
        else: ok = (V[0] * V[0] - S).zero()
        if ok: rep.ob_many(name, what, len(V), "F_p2-identity")
        else: rep.notes.append("%s: %s: not decided by the field argument, holds on the executed input" % (name, what))
    def fd(a, b, Q): return M4(a, Q) * M4(b, Q) / M4(Q, Q) - M4(a, b)
    def pick(P, mask): return add([P[i] for i in range(len(P)) if mask >> i & 1])
    for t in range(24 if deep else 10):
        a, b = rng.sample([1, 2, 4, 8, 16, 3, 6, 12, 24, 5], 2); Rm = rng.choice([31, a | b, a | b | 4, 7, 30]); salt = t * .37
        if a & b: a, b = 1, 2 << (t % 4)
        if bin(Rm).count("1") < 2 or Rm == a or Rm == b: Rm = 31
        T = go("helicity", t, a, b, Rm)
        if T:
            for key in ("hc", "hci") + (("hc1",) if "hc1" in T.out else ()):
                value("HelicityCosine", "cosine of the angle between the two momenta in the rest frame of the third", T, key, salt,
                      lambda W, P: (lambda A, B, Q: fd(A, B, Q) * fd(A, B, Q) / (fd(A, A, Q) * fd(B, B, Q)))(pick(P, a), pick(P, b), pick(P, Rm)),
                      lambda P: (lambda A, B, Q: fd(A, B, Q) / math.sqrt(fd(A, A, Q) * fd(B, B, Q)))(pick(P, a), pick(P, b), pick(P, Rm)))
            value("dotProduct", "scalar product of the momenta in the rest frame of the third", T, "dot", salt, lambda W, P: (lambda A, B, Q: fd(A, B, Q) * fd(A, B, Q))(pick(P, a), pick(P, b), pick(P, Rm)), lambda P: fd(pick(P, a), pick(P, b), pick(P, Rm)))
        T = go("transfer", t, a, b)
        if T: value("MomentumTransfer", "momentum of each part in the rest frame of both", T, "q", salt, lambda W, P: (lambda A, B: fd(A, A, add([A, B])))(pick(P, a), pick(P, b)), lambda P: (lambda A, B: math.sqrt(fd(A, A, add([A, B]))))(pick(P, a), pick(P, b)))
    def normals(P, o):
        Q = add(P); d = lambda i, j: fd(P[o[i]], P[o[j]], Q)
        return d(0, 2) * d(1, 3) - d(0, 3) * d(1, 2), (d(0, 0) * d(1, 1) - d(0, 1) * d(0, 1)) * (d(2, 2) * d(3, 3) - d(2, 3) * d(2, 3))
    def rest(P):
        Q = add(P); M = math.sqrt(M4(Q, Q)); r = []
        for p in P: e = M4(p, Q) / M; k = (p[3] + e) / (Q[3] + M); r.append([p[i] - k * Q[i] for i in range(3)] + [e])
        return r
    cross = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    d3 = lambda a, b: sum(x * y for x, y in zip(a[:3], b[:3]))
    def signed(P, o):
        p = rest(P); n1 = cross(p[o[0]], p[o[1]]); n2 = cross(p[o[2]], p[o[3]]); ax = [x + y for x, y in zip(p[o[2]][:3], p[o[3]][:3])]
        l = math.sqrt(d3(n1, n1) * d3(n2, n2)); return math.atan2(d3(cross(n1, n2), ax) / (l * math.sqrt(d3(ax, ax))), d3(n1, n2) / l)
    for t in range(12 if deep else 6):
        o = list(range(4)); rng.shuffle(o); salt = t * .37; T = go("planes", t, *o)
        if not T: continue
        def nsq(oo):
            def f(W, P): c, s = normals(P, oo); return c * c / s
            return f
        value("acoplanarity", "angle between the two decay planes in the rest frame", T, "chi", salt, nsq([0, 1, 2, 3]), lambda P: math.acos((lambda c, s: c / math.sqrt(s))(*normals(P, [0, 1, 2, 3]))), 4, "acos")
        value("PHI", "signed angle between the decay planes about the momentum of the second pair", T, "PHI", salt, nsq([0, 1, 3, 2]), lambda P: signed(P, [0, 1, 3, 2]), 4, "atan2")
        value("phi", "signed angle between the decay planes about the momentum of the second pair", T, "phi", salt, nsq(o), lambda P: signed(P, o), 4, "atan2")
# --- decay chains: proposals, events and densities of the tree generator
class Nd:
    def __init__(s, kind, name, kids): s.kind, s.name, s.kids = kind, name, kids
def parse(t):
    def go(k):
        if t[k].isdigit():
            j = k
            while j < len(t) and t[j].isdigit(): j += 1
            return int(t[k:j]), j
        b = t.index("[", k); nm = t[k + 2:b]; kd = t[k]; k = b + 1; kids = []
        while t[k] != "]":
            c, k = go(k); kids.append(c)
            if t[k] == ",": k += 1
        return Nd(kd, nm, kids), k + 1
    return go(0)[0]
def leaves(n): return [n] if isinstance(n, int) else [x for k in n.kids for x in leaves(k)]
def binary(n):
    """two daughters at every step: further daughters are grouped as a non-resonant system"""
    if isinstance(n, int): return n
    k = n.kids
    if len(k) > 2: k = [k[0], Nd("w", "NonResS0", k[1:])]
    return Nd(n.kind, n.name, [binary(x) for x in k])
def nodes(n): return [] if isinstance(n, int) else [n] + [x for k in n.kids for x in nodes(k)]
def rho2(W, s, a, b): d = a - b; return W.c(1) - W.c(2) * (a + b) / s + d * d / (s * s)
def rho2f(s, a, b): return 1 - 2 * (a + b) / s + (a - b) ** 2 / s ** 2
CHAINS = [("2.0,0.494,0.14", "q:H[0,1]"), ("2.0,0.494,0.14,0.135", "q:H[w:A[0,1],2]"), ("2.0,0.494,0.14,0.135", "q:H[1,f:A[2,0]]"), ("2.0,0.494,0.14,0.135", "q:H[0,1,2]"),
          ("2.0,0.494,0.14,0.135,0.14", "q:H[w:A[0,1],w:B[2,3]]"), ("2.0,0.494,0.14,0.135,0.14", "q:H[w:A[w:B[3,1],2],0]"), ("2.0,0.494,0.14,0.135,0.14", "q:H[q:K[1,3],w:B[0,2]]"), ("2.0,0.494,0.14,0.135,0.14", "q:H[0,f:A[1,2,3]]"),
          ("3.1,0.494,0.14,0.135,0.14,0.2", "q:H[w:A[4,f:B[0,1]],w:C[2,3]]"), ("3.1,0.494,0.14,0.135,0.14,0.2", "q:H[w:A[q:B[4,1],w:C[2,0]],3]"), ("2.9,0.494,0.14,0.135,0.14", "w:H[w:A[0,1],w:B[2,3]]"), ("5.0,0.494,0.14,0.135,0.14,0.2,0.3", "q:H[w:A[5,w:B[0,1]],w:C[2,w:D[3,4]]]")]
def sumsq(W, P, S): q = add([P[i] for i in S]); return M4(q, q)
def tree_hints(W, T, N, tree, st):
    for x in st: W.sqrt(x)
    for nd in tree:
        s = st[nd[0]]; r = W.sqrt(s)
        for a, b in ((nd[1], nd[2]), (nd[2], nd[1])): W.note((s + st[a] - st[b]) / (r + r))
def chain_case(rep, exe, vals, tree, seeds, bad, undec):
    tag = tree; B = binary(parse(tree)); N = len(leaves(B)); ok_state = 0
    exp = {frozenset(leaves(n)): n for n in nodes(B)}
    for kth, seed in enumerate(list(seeds) + [x + 1000 for x in range(40)]):
        if kth >= len(seeds) and ok_state: break
        try: T = sym.run(exe, "chain", seed, vals, tree)
        except sym.Crash as e: rep.ob("DecayChainStack", "an event is proposed (%s)" % tag, False, "replay", why=str(e)); return
        J = T.json["nodes"]; got = [frozenset(j["lfs"]) | frozenset(j["rfs"]) for j in J]; inp = dict(function="DecayChainStack", chain=tree, masses=vals, seed=seed)
        kids = {k: sorted(sorted(leaves(c)) for c in n.kids) for k, n in exp.items()}
        if set(got) != set(exp) or len(got) != len(exp) or any(sorted([sorted(j["lfs"]), sorted(j["rfs"])]) != kids[g] for j, g in zip(J, got)):
            bad.append(dict(inp, obligation="every step of the decay lists the final states of its two branches", got=J, expected=list(kids.values()))); return
        sh = {"s": 1.1}; v = [float(x) for x in vals.split(",")]
        for i in range(N): sh["m%d" % i] = v[1 + i]
        for i, _ in [(k, n) for k, n in enumerate(T.N) if n[0] == "v"]: pass
        for k in T.out:
            for i, x in T.out[k]:
                if T.N[i][0] == "v": sh[T.N[i][1]] = x
        def mm(n): return sum(sh["m%d" % l] for l in leaves(n)) if not qs(n) else None
        def qs(n): return not isinstance(n, int) and n.kind == "q" and n is not B
        def qleaves(n):   # final states as a quasi-stable system
            r = []
            for c in (n.kids if not isinstance(n, int) else []):
                r += [c] if isinstance(c, int) or qs(c) else qleaves(c)
            return r
        for n in nodes(B): sh.setdefault("G_" + n.name, .2 if n.name == "NonResS0" else .15); sh.setdefault("M_" + n.name, .9 if n.name == "NonResS0" else v[0] if n is B else math.fsum(sh["m%d" % c] if isinstance(c, int) else sh.setdefault("M_" + c.name, math.fsum(sh["m%d" % l] for l in leaves(c)) + .11) for c in qleaves(n)) + .11)
        wt = T.shadow("weight")[0]; mx = T.shadow("max")[0]; ss = T.shadow("state"); pos = {frozenset([i]): i for i in range(N)}
        for i, g in enumerate(got): pos[g] = N + i
        par = [(N + i, pos[frozenset(j["lfs"])], pos[frozenset(j["rfs"])]) for i, j in enumerate(J)]
        phys = all(ss[a] > (math.sqrt(abs(ss[b])) + math.sqrt(abs(ss[c]))) ** 2 for a, b, c in par)
        want = math.sqrt(max(0, math.prod(rho2f(ss[a], ss[b], ss[c]) for a, b, c in par))) if phys else 0.
        if not abs(wt - want) < 1e-9: bad.append(dict(inp, obligation="the weight of a proposal is the product of the two-body phase space factors, zero outside the physical region", invariants=ss, got=wt, expected=want)); continue
        if not wt <= mx * (1 + 1e-12): bad.append(dict(inp, obligation="no proposal has a weight above the maximum", invariants=ss, weight=wt, maximum=mx))
        for (a, b, c), g in zip(par, got):
            n = exp[g]; lo, hi = T.shadow("range%d" % (a - N)); need = None
            if n is B or qs(n): continue
            low = math.fsum(sh["m%d" % l] if isinstance(l, int) else sh["M_" + l.name] for l in qleaves(n)) ** 2
            need = (low, (v[0] - math.fsum(v[1:]) + math.fsum(sh["m%d" % l] for l in leaves(n))) ** 2) if not any(qs(x) for x in nodes(B)) else (low, low)
            if lo > need[0] + 1e-9 or hi < need[1] - 1e-9: bad.append(dict(inp, obligation="the range of every invariant covers what is kinematically allowed", system=sorted(g), got=[lo, hi], allowed=list(need)))
        ev = T.shadow("ev"); P = [ev[4 * i:4 * i + 4] for i in range(N)]; conc = []
        if wt > 0:
            sums = add(P)
            ok_state += 1
            for a in range(2 * N - 1):
                S = [a] if a < N else sorted(got[a - N]); q = add([P[i] for i in S])
                if not abs(M4(q, q) - ss[a]) < 1e-9 * (1 + q[3] ** 2): conc.append("the invariant mass squared of %s is %r, not %r" % (S, M4(q, q), ss[a]))
            for k in range(4):
                if not abs(sums[k] - (math.sqrt(ss[N + 0]) if k == 3 else 0)) < 1e-9: conc.append("sum of component %d is %r" % (k, sums[k]))
            if ev[4 * N] != -77: conc.append("writes past the event")
            if conc: bad.append(dict(inp, obligation="an event has the invariants of the proposal and the momentum of the mother at rest", momenta=P, why=conc[:3])); continue
        R = None
        for att in range(6):
            W = sym.World2(seed + 31 * att, lambda n: sh.get(n, .7 if n[0] != "p" else None))
            W.sh = lambda n: sh[n] if n in sh else (math.sin(1.3 * int(n[1:])) + (3 if int(n[1:]) % 4 == 3 else 0)) if n[0] == "p" else .5
            try: R = chain_decide(W, T, N, par, got, exp, B, wt, seed); break
            except (sym.NoRoot, uf.Zero): continue
        if R is None: rep.notes.append("DecayChainStack %s: no point of the field has the square roots needed" % tag); continue
        for k, (st, n, *dev) in R.items():
            if st: rep.ob_many("DecayChainStack", k + " (%s)" % tag, n, "F_p2-identity")
            elif dev and dev[0] > 1e-6: bad.append(dict(inp, obligation=k, deviation=dev[0], why="not an identity, and different at this input"))
            else: undec.append(("DecayChainStack", tag, k))
    if not ok_state: rep.notes.append("DecayChainStack %s: no proposal inside the physical region" % tag)
def chain_decide(W, T, N, par, got, exp, B, wt, seed):
    R = {}; st = W.run(T, T.ids("state")); V = None
    R["the masses of the final states are the masses of the particles"] = (all((st[i] - W.v("m%d" % i) * W.v("m%d" % i)).zero() for i in range(N)), N)
    if wt > 0:
        w = W.run(T, T.ids("weight"))[0]; pr = W.c(1)
        for a, b, c in par: pr = pr * rho2(W, st[a], st[b], st[c])
        R["the weight is the product of the two-body phase space factors"] = ((w * w - pr).zero(), 1)
        tree_hints(W, T, N, par, st)
        V = W.run(T, T.ids("ev")[:4 * N]); P = [V[4 * i:4 * i + 4] for i in range(N)]
        R["every system of an event has the invariant mass proposed"] = (all((sumsq(W, P, [a] if a < N else got[a - N]) - st[a]).zero() for a in range(2 * N - 1)), 2 * N - 1)
        S = add(P); rt = W.sqrt(st[N]); R["the momenta add up to the mother at rest"] = (all((S[k] - (rt if k == 3 else W.c(0))).zero() for k in range(4)), 4)
        # directions: in the frame of each system, one draw gives the cosine with a fixed axis and another the azimuth.  The event is built from the innermost system outwards
        # by boosts along the new directions, so the direction of a branch in the frame of its mother is fixed by the two draws: check it for the outermost step, and for each inner step by its first momentum
        k = T.json["k"]; us = [T.N[i][1] for i in T.ids("u")][k:]; ok = True; cnt = 0; one = W.c(1); used = set()
        def rest(p, Q, m):
            e = M4(p, Q) / m; k = (p[3] + e) / (Q[3] + m); return [p[i] - k * Q[i] for i in range(3)] + [e]
        todo = [(0, P)]
        while todo:
            i, F = todo.pop(); a, b, c = par[i]
            q = add([F[l] for l in ([b] if b < N else got[b - N])]); p2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2]; hit = False
            for n1 in us:
                if n1 in used: continue
                z = W.c(2) * W.v(n1) - one
                for x in range(3):
                    if hit or not (q[x] * q[x] - p2 * z * z).zero(): continue
                    for n2 in us:
                        if n2 == n1 or n2 in used: continue
                        C, _ = W.circle(W.c(2 * math.pi) * W.v(n2)); t = p2 * (one - z * z)
                        if any(y != x and (q[y] * q[y] - t * C * C).zero() for y in range(3)): hit = (n1, n2)
            if hit: used |= set(hit)
            ok = ok and bool(hit); cnt += 2
            for d in (b, c):
                if d >= N: S = got[d - N]; Q = add([F[l] for l in S]); m = W.sqrt(st[d]); todo.append((d - N, {l: rest(F[l], Q, m) for l in S}))
        R["every step is isotropic in the rest frame of its system, from draws of its own"] = (ok, cnt)
    # nodes: the value drawn has the density stated, over the whole range
    g = W.run(T, T.ids("gen"))[0]; PP = [[W.v("p%d" % (4 * i + k)) for k in range(4)] for i in range(N)]; prod = W.c(1)
    for i, sset in enumerate(got):
        did = T.ids("dens%d" % i)[0]; old = W.var.get("s"); W.var["s"] = sumsq(W, PP, sset); prod = prod * W.run(T, [did])[0]
        if T.json["nd%d" % i] == 1:
            s, ds = W.deriv(T, T.ids("draw%d" % i)[0], "u0"); W.var["s"] = s; d = W.run(T, [did])[0]
            lo, hi = W.run(T, T.ids("range%d" % i)); u = W.var["u0"]
            W.var["u0"] = W.c(0); a = W.run(T, T.ids("draw%d" % i))[0]; W.var["u0"] = W.c(1); b = W.run(T, T.ids("draw%d" % i))[0]; W.var["u0"] = u
            R["the invariant of a system is drawn with the density stated, over its range (%s)" % sorted(sset)] = ((ds * d - W.c(1)).zero() and (a - lo).zero() and (b - hi).zero(), 3, max(abs(ds.x * d.x - 1), abs(a.x - lo.x), abs(b.x - hi.x)))
        elif T.json["nd%d" % i] == 0:
            a = W.run(T, T.ids("draw%d" % i) + [did]); n = exp[sset]
            R["a stable system has its mass (%s)" % sorted(sset)] = ((a[0] - W.v("M_" + n.name) * W.v("M_" + n.name)).zero() and (a[1] - W.c(1)).zero(), 2)
        if old is None: W.var.pop("s", None)
        else: W.var["s"] = old
    R["the density of an event is the product of the densities of its systems"] = ((g - prod).zero(), 1, abs(g.x / prod.x - 1) if prod.x else 0)
    mx = W.run(T, T.ids("max"))[0]; pr = W.c(1); rg = [W.run(T, T.ids("range%d" % i)) for i in range(N - 1)]
    for a, b, c in par: pr = pr * rho2(W, rg[a - N][1], rg[b - N][0] if b >= N else st[b], rg[c - N][0] if c >= N else st[c])
    R["the maximum weight is reached at the largest invariant and smallest branches"] = ((mx * mx - pr).zero(), 1)
    return R
MIX = [("2.0,0.494,0.14,0.135,0.14", "q:H[w:A[0,1],w:B[2,3]];q:H[0,w:C[1,w:B[2,3]]]", "0123", 0, 2), ("2.0,0.494,0.14,0.135,0.14", "q:H[w:A[0,1],w:B[2,3]];q:H[w:A[0,1],w:B[2,3]];q:H[f:E[w:B[2,3],1],0]", "0123", 0, 2),
       ("2.0,0.494,0.14,0.135,0.14", "q:H[w:A[0,1],w:B[2,3]]", "0123/0321", 1, 2), ("2.0,0.494,0.14,0.135,0.14", "q:H[w:A[0,1],w:B[2,3]];q:H[w:A[w:B[1,2],0],3]", "0123/0321", 0, 4), ("2.0,0.494,0.14,0.135", "q:H[w:A[0,1],2];q:H[0,f:B[1,2]];q:H[w:C[0,2],1]", "012", 0, 3)]
def mixtures(rep, exe, deep, seed, bad, undec):
    for vals, ch, o, one, size in MIX:
        for k in range(10 if deep else 5):
            opt = k % 2   # weights of the channels: equal, as at the start, or different, as after an optimisation
            a = ("mixture", seed + 7 * k, vals, ch, o, one, opt); inp = dict(function="TreePhaseSpace", chains=ch, masses=vals, orderings=o, seed=a[1])
            try: T = sym.run(exe, *a)
            except sym.Crash as e: rep.ob("TreePhaseSpace", "an event is made (%s)" % ch, False, "replay", why=str(e)); break
            n = T.json["size"]; mx = [T.shadow("max%d" % i)[0] for i in range(n)]; wm = T.shadow("wmax")[0]; PR = "prob2" if opt else "prob"; pr = T.shadow(PR); each = T.shadow("each"); g = T.shadow("gen")[0]
            if n != size: bad.append(dict(inp, obligation="one generator for each distinct chain and ordering", got=n, expected=size)); break
            if wm < max(mx) * (1 - 1e-12): bad.append(dict(inp, obligation="the bound of the accept-reject step is not below the maximum weight of any chain", bound=wm, maxima=mx)); break
            if not abs(g - sum(p * e for p, e in zip(pr, each))) < 1e-9 * abs(g) or len(each) != n or len(pr) != n or not abs(sum(pr) - 1) < 1e-12: bad.append(dict(inp, obligation="the density of an event is the mixture of the densities of the chains", got=g, probabilities=pr, each=each)); break
            rep.ob_many("TreePhaseSpace", "the bound is not below any maximum; distinct chains are counted once (%s)" % ch, 2, "term")
            sh = {"s": 1.1}
            for key in T.out:
                for i, x in T.out[key]:
                    if T.N[i][0] == "v": sh[T.N[i][1]] = x
            W = sym.World2(seed, lambda q: sh.get(q, .4)); 
            try:
                V = W.run(T, T.ids("gen") + T.ids(PR) + T.ids("each")); s = W.c(0)
                for i in range(n): s = s + V[1 + i] * V[1 + n + i]
                if (V[0] - s).zero() and (opt or all((V[1 + i] - V[1]).zero() for i in range(n))): rep.ob_many("TreePhaseSpace::makeEvent", "the density of an event is the mixture of the densities of the chains (%s)" % ch, 1 + n, "F_p2-identity")
                else: undec.append(("TreePhaseSpace", ch, "mixture density"))
            except (sym.NoRoot, uf.Zero): rep.notes.append("TreePhaseSpace %s: no point with the roots needed" % ch)
            # the last acceptance comparison: weight of the event against draw x bound, accepted when not below
            us = {T.N[i][1]: x for i, x in T.out["u"]}; e = T.shadow("ev"); N = len(vals.split(",")) - 1; hit = False
            def weight(tr):
                w = 1.
                for nd in nodes(binary(tr)):
                    inv = [(lambda q: M4(q, q))(add([e[4 * l:4 * l + 4] for l in leaves(x)])) for x in [nd] + nd.kids]; w *= rho2f(*inv)
                return math.sqrt(max(w, 0))
            def permuted(tr, p): return p[tr] if isinstance(tr, int) else Nd(tr.kind, tr.name, [permuted(x, p) for x in tr.kids])
            ws = [weight(permuted(parse(c), [int(x) for x in q])) for c in ch.split(";") for q in o.split("/")]
            if not any(abs(w) > 0 for w in ws): continue
            lim = [u * wm for u in us.values()]; acc = [w for w in ws if any(w >= l for l in lim)]
            if not acc: bad.append(dict(inp, obligation="an event is accepted only if its weight exceeds a draw times the bound", weights=ws, draws=list(us.values()), bound=wm))
    for w in [[1], [1, 1], [1, 2, 5], [5, 1, 1, 1], [.1, .2, .3, .4], [3, 0, 1], [1] * 7, [7, 1, 3, 2, 9, 4, 1]] + ([[i + 1 for i in range(k)] for k in (11, 16)] if deep else []):
        try: T = sym.run(exe, "dice", *w)
        except sym.Crash as e: rep.ob("DiscreteDistribution", "a table is made (%s)" % w, False, "replay", why=str(e)); continue
        N = len(w); bk = T.json["buckets"]; cut = T.shadow("cut"); grid = T.json["grid"]; tot = float(sum(w)); inp = dict(function="DiscreteDistribution", weights=w)
        fr = [grid.count(j) / 4000. for j in range(N)]
        if any(abs(f - x / tot) > 2. * N / 4000 for f, x in zip(fr, w)) or len([g for g in grid if not 0 <= g < N]): bad.append(dict(inp, obligation="each index is drawn with its probability", frequencies=fr, expected=[x / tot for x in w])); continue
        if T.json["range"] != [0, N - 1]: bad.append(dict(inp, obligation="the indices drawn are those of the weights", got=T.json["range"]))
        if len(bk) != N: undec.append(("DiscreteDistribution", str(w), "table")); continue
        L = {j: [] for j in range(N)}; num = {j: 0. for j in range(N)}; W = sym.World2(seed, dict(("w%d" % i, x) for i, x in enumerate(w)).get)
        for i in range(N): W.v("w%d" % i); W.var["w%d" % i] = W.v("w%d" % w.index(w[i]))   # equal weights stay equal: a table may depend on a tie
        C = W.run(T, T.ids("cut")); Z = {j: W.c(0) for j in range(N)}; fine = True
        for i, (a, b) in enumerate(bk):
            width = W.c(1) / W.c(N)
            if a == b: Z[a] = Z[a] + width; continue
            x = C[i] - W.c(i) / W.c(N); fine = fine and -1e-12 <= cut[i] - i / N <= 1. / N + 1e-12; Z[a] = Z[a] + x; Z[b] = Z[b] + width - x
        S = W.c(0)
        for i in range(N): S = S + W.v("w%d" % i)
        if fine and all((Z[j] - W.v("w%d" % j) / S).zero() for j in range(N)): rep.ob_many("DiscreteDistribution", "the table gives each index its probability (%s)" % w, N, "F_p-identity")
        else: undec.append(("DiscreteDistribution", str(w), "probabilities"))
def trees(rep, exe, deep, seed, bad, undec):
    for v, t in CHAINS: chain_case(rep, exe, v, t, [seed * 13 + k for k in range(8 if deep else 4)], bad, undec)
    mixtures(rep, exe, deep, seed, bad, undec)
EXEC = [("phsp", "D0 K+ K-"), ("phsp", "D0 K+ K- pi0"), ("phsp", "D0 K+ pi- pi+ pi-"), ("phsp", "B+ K+ K- pi0 pi+ pi-"), ("phsp", "B+ gamma0 gamma0 pi+"),
        ("tree", "D0 K+ pi- pi+ pi-", "D0{NonResS0{K+,pi-},NonResS0{pi+,pi-}};D0{K*(892)0{K+,pi-},rho(770)0{pi+,pi-}}"), ("tree", "D0 K+ pi- pi+ pi0", "D0{K*(892)0{K+,pi-},rho(770)+{pi+,pi0}};D0{NonResS0{NonResS0{pi+,pi0},K+},pi-}"),
        ("tree", "D0 K+ pi- pi+ pi0", "D0{NonResS0{K+,pi-},NonResS0{pi+,pi0}};D0{K(1)(1270)+{rho(770)+{pi+,pi0},K+},pi-};D0{K*(892)0{K+,pi-},rho(770)+{pi+,pi0}}"), ("tree1", "D0 K+ pi- pi+ pi-", "D0{NonResS0{K+,pi-},NonResS0{pi+,pi-}}"),
        ("dflt", "D0 K+ K- pi0", "D0{K*(892)+{K+,pi0},K-};D0{phi(1020)0{K+,K-},pi0};D0{NonResS0{K-,pi0},K+}"), ("tree", "D0 K+ K- pi0", "D0{NonResS0{K-,pi0},K+};D0{phi(1020)0{K+,K-},pi0}"), ("tree", "B+ K+ K- pi0 pi+ pi-", "B+{K-,pi0,pi+,K+,pi-};B+{phi(1020)0{K+,K-},rho(770)+{pi0,pi+},pi-}"),
        ("rec", "Lambda(b)0 p+ pi- K+ K-", "Lambda(b)0{Lambda0{p+,pi-},K+,K-}"), ("rec", "B0 pi0 K- pi+ K+ pi-", "B0{D0{K-,pi+},Dbar0{pi-,K+},pi0}"), ("rec", "Lambda(b)0 p+ pi- K+ K-", "Lambda(b)0{K-,Lambda0{pi-,p+},K+}"), ("rec", "B+ K+ pi- pi+ pi- pi+", "B+{Dbar0{K+,pi-},pi+,pi-,pi+}"),
        ("flat", "D0 K+ K- pi0"), ("gen", "D0 K+ K- pi0", "-", "20001"), ("gen", "D0 K+ pi- pi+ pi0", "-", "5000"), ("gentree", "D0 K+ K- pi0", "D0{K*(892)+{K+,pi0},K-};D0{phi(1020)0{K+,K-},pi0};D0{NonResS0{K-,pi0},K+}", "20001")]
for _n in (6, 7):
    _f = ["pi+", "pi-"] * (_n // 2) + ["pi0"] * (_n % 2); _t = "B0 " + " ".join(_f); _p = ["NonResS0{%s,%s}" % (_f[2 * k], _f[2 * k + 1]) for k in range(_n // 2)] + _f[_n // 2 * 2:]
    while len(_p) > 2: _p = ["NonResS0{%s,%s}" % (_p[0], _p[1])] + _p[2:]
    EXEC += [("phsp", _t)] + ([("tree", _t, "B0{%s}" % ",".join(_p))] if _n == 6 else [])
def executed(rep, deep, seed):
    """bounded: histograms of generated events against an independent weighted generator"""
    try: exe = build.rharness("gen", opt=("-O1",))
    except build.BuildError as e: rep.notes.append("executed events not compared: " + str(e)[-200:]); return None
    n = 200000 if deep else 40000; cnt = {"phsp": 1., "tree": 1., "tree1": 1., "dflt": 1., "rec": .5, "flat": .25, "gen": .25, "gentree": .25}; dt = tempfile.mkdtemp(); f = os.path.join(dt, "s"); bad = []; tot = 0
    L = [[a[0], str(seed * 10 + i), str(int(n * cnt[a[0]] * (.001 if a[1].count(" ") > 5 else 1)) // 2 * 2 + 1), *a[1:]] for i, a in enumerate(EXEC)]
    open(f, "w").write("\n".join("\t".join(a) for a in L) + "\n")
    try:
        t = subprocess.run([exe], env=dict(os.environ, H_SCRIPT=f, OMP_NUM_THREADS="2"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600).stdout.decode(errors="replace"); out = json.loads(t[t.index('{"0"'):])
    except Exception as e: rep.notes.append("executed events: " + str(e)[-200:]); return None
    finally: os.remove(f); os.rmdir(dt)
    low = 0.
    for i, a in enumerate(L):
        r = out.get(str(i), {}); inp = dict(function={"phsp": "PhaseSpace", "rec": "RecursivePhaseSpace", "flat": "Generator<PhaseSpace>::generate", "gen": "Generator<PhaseSpace>::fillEventList", "gentree": "Generator<TreePhaseSpace>::fillEventList"}.get(a[0], "TreePhaseSpace"), event_type=a[3], chains=a[4] if len(a) > 4 else "", seed=int(a[1]), events=int(a[2]))
        if "crash" in r and r["crash"] == 14: rep.notes.append("executed events: no answer for %s" % a); continue
        if "crash" in r or "exception" in r or "mass" not in r: bad.append(dict(inp, obligation="events are generated", got=r)); continue
        tot += int(a[2]); num = lambda x: 1e9 if isinstance(x, str) else x
        if num(r["mass"]) > 1e-9 or num(r["sum"]) > 1e-9 or num(r.get("inner", 0)) > 1e-9: bad.append(dict(inp, obligation="momenta are on their mass shells and add up to the mother at rest", deviation_mass2=r["mass"], deviation_sum=r["sum"], deviation_intermediate=r.get("inner"), event=r["event"])); continue
        if "count" in r and r["count"] != int(a[2]): bad.append(dict(inp, obligation="as many events as asked for", got=r["count"]))
        if num(r.get("pdf", 0)) > 1e-12: bad.append(dict(inp, obligation="an accepted event carries the density of the model", deviation=r["pdf"]))
        if num(r["log10p"]) < -9: bad.append(dict(inp, obligation="events are distributed as stated", observable=r["worst"], log10_probability=r["log10p"]))
        low = min(low, num(r["log10p"]))
    rep.explored(evaluations=tot, distinct=len(L), rule="seeded generation; one-dimensional projections in 20 bins against an independent weighted generator, violation below probability 1e-9", samples=[" ".join(a) for a in L[:4]]); rep.extra["lowest_log10_probability"] = low
    return bad
def run(rep, deep, seed):
    bad = []; undec = []
    for name, f in (("phsp", lambda e: (phase_space(rep, e, deep, seed, bad), kinematics(rep, e, deep, seed, bad))), ("tree", lambda e: trees(rep, e, deep, seed, bad, undec))):
        try: exe = sym.harness(name)
        except build.BuildError as e: rep.notes.append("symbolic harness %s does not build on this tree, its obligations are left to the executed comparison: %s" % (name, str(e)[-300:])); continue
        f(exe)
    undec += rep.extra.pop("undecided", [])
    ex = executed(rep, deep, seed)
    for b in bad: f, o = b.pop("function"), b.pop("obligation", None) or b.get("why", ""); rep.violate(f, o, True, b.pop("why", "real code on a concrete input") if isinstance(b.get("why"), str) else str(b.pop("why", "real code on a concrete input")), **b)
    if ex is not None: rep.bound("generated events", "mass shells, conservation and distributions of generated events", rep.extra.get("evaluations", 0), "%d event types and decay chains, %d observables each at most, seeded" % (len(EXEC), 50), [{k: v for k, v in b.items()} for b in ex])
    for u in sorted(set(undec))[:40]: rep.notes.append("%s (%s): '%s' is not decided by the field argument; left to the executed comparison" % u)
    rep.functions += ["PhaseSpace::setDecay", "PhaseSpace::fill", "PhaseSpace::makeEvent", "PhaseSpace::rotate", "PhaseSpace::q", "boost", "rotate", "rotateBasis", "HelicityCosine", "MomentumTransfer", "dotProduct", "acoplanarity", "PHI", "phi", "DecayChainStack::DecayChainStack", "DecayChainStack::proposal", "DecayChainStack::fill_from_state", "DecayChainStack::genPdf", "DecayChainStack::Node", "TreePhaseSpace::initialise_weights", "fill_event", "DiscreteDistribution::create_buckets", "DiscreteDistribution::operator()"]
    rep.trusted += ["random numbers are independent and uniform (TRandom)", "Particle is replaced by a stand-in with its contract (names, masses, daughters) in the symbolic harness of the tree generator", "RecursivePhaseSpace and Generator are exercised on executed events only"]
    rep.std_assumptions()
