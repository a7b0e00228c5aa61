"""Whole-decay amplitudes exported by harness/amp.cpp, evaluated exactly (F_p^2, uf.UF) or numerically under renamings of their variables."""
import os, tempfile, build, oblig, uf, sys, itertools, math, re, random
from fractions import Fraction
from concurrent.futures import ThreadPoolExecutor
sys.setrecursionlimit(200000)
def fetch(lines, timeout=800, jobs=6):
    """lines: (key, options, mode, pols, descriptor, finals) -> (nodes, {key: record}); every line names all its options"""
    exe = build.harness("amp"); parts = [x for x in (lines[i::jobs] for i in range(jobs)) if x]
    def one(ls):
        fd, p = tempfile.mkstemp(prefix="amp", dir=build.BUILD); os.close(fd)
        try:
            with open(p, "w") as f:
                for k, opt, mode, pols, d, fs in ls: f.write("\t".join([k, ";".join(opt), mode, ",".join(map(str, pols)), d] + list(fs)) + "\n")
            r = oblig.run_harness(exe, ["amps"], timeout=timeout, env={"H_SCRIPT": p})
            miss = [l for l in ls if l[0] not in {x["out"] for x in r["recs"]}]
            if miss and not r.get("crash"): r["crash"] = "no amplitude for %s" % (miss[0],)
            return r
        finally: os.remove(p)
    N = []; R = {}; crash = None
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, parts):
            o = len(N); crash = crash or r.get("crash")
            for x in r["nodes"]:
                if x[0] in ("const", "var", "cvar", "other", "null"): N.append(x)
                elif x[0] == "fn": N.append(list(x[:2]) + [c + o for c in x[2:]])
                elif x[0] == "sub": N.append([x[0], x[1] + o] + list(x[2:]))
                else: N.append([x[0]] + [c + o for c in x[1:]])
            for x in r["recs"]:
                if "ids" in x: x["ids"] = [i + o for i in x["ids"]]
                R[x["out"]] = x
    return N, R, crash
def kids(n): return n[2:] if n[0] == "fn" else n[1:2] if n[0] == "sub" else n[1:]
def reach(N, ids):
    """ids reachable from the given roots (sorted)"""
    seen = set(); st = list(ids)
    while st:
        i = st.pop()
        if i in seen: continue
        seen.add(i); n = N[i]
        if n[0] in ("const", "var", "cvar", "other", "null"): continue
        st += kids(n)
    return sorted(seen)
def values(N, roots, D):
    """value of each root in domain D (an object with the interface of uf.UF)"""
    ids = reach(N, roots); m = {i: k for k, i in enumerate(ids)}; sub = []
    for i in ids:
        n = N[i]
        if n[0] in ("const", "var", "cvar", "other", "null"): sub.append(n)
        elif n[0] == "sub": sub.append(["sub", m[n[1]]])
        elif n[0] == "fn": sub.append(list(n[:2]) + [m[c] for c in n[2:]])
        else: sub.append([n[0]] + [m[c] for c in n[1:]])
    V = D.nodes(sub)
    return [V[m[r]] for r in roots]
class Ren(uf.UF):
    """UF with the variables mapped by f: name -> (sign, name)"""
    def __init__(self, seed, f): uf.UF.__init__(self, seed); self.f = f
    def var(self, n):
        s, n = self.f(n); v = uf.UF.var(self, n)
        return v if s > 0 else self.sub((0, 0), v)
def dyadic(v, P=uf.P):
    """the field element v as a double (n/2^k, |n| < 2^54) if it is one, else None"""
    if v is None or v[1] != 0: return None
    for k in range(0, 64):
        x = v[0] * pow(2, k, P) % P
        if x > P // 2: x -= P
        if abs(x) < 1 << 54: return x / 2.0 ** k
    return None
def constant_ratio(a, b, a2, b2, D):
    """the constant c with a = c*b at both points (as float), or None when a/b is not a constant"""
    if a == (0, 0) and b == (0, 0) and a2 == (0, 0) and b2 == (0, 0): return 0.0
    if None in (a, b, a2, b2) or b == (0, 0) or b2 == (0, 0) or a == (0, 0): return None
    r = D.div(a, b)
    if r != D.div(a2, b2): return None
    c = dyadic(r)
    if c is not None: return c
    c = dyadic(D.div((1, 0), r))
    return None if c is None else 1.0 / c
def perm_sign(o, fermion):
    """sign of a permutation restricted to fermions"""
    s = 1
    for i in range(len(o)):
        for j in range(i): 
            if o[j] > o[i] and fermion[i] and fermion[j]: s = -s
    return s
def kinematics(k, masses):
    """random on-shell momenta for the given masses, as an environment"""
    rng = random.Random("kin%d" % k); e = {}
    for i, m in enumerate(masses):
        p = [rng.uniform(-0.6, 0.6) for _ in range(3)]
        for c, x in zip(("_Px", "_Py", "_Pz"), p): e["%d%s" % (i, c)] = x
        e["%d_E" % i] = math.sqrt(sum(x * x for x in p) + m * m)
    return e
def flt(env, k, f=lambda n: (1, n)):
    def g(n):
        s, n = f(n)
        if n in env: return s * env[n]
        return s * random.Random("%d;%s" % (k, n)).uniform(0.4, 1.6)
    return uf.Flt(g)
C4 = ("Px", "Py", "Pz", "E")
def momenta(e, n): return [[e["%d_%s" % (k, c)] for c in C4] for k in range(n)]
def env4(p): return {"%d_%s" % (k, c): x for k, v in enumerate(p) for c, x in zip(C4, v)}
def boostv(v, b):
    b2 = sum(x * x for x in b)
    if b2 == 0: return list(v)
    g = 1 / math.sqrt(1 - b2); bp = sum(x * y for x, y in zip(b, v[:3])); k = (g - 1) / b2
    return [v[i] + k * bp * b[i] + g * b[i] * v[3] for i in range(3)] + [g * (v[3] + bp)]
def rotv(v, ax, th):
    c, s = math.cos(th), math.sin(th); i, j = [(1, 2), (2, 0), (0, 1)][ax]; w = list(v); w[i] = c * v[i] - s * v[j]; w[j] = s * v[i] + c * v[j]; return w
def at_rest(e, n):
    """the same event seen in its centre-of-mass frame"""
    p = momenta(e, n); P = [sum(v[c] for v in p) for c in range(4)]
    return env4([boostv(v, [-P[k] / P[3] for k in range(3)]) for v in p])
class Lorentz(uf.UF):
    """UF in which the momenta are transformed by an exact (rational) sequence of rotations and boosts, at random parameters"""
    def __init__(self, seed, n, steps): 
        uf.UF.__init__(self, seed); self.m = {}; P = uf.P
        V = [[uf.UF.var(self, "%d_%s" % (k, c))[0] for c in C4] for k in range(n)]
        for a, st in enumerate(steps):
            t = uf._h(seed, "lorentz", a); t2 = t * t % P
            if st[0] == "r":
                i, j = [(1, 2), (2, 0), (0, 1)][st[1]]; d = pow(1 + t2, -1, P); c, s = (1 - t2) * d % P, 2 * t * d % P
                for v in V: v[i], v[j] = (c * v[i] - s * v[j]) % P, (s * v[i] + c * v[j]) % P
            elif st[0] == "b":
                i = st[1]; d = pow(1 - t2, -1, P); c, s = (1 + t2) * d % P, 2 * t * d % P
                for v in V: v[i], v[3] = (c * v[i] + s * v[3]) % P, (s * v[i] + c * v[3]) % P
        for k in range(n):
            for x, c in zip(V[k], C4): self.m["%d_%s" % (k, c)] = (x, 0)
    def var(self, n): return self.m.get(n) or uf.UF.var(self, n)
def event(k, masses, M):
    """random momenta in the rest frame of a parent of mass M (any M above threshold)"""
    n = len(masses); p = momenta(at_rest(kinematics(k, masses), n), n)
    if M is None or M <= sum(masses): return env4(p)
    lo, hi = 0.0, 50.0
    E = lambda a, v, m: math.sqrt(a * a * (v[0] ** 2 + v[1] ** 2 + v[2] ** 2) + m * m)
    for _ in range(200):
        a = (lo + hi) / 2
        if sum(E(a, v, m) for v, m in zip(p, masses)) < M: lo = a
        else: hi = a
    return env4([[a * v[0], a * v[1], a * v[2], E(a, v, m)] for v, m in zip(p, masses)])
