"""Independent reading of decay descriptors, angular-momentum selection rules and random decay trees (oracle for P17-P19, P28)."""
import random
ORB = "SPDFGHI"
def parse(s):
    """descriptor -> (name, [modifiers], [children])"""
    def node(i):
        j = i
        while j < len(s) and s[j] not in "[{},": j += 1
        name = s[i:j]; mods = []; kids = []
        if j < len(s) and s[j] == "[":
            k = s.index("]", j); mods = s[j + 1:k].split(";"); j = k + 1
        if j < len(s) and s[j] == "{":
            j += 1
            while True:
                c, j = node(j); kids.append(c)
                if s[j] == ",": j += 1; continue
                assert s[j] == "}"; j += 1; break
        return (name, mods, kids), j
    t, j = node(0)
    assert j == len(s), s
    return t
def show(t): return t[0] + ("[%s]" % ";".join(t[1]) if t[1] else "") + ("{%s}" % ",".join(map(show, t[2])) if t[2] else "")
def leaves(t): return [t[0]] if not t[2] else [x for k in t[2] for x in leaves(k)]
def ls_pairs(J, a, b, P=None):
    """allowed (L, 2S) for doubled spins J -> a b; P = product of the three parities when parity is conserved"""
    return sorted((l, s) for s in range(abs(a - b), a + b + 1, 2) for l in range(0, 40) if abs(2 * l - s) <= J <= 2 * l + s and (2 * l + s - J) % 2 == 0 and (P is None or P == (-1) ** l))
def qsum(A, B): return {tuple(x + y for x, y in zip(a, b)) for a in A for b in B}
class Table:
    def __init__(self, T):
        c = {}
        for p in T: c.setdefault(p["name"], []).append(p)
        self.p = {n: v[0] for n, v in c.items() if len(v) == 1 and v[0]["id"] != 0}
        self.ids = {p["id"]: p for p in self.p.values()}
    def quarks(self, t):
        if "NonRes" in t[0]:
            r = {(0,) * 6}
            for k in t[2]: r = qsum(r, self.quarks(k))
            return r
        return {tuple(x) for x in self.p[t[0]]["q"]}
    def strong(self, t):
        p = self.p[t[0]]
        if abs(p["id"]) in (23, 24): return False
        if "NonRes" in t[0]: return True
        r = {(0,) * 6}
        for k in t[2]: r = qsum(r, self.quarks(k))
        return bool(r & self.quarks(t))
    def pairs(self, t, parity=None):
        p, a, b = (self.p[x] for x in (t[0], t[2][0][0], t[2][1][0]))
        strong = self.strong(t) if parity is None else parity
        return ls_pairs(p["s2"], a["s2"], b["s2"], p["P"] * a["P"] * b["P"] if strong else None)
    def minL(self, t):
        if len(t[2]) != 2: return 0
        r = self.pairs(t); return r[0][0] if r else 999
    def facts(self, t, lineshapes, threshold):
        """what the tree built from t must say: (name, L, spin number, lineshape, vertex, flags, keyed modifiers)"""
        p = self.p[t[0]]; L = 0; S = 0; ls = None; vertex = ""; flags = set(); keyed = []
        for m in t[1]:
            if "=" in m: keyed.append(m)
            elif m in lineshapes: ls = m
            elif m in ("BgSpin0", "Inco", "NoSym"): flags.add(m)
            else:
                for c in m[:2] if len(m) <= 2 else "":
                    if c in ORB: L = ORB.index(c)
                    elif c.isdigit(): S = int(c)
                    else: S = 10 + ord(c)
        mL = self.minL(t)
        if L == 0: L = mL
        if ls in (None, "BW"):
            ls = "BW"
            if "NonRes" in t[0] or p["width"] < threshold: ls = "FormFactor"
            if p["photon"]: ls = "Photon"
            default = True
        else: default = False
        return (t[0], L, S, ls, tuple(sorted(flags)), tuple(keyed)), default
GOODSPIN = (0, 1, 2, 3, 4, 5, 6)
POOL = ["D0", "D+", "D(s)+", "B0", "B+", "B(s)0", "Lambda(b)0", "Lambda(c)+", "J/psi0", "psi(2S)0", "K(1)(1270)+", "K(1)(1400)0", "a(1)(1260)+", "rho(770)0", "rho(770)+", "K*(892)0", "K*(892)+", "K*(892)bar0", "K*(892)bar-", "phi(1020)0", "omega(782)0", "f(0)(980)0", "f(2)(1270)0", "f(0)(1370)0",
        "K(2)*(1430)0", "K(0)*(1430)0", "a(2)(1320)+", "K(1)(1270)bar-", "Delta(1232)++", "Lambda(1520)0", "D*(2010)+", "D*(2007)0", "NonResS0", "NonResV0", "NonResP0", "NonResA0", "pi+", "pi-", "pi0", "K+", "K-", "K0S0", "gamma0", "mu+", "mu-", "e+", "e-", "p+", "pbar-", "eta0", "eta'(958)0", "W+", "Sigma0", "Xi-", "n0", "nu(mu)0", "Sigma(c)(2455)++"]
def rand_tree(rng, T, depth, names, lineshapes, p3=0.1, mods=True, top=True):
    """random decay tree; every two-body vertex is allowed by angular momentum"""
    for _ in range(200):
        n = rng.choice(names); p = T.p.get(n)
        if p is None or p["s2"] not in GOODSPIN: continue
        if p["photon"] and depth > 0: continue
        if depth == 0: return (n, [], [])
        nk = rng.choice((3, 3, 3, 4)) if rng.random() < p3 else 2
        kids = [rand_tree(rng, T, rng.randrange(0, depth), names, lineshapes, p3, mods, False) for _ in range(nk)]
        t = (n, [], kids)
        if nk == 2 and (not T.pairs(t, False) or (T.strong(t) and not T.pairs(t))): continue
        if mods:
            w = []
            if nk == 2 and rng.random() < .4: w.append(rng.choice(ORB))
            if rng.random() < .15: w.append(str(rng.randrange(1, 10)))
            elif rng.random() < .05: w.append(rng.choice("abxyzQ"))
            if len(w) == 2 and rng.random() < .5: w = ["".join(w)]
            if rng.random() < .3: w.append(rng.choice(lineshapes))
            for f in ("BgSpin0", "Inco", "NoSym"):
                if rng.random() < .07: w.append(f)
            if rng.random() < .1: w.append("vertex=S_VV_S")
            if rng.random() < .1: w.append(rng.choice(["param=x", "k1=v2"]))
            rng.shuffle(w); t = (n, w, kids)
        return t
    return ("pi0", [], [])
def ties(t, T):
    """True when the order of some daughters is not fixed by what they are: equal names, or equal spin and mass"""
    k = [(T.p[c[0]]["s2"], bool(c[2]), T.p[c[0]]["mass"]) for c in t[2]]
    from collections import Counter
    n = Counter(c[0] for c in t[2])
    return max(list(n.values()) + [0]) > 1 or max(list(Counter(k).values()) + [0]) > 2 or any(ties(c, T) for c in t[2])
def shuffled(t, rng):
    k = [shuffled(c, rng) for c in t[2]]; rng.shuffle(k); return (t[0], t[1], k)
