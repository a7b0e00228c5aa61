"""P26: a parameter set is a faithful, consistent record of its parameters over any history of operations."""
import tx, random, itertools
LEVEL = "exploration"
FL = ["Free", "Hide", "Fix", "CompileTimeConstant", "Blind"]
V = [0.0, 1.0, -1.0, 0.5, 2.0, -3.25, 1e-3, 7.0, 1e6, 0.1]
class P:
    def __init__(s, n, f, mean, step, lo, hi): s.n, s.f, s.init, s.step, s.lo, s.hi = n, f, mean, step, lo, hi; s.mean, s.err = mean, step; s.ix = -1; s.neg = s.pos = -9999.
    def row(s): return [s.n, s.mean, s.init, s.step, s.lo, s.hi, s.err, s.f, int(s.f == "Free"), int(s.f in ("Fix", "CompileTimeConstant")), s.mean, int(s.f == "Blind"), s.neg, s.pos]
class Model:
    def __init__(s): s.l = []; s.map = []
    def find(s, n): return next((p for p in s.l if p.n == n), None)
    def row(s, p): return p.row() if p else None
    def do(s, c):
        o = c[0]
        if o in ("m.new", "m.del"): s.l = []; s.map = []; return 1
        if o in ("m.add", "m.get"):
            if not s.find(c[1]): s.l.append(P(*c[1:]))
            return s.row(s.find(c[1]))
        if o == "m.addp":
            if s.find(c[1]): return 0
            s.l.append(P(*c[1:])); return 1
        if o == "m.addq":
            if s.find(c[1]): return 0
            s.l.append(P(c[1], "Free", *c[2:])); return 1
        if o == "m.addnull": return 0
        if o == "m.un":
            p = s.find(c[1])
            if not p: return 0
            s.l.remove(p); return 1
        if o in ("m.ren", "m.renp"):
            p = s.find(c[1])
            if not p or c[1] == c[2] or s.find(c[2]): return 0
            p.n = c[2]; return 1
        if o == "m.find": return [s.row(s.find(c[1]))] * 4
        if o == "m.val": return s.find(c[1]).mean
        if o == "m.at": return s.row(s.l[c[1]] if c[1] < len(s.l) else None)
        if o == "m.set":
            d = {}
            for n, v in zip(c[1::2], c[2::2]): d.setdefault(n, v)
            for p in s.l:
                if p.n in d: p.mean = d[p.n]
            return 1
        if o == "m.reset":
            for p in s.l: p.mean, p.err = p.init, p.step; p.neg = p.pos = -9999.
            return 1
        if o == "m.map":
            s.map = c[1:]
            for i, k in enumerate(s.map): s.l[k].ix = i
            return 1
        if o == "m.minuit":
            for k, v in zip(s.map, c[1:]): s.l[k].mean = v
            return 1
        if o == "m.mstate":
            for p in s.l:
                if p.ix != -1: p.mean = c[1:][p.ix]
            return 1
        if o == "m.idx": s.l[c[1]].mean = c[2]; return c[2]
        if o == "m.dump": return dict(size=len(s.l), p=[p.row() for p in s.l])
        if o == "m.op":
            p = s.find(c[1])
            if not p: return None
            k = c[2]; a = c[3:]
            if k == "fix": p.f = "Fix"
            elif k == "free": p.f = "Free"
            elif k in ("val", "cur"): p.mean = a[0]
            elif k == "init":
                p.init = p.mean = a[0]
                if len(a) > 1: p.step = a[1]
            elif k == "lim": p.lo, p.hi = a
            elif k == "step": p.step = a[0]
            elif k == "scale": p.step *= a[0]; p.err *= a[0]
            elif k == "res": p.mean, p.err = a[:2]; p.neg, p.pos = a[2:4]; return [a[2], a[3]]
            elif k == "reset": p.mean, p.err = p.init, p.step; p.neg = p.pos = -9999.
            return p.row()
def history(rng, n):
    m = Model(); L = [["m.new"]]; W = [m.do(["m.new"])]; names = ["a", "b", "D0{K+,pi-}_Re", "D0{K+,pi-}_Im", "c_mass", "x y"]
    if n > 30: names = names + ["p%d" % i for i in range(1, 19)]
    def go(c): L.append(c); W.append(m.do(c))
    def mk(o): go([o, rng.choice(names), rng.choice(FL)] + [rng.choice(V) for _ in range(4)])
    for _ in range(n):
        o = rng.choice(["add", "addp", "addq", "addnull", "get", "un", "ren", "find", "val", "at", "set", "reset", "minuit", "mstate", "idx", "op", "op", "op", "dump"])
        if o in ("add", "addp", "get"): mk("m." + o)
        elif o == "addq": go(["m.addq", rng.choice(names)] + [rng.choice(V) for _ in range(4)])
        elif o in ("un", "find"): go(["m." + o, rng.choice(names)])
        elif o == "ren": go([rng.choice(["m.ren", "m.renp"]), rng.choice(names), rng.choice(names)])
        elif o == "val":
            if m.l: go(["m.val", rng.choice(m.l).n])
        elif o == "at": go(["m.at", rng.randrange(len(names))])
        elif o == "set": go(["m.set"] + [x for n in rng.sample(names, rng.randrange(4)) for x in (n, rng.choice(V))])
        elif o == "minuit":
            k = rng.sample(range(len(m.l)), rng.randrange(len(m.l) + 1)); go(["m.map"] + k); go(["m.minuit"] + [rng.choice(V) for _ in k])
        elif o == "mstate": go(["m.mstate"] + [rng.choice(V) for _ in range(max(6, len(names)))])
        elif o == "idx":
            if m.l: go(["m.idx", rng.randrange(len(m.l)), rng.choice(V)])
        elif o == "op":
            k = rng.choice(["fix", "free", "val", "cur", "init", "init2", "lim", "step", "scale", "res", "reset"]); na = dict(val=1, cur=1, init=1, init2=2, lim=2, step=1, scale=1, res=4).get(k, 0)
            go(["m.op", rng.choice(names), k.rstrip("2")] + [rng.choice(V) if k != "init2" else abs(rng.choice(V)) for _ in range(na)])
        else: go(["m." + o])
    go(["m.dump"])
    for x in names: go(["m.find", x])
    go(["m.del"])
    return L, W
def same(a, b):
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b
def run(rep, deep, seed):
    rng = random.Random("p26:%d" % seed); H = []
    # all histories of two structural operations over two names, each followed by a full read-out
    two = [["m.add", n, "Free", 1.0, .1, 0.0, 0.0] for n in "ab"] + [["m.addp", n, "Fix", 2.0, .2, -1.0, 1.0] for n in "ab"] + [["m.get", n, "Hide", 3.0, .3, 0.0, 5.0] for n in "ab"] + [["m.un", n] for n in "ab"] + [[o, x, y] for o in ("m.ren", "m.renp") for x in "ab" for y in "ab"] + [["m.op", "a", "fix"], ["m.op", "a", "free"], ["m.reset"], ["m.set", "a", 9.0], ["m.addq", "a", 4.0, .4, -2.0, 2.0]]
    for k in (1, 2, 3) if deep else (1, 2):
        for ops in itertools.product(two, repeat=k):
            m = Model(); L = [["m.new"], ["m.add", "a", "Free", .5, .05, 0.0, 0.0]] + [list(o) for o in ops] + [["m.dump"], ["m.find", "a"], ["m.find", "b"], ["m.del"]]
            H.append((L, [m.do(c) for c in L]))
    ne = len(H)
    for _ in range(6000 if deep else 1500): H.append(history(rng, rng.randrange(3, 25)))
    for _ in range(400 if deep else 100): H.append(history(rng, rng.randrange(60, 160)))
    A = tx.ask([h[0] for h in H]); bad = []; bad2 = []
    for (L, W), a in zip(H, A):
        if tx.bad(a): bad2.append(dict(input=L, got=a, want="no crash")); continue
        for i, (g, w) in enumerate(zip(a, W)):
            if not same(g, w): bad.append(dict(input=L[:i + 1], got=g, want=w)); break
    bad.sort(key=lambda b: len(b["input"])); bad2.sort(key=lambda b: len(b["input"]))
    rep.bound("parameter sets", "every answer after every history is the one of the recorded parameters", len(H), "all histories of up to %d structural operations over two names (%d) and %d random histories" % (3 if deep else 2, ne, len(H) - ne), bad[:3])
    rep.bound("parameter sets", "no history leads to invalid memory accesses visible as a crash, including destruction", len(H), "the same histories", bad2[:3])
    rep.functions += ["MinuitParameterSet::" + f for f in "add addToEnd addOrGet unregister rename find at operator[] operator() set resetToInit setMapping setFromMinuit setFromMinuitIndex getFromMinuitIndex size begin end ~MinuitParameterSet".split()] + ["MinuitParameter::" + f for f in "MinuitParameter fix setFree setVal setCurrentFitVal setInit setLimits setStepInit scaleStep setResult resetToInit setFromMinuitState isFree isFixed flag".split()]
    rep.explored(len(H), len(H), "histories of operations on one parameter set, compared with a list of records after every operation", [H[-1][0][:6]])
