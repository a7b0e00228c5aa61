"""Obligation groups over the terms exported by a harness, and the driver that discharges them."""
import shutil, os, json, random, time, math, tempfile, subprocess, itertools
import alg, build
from alg import Exact, Modp, FloatDom, Timeout, Undecided, NeedDecision, Retry, eval_nodes

class T:
    """tensor view of an exported output: flat list of elements + dims"""
    def __init__(self, el, dims): self.el = el; self.dims = dims
    def __getitem__(self, ix):
        if not isinstance(ix, tuple): ix = (ix,)
        k = 0
        for i, d in zip(ix, self.dims): k = k * d + i
        return self.el[k]
    def __len__(self): return len(self.el)
    def mat(self):
        n, m = self.dims
        return [[self.el[i * m + j] for j in range(m)] for i in range(n)]

class O:
    """environment handed to an obligation function"""
    def __init__(self, D, get): self.D = D; self._get = get; self.meta = {}
    def v(self, n): return self.D.var(n)
    def q(self, a, b=1): return self.D.q(a, b)
    def I(self): return self.D.I()
    def sqrt(self, x): return self.D.sqrt(x)
    def pos(self, x): self.D.require_pos(x)
    def __getitem__(self, n): return self._get(n)

class Group:
    """contract of one harness case.
    name: function(s) under contract; case: harness case; vars: symbolic inputs
    fn(o) -> iterable of (obligation name, lhs, rhs)    [ensures]
    sample(rng) -> env dict meeting the precondition     [requires]; used for vacuity and replay
    pre(o) optional: registers sqrt/positivity preconditions (exact domain)"""
    def __init__(self, name, case, vars, fn, sample=None, pre=None, tol=1e-7, nsamp=40, budget=120, funcs=(), maxgens=24, requires="", paths=None, modp=False, dom=None, peval=False, numeric_only=False, ntrace=120):
        self.ntrace = ntrace
        self.name = name; self.case = case; self.vars = list(vars); self.fn = fn; self.sample = sample; self.pre = pre
        self.tol = tol; self.nsamp = nsamp; self.budget = budget; self.funcs = list(funcs); self.maxgens = maxgens; self.requires = requires; self.modp = modp; self.dom = dom; self.peval = peval; self.numeric_only = numeric_only; self.paths = paths

def default_sample(vars):
    def s(rng): return {v: rng.uniform(-2, 2) for v in vars}
    return s

def run_harness(exe, args=(), timeout=600, env=None):
    extra = env or {}
    fd, out = tempfile.mkstemp(prefix="hout", dir=build.BUILD); os.close(fd)
    wd = tempfile.mkdtemp(prefix="hwd", dir=build.BUILD)
    try:
        env = dict(os.environ); env.update(extra); env["H_OUT"] = out; env["OMP_NUM_THREADS"] = "2"; env["AMPGENROOT"] = build.REPO
        r = subprocess.run([exe] + list(args), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=wd, errors="replace", text=True)
        try:
            with open(out) as f: d = json.load(f)
        except Exception as e:
            if r.returncode == 127: raise build.BuildError("harness does not load: " + r.stdout[-1000:])
            return {"recs": [], "nodes": [], "crash": "exit %d: %s" % (r.returncode, r.stdout[-2000:])}
        if r.returncode == 127: raise build.BuildError("harness does not load: " + r.stdout[-1000:])
        if r.returncode: d["crash"] = "exit %d: %s" % (r.returncode, r.stdout[-2000:])
        d["stdout"] = r.stdout[-4000:]
        return d
    except subprocess.TimeoutExpired:
        return {"recs": [], "nodes": [], "crash": "timeout"}
    finally:
        try: os.remove(out)
        except OSError: pass
        shutil.rmtree(wd, ignore_errors=True)
        subprocess.run(["rm", "-rf", wd])

def feq(a, b, tol):
    a = complex(a); b = complex(b)
    if a != a or b != b: return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

class Result:
    def __init__(self): self.obs = []; self.functions = []; self.violations = []; self.notes = []; self.solver_s = 0.0
    # obs: dict(name, status: proved|randomised|numeric|failed, backend, s)

def group_float(g, outs, env):
    """evaluate the contract on the numbers the real code computed; -> list of failing (name, lhs, rhs)"""
    D = FloatDom(env)
    def get(n):
        if n not in outs: raise KeyError(n)
        r = outs[n]
        if "num" in r: return complex(float(r["num"]))
        el = [complex(float(v[0]), float(v[1])) for v in r["val"]]
        return T(el, r["dims"]) if r["dims"] else el[0]
    bad = []; n = 0
    try:
        for nm, l, r in g.fn(O(D, get)):
            n += 1
            if not feq(l, r, g.tol): bad.append((nm, l, r))
    except (IndexError, ValueError, TypeError) as e:
        bad.append(("output has the specified shape", repr(e), ""))
    return bad, n

def discharge(pid, exe, groups, seed=1, deep=False, log=print):
    R = Result()
    import concurrent.futures as cf
    cases = sorted(set(g.case for g in groups))
    with cf.ThreadPoolExecutor(8) as ex: exports = dict(zip(cases, ex.map(lambda c: run_harness(exe, [c]), cases)))
    bycase = {}; nodes = {}
    for c, d in exports.items():
        bycase[c] = {r["out"]: r for r in d["recs"]}; nodes[c] = d["nodes"]
        if "crash" in d: R.notes.append("harness case %s: %s" % (c, d["crash"][:400]))
    rng = random.Random(seed)
    # ---- numeric stage: real code at concrete inputs satisfying the preconditions
    fails = {}
    def numeric(g, n, sd):
        rg = random.Random(sd)
        smp = g.sample or default_sample(g.vars)
        envs = [smp(rg) for _ in range(n)]
        if g.peval:
            # leaves are created inside the code under contract: evaluate its exported term at the input
            bad = []; cnt = 0
            for e in envs:
                D = FloatDom(e); memo = {}; outs = bycase[g.case]
                def get(n):
                    if n not in outs: raise KeyError(n)
                    r = outs[n]
                    if "num" in r: return complex(float(r["num"]))
                    el = eval_nodes(nodes[g.case], r["ids"], D, memo)
                    el = [complex(1 if x.v else 0) if isinstance(x, alg.Bool) else x for x in el]
                    return T(el, r["dims"]) if r["dims"] else el[0]
                try:
                    for nm, l, r in g.fn(O(D, get)):
                        cnt += 1
                        if not feq(l, r, g.tol): bad.append((e, nm, l, r))
                except KeyError as ex: bad.append((e, "missing output", str(ex) + exports[g.case].get("crash", ""), ""))
                except (IndexError, ValueError, TypeError) as ex: bad.append((e, "output has the specified shape", repr(ex), ""))
                except (ZeroDivisionError, Undecided): continue
            return bad, cnt
        fd, fn = tempfile.mkstemp(prefix="env", dir=build.BUILD); os.close(fd)
        with open(fn, "w") as f:
            for e in envs:
                for k, v in e.items(): f.write("%s %.17g\n" % (k, v))
                f.write("---\n")
        dd = run_harness(exe, ["--envs", fn, g.case]); os.remove(fn)
        per = {}
        for r in dd["recs"]: per.setdefault(r["env"], {})[r["out"]] = r
        if "crash" in dd and not per:
            return [(envs[0], "crash", dd["crash"], "")], 0
        bad = []; cnt = 0
        for i, e in enumerate(envs):
            if "!exception" in per.get(i, {}): bad.append((e, "exception", per[i]["!exception"]["str"], "")); continue
            try:
                b, n_ = group_float(g, per.get(i, {}), e); cnt += n_
            except KeyError as ex:
                if "crash" in dd: bad.append((e, "crash", dd["crash"], "")); break
                bad.append((e, "missing output", str(ex), "")); continue
            except ZeroDivisionError: continue
            for nm, l, r in b: bad.append((e, nm, l, r))
        return bad, cnt
    with cf.ThreadPoolExecutor(8) as ex:
        fut = {g.name: ex.submit(numeric, g, g.nsamp * (4 if deep else 1), seed * 7919 + i) for i, g in enumerate(groups)}
    for g in groups:
        bad, cnt = fut[g.name].result()
        if bad: fails[g.name] = bad
        if cnt == 0 and not bad: R.notes.append("vacuity: no sample satisfied the precondition of " + g.name)
    # ---- proof stage
    for g in groups:
        if g.numeric_only:
            bad = fails.get(g.name, [])
            R.obs.append(dict(group=g.name, name="(contract at sampled inputs)", status="failed" if bad else "bounded", backend="replay", s=0))
            for e, nm, l, r in bad[:5]: R.violations.append(dict(group=g.name, case=g.case, obligation=nm, env=e, lhs=str(l), rhs=str(r), why="real code at concrete input", found=True, functions=g.funcs))
    groups = [g for g in groups if not g.numeric_only]
    results = parallel_prove(groups, nodes, bycase, seed)
    for g, res in zip(groups, results):
        R.functions += g.funcs
        nb = fails.get(g.name)
        numeric_bad = {}
        for e, nm, l, r in (nb or []): numeric_bad.setdefault(nm, (e, l, r))
        names = set()
        for o in res["obs"]:
            names.add(o["name"])
            o["group"] = g.name
            if o["name"] in numeric_bad and o["status"] in ("proved", "randomised"):
                # real code's numbers disagree with a proved identity: only rounding could do this; report it
                e, l, r = numeric_bad[o["name"]]
                o["status"] = "failed"; o["why"] = "real code at concrete input disagrees"
            if o["status"] == "failed":
                if numeric_bad:
                    k = o["name"] if o["name"] in numeric_bad else next(iter(numeric_bad))
                    e, l, r = numeric_bad[k]
                    R.violations.append(dict(group=g.name, case=g.case, obligation=o["name"], witness_obligation=k, env=e, lhs=str(l), rhs=str(r), why=o.get("why", ""), found=True, functions=g.funcs))
                else:
                    # no concrete disagreement at any sampled input: the normal form is not complete for nested roots
                    if o.get("path_sampled", True):
                        o["status"] = "numeric"; R.notes.append("%s: %s not re-proved (%s); held at every sampled input" % (g.name, o["name"], o.get("why", "")))
                    else:
                        R.violations.append(dict(group=g.name, case=g.case, obligation=o["name"], why=o.get("why", ""), found=False, functions=g.funcs))
            R.obs.append(o)
        for nm, (e, l, r) in numeric_bad.items():
            if nm not in names or not any(v["group"] == g.name for v in R.violations):
                R.obs.append(dict(group=g.name, name=nm, status="failed", backend="replay", s=0))
                R.violations.append(dict(group=g.name, case=g.case, obligation=nm, env=e, lhs=str(l), rhs=str(r), why="real code at concrete input", found=True, functions=g.funcs))
        if res.get("error"): R.notes.append("%s: %s" % (g.name, res["error"]))
        if not res["obs"] and not numeric_bad:
            R.notes.append("%s: no obligations generated (%s)" % (g.name, res.get("error")))
            R.obs.append(dict(group=g.name, name="(whole contract)", status="numeric", backend="replay", s=0))
        R.solver_s += res["s"]
    R.nodes = sum(len(n) for n in nodes.values())
    return R

_G = None
def _worker(i):
    groups, nodes, bycase, seed = _G
    return prove(groups[i], nodes[groups[i].case], bycase.get(groups[i].case, {}), seed)

def parallel_prove(groups, nodes, bycase, seed):
    global _G
    import multiprocessing as mp
    _G = (groups, nodes, bycase, seed)
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, max(1, len(groups)))) as p:
        return p.map(_worker, range(len(groups)), chunksize=1)

def prove(g, nodes, outs, seed):
    t0 = time.time()
    obs = {}; order = []
    err = None
    def once(D):
        memo = {}
        def get(n):
            if n not in outs: raise Undecided("output %s missing" % n)
            r = outs[n]
            if "num" in r: return D.const(float(r["num"]))
            el = eval_nodes(nodes, r["ids"], D, memo)
            el = [D.q(1 if x.v else 0) if isinstance(x, alg.Bool) else x for x in el]
            return T(el, r["dims"]) if r["dims"] else el[0]
        o = O(D, get)
        if g.pre: g.pre(o)
        return g.fn(o)
    def record(name, status, backend, why="", path=""):
        key = name
        if key not in obs: obs[key] = dict(name=name, status=status, backend=backend, paths=0, s=0.0); order.append(key)
        o = obs[key]; o["paths"] += 1
        rank = {"proved": 0, "randomised": 1, "failed": 2}
        if rank[status] > rank[o["status"]]: o["status"] = status; o["backend"] = backend
        if why: o["why"] = why
    paths = [dict()]
    fixed = None
    if g.paths == "sampled":
        # branch decisions that occur somewhere in the region the precondition describes
        rg = random.Random(seed * 31 + 7); smp = g.sample or default_sample(g.vars); fixed = {}
        ids = [i for r in outs.values() if "ids" in r for i in r["ids"]]
        for _ in range(150):
            F = FloatDom(smp(rg))
            memo = {}
            for i in ids:
                try: eval_nodes(nodes, [i], F, memo)
                except (ZeroDivisionError, OverflowError, ValueError, Undecided): pass
            fixed.setdefault(tuple(sorted(F.seen.items())), 0)
        paths = [dict(k) for k in fixed]
    concolic = g.paths == "concolic"
    if concolic:
        # decision sequences of the contract's evaluation, over the region the precondition describes
        rg = random.Random(seed * 31 + 7); smp = g.sample or default_sample(g.vars); traces = {}
        for _ in range(g.ntrace):
            F = FloatDom(smp(rg)); memo = {}
            def fget(n):
                r = outs[n]
                if "num" in r: return complex(float(r["num"]))
                el = [complex(1 if x.v else 0) if isinstance(x, alg.Bool) else x for x in eval_nodes(nodes, r["ids"], F, memo)]
                return T(el, r["dims"]) if r["dims"] else el[0]
            try:
                fo = O(F, fget)
                if g.pre: g.pre(fo)
                for _x in g.fn(fo): pass
                traces.setdefault(tuple(F.rec), 0)
            except (ZeroDivisionError, OverflowError, ValueError, Undecided, KeyError, IndexError, TypeError): continue
        paths = [list(t) for t in sorted(traces)]
    npaths = 0
    while paths:
        dec = paths.pop()
        npaths += 1
        if npaths > 256: err = "too many paths"; break
        D = g.dom() if g.dom else Exact(g.vars, g.maxgens, g.budget if not g.modp else 0.0)
        if concolic: D.trace = list(dec)
        elif fixed is not None: D.fixed = dec; D.decisions = {}
        else: D.decisions = dec
        try:
            it = iter(once(D))
            while True:
                t1 = time.time()
                try: nm, l, r = next(it)
                except StopIteration: break
                ok = D.equal(l if isinstance(l, (alg.Cx, alg.PE)) else D.q(1) * l, r if isinstance(r, (alg.Cx, alg.PE)) else D.q(1) * r)
                record(nm, "proved" if ok else "failed", "exact-normal-form", "" if ok else "normal form of lhs-rhs is not zero" + (" on path %s" % (dec if concolic else list(dec.values())) if dec else ""))
                obs[nm]["s"] += time.time() - t1
        except NeedDecision as nd:
            if fixed is not None: err = "undecided comparison outside a branch"; continue
            # undo partial records of this incomplete path: harmless (they were checked under a prefix of decisions)
            for b in (True, False):
                d2 = dict(dec); d2[nd.key] = b; paths.append(d2)
        except Timeout:
            try:
                done = 0; trial = 0
                while done < 3:
                    trial += 1
                    if trial > 4000 and time.time() - t0 > 25: raise Undecided("no F_p point with all square roots")
                    M = Modp(g.vars, seed * 1000003 + trial)
                    if concolic: M.trace = list(dec)
                    if fixed is not None: M.fixed = dec
                    try:
                        for nm, l, r in once(M):
                            ok = M.equal(l if isinstance(l, alg.Cx) else M.q(1) * l, r if isinstance(r, alg.Cx) else M.q(1) * r)
                            record(nm, "randomised" if ok else "failed", "F_p-identity (p=2^127-1, 3 points)", "" if ok else "lhs-rhs not zero in F_p")
                        done += 1
                    except (Retry, ZeroDivisionError): continue
            except Undecided as u: err = "undecided: %s" % u
        except Undecided as u:
            err = "undecided: %s" % u
        except (IndexError, ValueError, TypeError, OverflowError) as z:
            record("output has the specified shape", "failed", "exact-normal-form", repr(z))
        except ZeroDivisionError as z:
            if dec: continue   # path on which a divisor vanishes identically: outside the precondition
            err = "division by zero term: %s" % z
    return dict(obs=[obs[k] for k in order], s=time.time() - t0, error=err, paths=npaths)
