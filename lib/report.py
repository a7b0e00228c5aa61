import os, json, time, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def known():
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN "):
                parts = l.split(None, 3)   # KNOWN property=Pxx key=... text
                d = dict(x.split("=", 1) for x in parts[1:3]); d["text"] = parts[3] if len(parts) > 3 else ""
                r.append(d)
    return r

class Report:
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed; self.t0 = time.time()
        self.obs = []; self.violations = []; self.notes = []; self.functions = []; self.assumptions = []; self.trusted = []
        self.solver_s = 0.0; self.bounded = []; self.samples = 0; self.extra = {}
    def merge(self, R):
        self.obs += R.obs; self.violations += R.violations; self.notes += R.notes; self.functions += R.functions; self.solver_s += R.solver_s
    def ob(self, group, name, ok, backend, s=0.0, why="", **viol):
        """one obligation decided outside the term prover"""
        self.obs.append(dict(group=group, name=name, status="proved" if ok else "failed", backend=backend, s=s))
        if not ok:
            v = dict(group=group, obligation=name, why=why, found=True); v.update(viol); self.violations.append(v)
    def ob_many(self, group, name, count, backend):
        """count obligations of one family, all discharged"""
        for i in range(count): self.obs.append(dict(group=group, name=name, status="proved", backend=backend, s=0))
    def violate(self, group, obligation, found=True, why="", **kw):
        self.obs.append(dict(group=group, name=obligation, status="failed", backend="replay" if found else "prover", s=0))
        v = dict(group=group, obligation=obligation, why=why, found=found); v.update(kw); self.violations.append(v)
    def bound(self, group, name, n, bound, bad=()):
        """bounded stand-in: n cases executed on the real code"""
        self.bounded.append(dict(group=group, name=name, cases=n, bound=bound))
        self.obs.append(dict(group=group, name=name, status="bounded" if not bad else "failed", backend="bounded", s=0))
        for b in list(bad)[:5]:
            v = dict(group=group, obligation=name, why="real code on a concrete input", found=True); v.update(b if isinstance(b, dict) else {"input": b}); self.violations.append(v)
    def explored(self, evaluations, distinct, rule, samples):
        """what an exploration-level check executed"""
        self.extra.update(evaluations=evaluations, distinct_nontrivial=distinct, rule=rule, samples=samples)
    def std_assumptions(self):
        self.assumptions += ["machine arithmetic treated as exact real arithmetic (replay compares doubles to a tolerance)", "the value of an expression node is the one its operator()() defines (property P01)",
                             "obligations listed under F_p-identity are decided by evaluating both sides at random points of a 127-bit prime field (one-sided error below 2^-300 for these degrees), not by a normal form"]
        self.trusted += ["term exporter harness/h.h", "exact normal form (sympy polynomial ring over Q, quadratic extensions)", "F_p evaluator (lib/alg.py)", "g++"]
    def finish(self, level):
        wall = time.time() - self.t0
        ks = [k for k in known() if k["property"] == self.pid]
        real = []; hit = {}
        for v in self.violations:
            key = v.get("key") or (v.get("group", "") + "/" + v.get("obligation", "")).replace(" ", "_")
            m = [k for k in ks if k["key"] == key]
            if m: hit[m[0]["key"]] = m[0]
            else: real.append(v)
        st = {}
        for o in self.obs: st[o["status"]] = st.get(o["status"], 0) + 1
        back = {}
        for o in self.obs: back[o["backend"]] = back.get(o["backend"], 0) + 1
        nproof = sum(1 for o in self.obs if o["status"] != "bounded")
        ndis = sum(1 for o in self.obs if o["status"] in ("proved", "randomised"))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(obligations=nproof, discharged=ndis,
                                checker_cmd="python3-vt /verif/check.py %s %s" % (self.pid, self.tier),
                                trusted_base=sorted(set(self.trusted)) or ["see assumptions"],
                                by_status=st, by_backend=back, functions_under_contract=sorted(set(self.functions)),
                                solver_seconds=round(self.solver_s, 2), bounded_checks=self.bounded, notes=self.notes[:50], **self.extra),
                  assumptions=sorted(set(self.assumptions)), wall_s=round(wall, 2), violations=len(real))
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        for k in hit.values(): print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        rp = os.path.join(VERIF, "evidence", "replay", "%s.json" % self.pid)
        if real:
            with open(rp, "w") as f: json.dump(dict(property=self.pid, violations=real[:40]), f, indent=1, default=str)
        elif os.path.exists(rp): os.remove(rp)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        print("%s %s: obligations=%d discharged=%d %s bounded=%d functions=%d wall=%.1fs" % (self.pid, self.tier, nproof, ndis, st, len(self.bounded), len(set(self.functions)), wall))
        for n in self.notes[:20]: print("  note:", n)
        if nproof + len(self.bounded) == 0:
            print("no obligations generated: the check is vacuous"); return 2
        if real:
            for v in real[:8]:
                print("  failed: %s / %s  %s" % (v.get("group"), v.get("obligation"), {k: x for k, x in v.items() if k not in ("group", "obligation", "functions")}))
            found = any(v.get("found") for v in real)
            print("VIOLATION property=%s replay=%s%s" % (self.pid, rp, "" if found else " no-failing-input-found"))
            return 1
        return 0
