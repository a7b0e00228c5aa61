"""P12: external polarisation states."""
import build, oblig, math
from oblig import Group
from phys import *
from alg import conj
LEVEL = "proof"
BUDGET = 15
X = ["0_Px", "0_Py", "0_Pz", "0_E"]
def mom(o): return [o.v(x) for x in X]
def p2(o): p = mom(o); return p[0] * p[0] + p[1] * p[1] + p[2] * p[2]
def pre(massless=False, axis=None):
    def f(o):
        D = o.D
        if axis is not None:
            D.subst = {"0_Px": D.q(0), "0_Py": D.q(0)}
            if axis: D.require_pos(o.v("0_Pz") * axis)
            else: D.subst["0_Pz"] = D.q(0); D.subst["0_E"] = o["mass"]; return
        if massless:
            P = o.sqrt(p2(o)); D.subst = dict(getattr(D, "subst", {})); D.subst["0_E"] = P
        else: D.bind("0_E", p2(o) + o["mass"] * o["mass"])
    return f
def vec(massless=False):
    def f(o):
        p = mom(o); st = ("m", "p") if massless else ("m", "z", "p")
        e = {s: o[s].el for s in st}
        for s in st:
            yield ("p.eps(%s) = 0" % s, dot(o, p, e[s]), o.q(0))
            for t in st: yield ("eps(%s)*.eps(%s) = -delta" % (s, t), dot(o, [conj(x) for x in e[s]], e[t]), o.q(-1 if s == t else 0))
        if not massless:
            m = o["mass"]
            for i in range(4):
                for j in range(4): yield ("sum over states of eps eps* = -g + p p/m^2 [%d%d]" % (i, j), S(o, (e[s][i] * conj(e[s][j]) for s in st)), (o.q(-g[i]) if i == j else o.q(0)) + p[i] * p[j] / (m * m))
        else:
            for s in st: yield ("eps0(%s) = 0" % s, e[s][3], o.q(0))
    return f
def helv(o):
    """(p.J) eps = h |p| eps on the space components, J_i = i SO3_i"""
    p = mom(o); P = o.sqrt(p2(o)); I = o.I()
    for s, h in (("m", -1), ("z", 0), ("p", 1)):
        try: e = o[s].el
        except (KeyError, oblig.Undecided): continue
        cr = [p[1] * e[2] - p[2] * e[1], p[2] * e[0] - p[0] * e[2], p[0] * e[1] - p[1] * e[0]]
        yield from eqv("helicity(%s) = %+d" % (s, h), [I * c for c in cr], [P * x * h for x in e[:3]])
def canon(o):
    """canonical (Dirac) state = rest-frame Jz eigenstate boosted along p"""
    p = mom(o); m = o["mass"]; r = o.q(1) / o.sqrt(o.q(2)); I = o.I()
    base = {"p": [-r, -r * I, o.q(0)], "m": [r, -r * I, o.q(0)], "z": [o.q(0), o.q(0), o.q(1)]}
    for s, b in base.items():
        d = p[0] * b[0] + p[1] * b[1] + p[2] * b[2]
        yield from eqv("eps(%s) is the boosted Jz eigenvector" % s, o[s].el, [b[i] + p[i] * d / (m * (p[3] + m)) for i in range(3)] + [d / m])
def spinor(sgn):
    def f(o):
        p = mom(o); m = o["mass"]; u = {s: o[s].el for s in "mp"}
        for s in "mp":
            yield from eqv("(pslash %s m) u(%s) = 0" % ("-" if sgn > 0 else "+", s), slashv(o, p, u[s]), vs(m * sgn, u[s]))
            for t in "mp": yield ("ubar(%s) u(%s)" % (s, t), S(o, (a * b for a, b in zip(bar(o, u[s]), u[t]))), o.q(sgn if s == t else 0))
        sl = slash(o, p)
        for a in range(4):
            b_ = [bar(o, u[s]) for s in "mp"]
            for b in range(4): yield ("sum over states of u ubar = (pslash +- m)/2m [%d%d]" % (a, b), S(o, (u[s][a] * bb[b] for s, bb in zip("mp", b_))), (sl[a][b] + (m * sgn if a == b else o.q(0))) / (2 * m))
    return f
def hels(o):
    p = mom(o); P = o.sqrt(p2(o))
    for s, h in (("m", -1), ("p", 1)):
        u = o[s].el
        for blk in (0, 2):
            x, y = u[blk], u[blk + 1]
            yield ("helicity(%s)[%d]" % (s, blk), p[2] * x + (p[0] - o.I() * p[1]) * y, P * x * h)
            yield ("helicity(%s)[%d]" % (s, blk + 1), (p[0] + o.I() * p[1]) * x - p[2] * y, P * y * h)
def canons(sgn):
    def f(o):
        p = mom(o); m = o["mass"]; N = o.sqrt((p[3] + m) / (2 * m))
        for s, a in (("p", 0), ("m", 1)):
            big = [o.q(1 if i == a else 0) for i in range(2)]; E = p[3] + m
            small = [(p[2] * big[0] + (p[0] - o.I() * p[1]) * big[1]) / E, ((p[0] + o.I() * p[1]) * big[0] - p[2] * big[1]) / E]
            yield from eqv("u(%s) is the boosted Jz eigenspinor" % s, o[s].el, [N * x for x in (big + small if sgn > 0 else small + big)])
    return f
def basis(o):
    r = o.q(1) / o.sqrt(o.q(2)); I = o.I(); z = o.q(0)
    yield from eqv("basisVector(+1)", o["vp"].el, [-r, -r * I, z, z])
    yield from eqv("basisVector(-1)", o["vm"].el, [r, -r * I, z, z])
    yield from eqv("basisVector(0)", o["vz"].el, [z, z, o.q(1), z])
    for k, n in (("sfp", 0), ("sfm", 1), ("sFp", 2), ("sFm", 3)): yield from eqv("basisSpinor " + k, o[k].el, [o.q(1 if i == n else 0) for i in range(4)])
def scalar(o): yield ("spin-0 state = 1", o["s"][0], o.q(1))
def run(rep, deep, seed):
    exe = build.harness("spin")
    def smp(m, axis=None):
        def f(rng):
            if axis is None: p = [rng.uniform(-2, 2) for _ in range(3)]
            elif axis == 0: p = [0, 0, 0]
            elif abs(axis) == 2:
                # close to the z axis, outside the 1e-6 guards
                t = math.exp(rng.uniform(math.log(2.5e-3), math.log(5e-2))); ph = rng.uniform(0, 2 * math.pi)
                p = [t * math.cos(ph), t * math.sin(ph), math.copysign(rng.uniform(.2, 1), axis)]
            else: p = [0, 0, axis * rng.uniform(0.05, 2)]
            return {"0_Px": p[0], "0_Py": p[1], "0_Pz": p[2], "0_E": math.sqrt(sum(x * x for x in p) + m * m)}
        return f
    gs = []
    F = ["Particle::externalSpinTensor"]
    for mt in ("", "0.5", "2"):
        m = {"": None, "0.5": 0.5, "2": 2.0}[mt]
        mass = {}
        for c in ("V", "f", "F"):
            for r in oblig.run_harness(exe, ["dirac_" + c + mt])["recs"]:
                if r["out"] == "mass": mass[c] = float(r["num"])
                if r["out"] == "mass" and m is not None and float(r["num"]) != m: rep.notes.append("mass override not effective")
        def add(nm, case, fn, m, axis=None, massless=False, near=0):
            req = "E^2 = p^2 + m^2" + {None: "", 0: ", p = 0", 1: ", p along +z", -1: ", p along -z"}[axis]
            nm = nm + {None: "", 0: " at rest", 1: " along +z", -1: " along -z"}[axis]
            if near:
                nm += ", close to the %sz axis" % ("+" if near > 0 else "-")
                gs.append(Group(nm, case + ("" if massless else mt), X, fn, smp(m, 2 * near), pre(massless), funcs=F, requires="E^2 = p^2 + m^2, 2.5e-3 < pT < 5e-2", tol=1e-6, nsamp=24, paths="sampled", peval=True, budget=BUDGET, numeric_only=True)); return
            if massless: gs.append(Group(nm, case, X, fn, smp(m, axis), pre(massless, axis), funcs=F, requires=req, tol=1e-6, paths="sampled", peval=True, budget=BUDGET)); return
            # physical (decimal) mass: replay only - its reciprocal is not representable; masses 1/2 and 2: exact
            gs.append(Group(nm + ", m = %g" % m, case + mt, X, fn, smp(m, axis), pre(massless, axis), funcs=F, requires=req, tol=1e-6, paths="sampled", peval=True, budget=BUDGET, numeric_only=(mt == "")))
        mV, mf, mF = mass["V"], mass["f"], mass["F"]
        add("massive vector, canonical", "dirac_V", vec(), mV); add("massive vector, canonical boost", "dirac_V", canon, mV)
        add("massive vector, helicity", "weyl_V", vec(), mV); add("massive vector, helicity label", "weyl_V", helv, mV)
        if mt == "0.5":
            add("photon", "weyl_g", vec(True), 0.0, massless=True); add("photon helicity label", "weyl_g", helv, 0.0, massless=True)
        for ax in (1, -1):
            add("massive vector, helicity", "weyl_V", vec(), mV, ax); add("massive vector, helicity label", "weyl_V", helv, mV, ax)
            if mt == "0.5":
                add("photon", "weyl_g", vec(True), 0.0, ax, massless=True); add("photon helicity label", "weyl_g", helv, 0.0, ax, massless=True)
        for near in (1, -1) if mt == "0.5" else ():
            add("massive vector, helicity", "weyl_V", vec(), mV, near=near); add("massive vector, helicity label", "weyl_V", helv, mV, near=near)
            add("photon", "weyl_g", vec(True), 0.0, massless=True, near=near); add("photon helicity label", "weyl_g", helv, 0.0, massless=True, near=near)
            for k, sgn in (("f", 1), ("F", -1)): add("spin-1/2 helicity " + k, "weyl_" + k, spinor(sgn), mass[k], near=near); add("spin-1/2 helicity label " + k, "weyl_" + k, hels, mass[k], near=near)
        add("massive vector, helicity", "weyl_V", canon, mV, 0)
        for k, sgn in (("f", 1), ("F", -1)):
            M = mass[k]
            add("spin-1/2 canonical " + k, "dirac_" + k, spinor(sgn), M); add("spin-1/2 canonical boost " + k, "dirac_" + k, canons(sgn), M)
            add("spin-1/2 helicity " + k, "weyl_" + k, spinor(sgn), M); add("spin-1/2 helicity label " + k, "weyl_" + k, hels, M)
            for ax in (1, -1):
                add("spin-1/2 helicity " + k, "weyl_" + k, spinor(sgn), M, ax); add("spin-1/2 helicity label " + k, "weyl_" + k, hels, M, ax)
            add("spin-1/2 helicity " + k, "weyl_" + k, spinor(sgn), M, 0)
    gs.append(Group("basis states", "basis", [], basis, nsamp=1, funcs=["basisVector", "basisSpinor"]))
    gs.append(Group("scalar", "scalar", [], scalar, nsamp=1, funcs=F))
    rep.merge(oblig.discharge(rep.pid, exe, gs, seed, deep))
    rep.std_assumptions()
    rep.assumptions.append("the case split at transverse momentum^2 = 1e-6 (|p|+pz = 1e-6 for spinors) is decided on the region the precondition describes: generic momenta, momenta along +z / -z, and the rest frame; momenta inside the 1e-6 guard but off axis are excluded")
