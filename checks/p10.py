"""P10: rotations and boosts are proper Lorentz transformations, consistent between representations."""
import math
import build, oblig
from oblig import Group
from alg import conj
LEVEL = "proof"
eta = [-1, -1, -1, 1]
def mm(A, B): return [[sum((A[i][k] * B[k][j] for k in range(1, len(B))), A[i][0] * B[0][j]) for j in range(len(B[0]))] for i in range(len(A))]
def tr(A): return [list(x) for x in zip(*A)]
def dag(A): return [[conj(x) for x in r] for r in tr(A)]
def eqm(nm, A, B):
    if len(A) != len(B) or len(A[0]) != len(B[0]):
        yield ("%s: shape" % nm, 0, 1); return
    for i in range(len(A)):
        for j in range(len(A[0])): yield ("%s[%d,%d]" % (nm, i, j), A[i][j], B[i][j])
def const(o, M): return [[o.q(1) * x if not isinstance(x, complex) else o.q(int(x.real)) + o.I() * o.q(int(x.imag)) for x in r] for r in M]
def ident(n): return [[1 if i == j else 0 for j in range(n)] for i in range(n)]
SIG = [[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]]
# Dirac representation, index 3 = time
GAM = [[[0, 0, 0, 1], [0, 0, 1, 0], [0, -1, 0, 0], [-1, 0, 0, 0]], [[0, 0, 0, -1j], [0, 0, 1j, 0], [0, 1j, 0, 0], [-1j, 0, 0, 0]],
       [[0, 0, 1, 0], [0, 0, 0, -1], [-1, 0, 0, 0], [0, 1, 0, 0]], [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, -1, 0], [0, 0, 0, -1]]]
def lorentz(o, V, p=""):
    E = [[o.q(eta[i]) if i == j else o.q(0) for j in range(4)] for i in range(4)]
    yield from eqm(p + "L^T eta L = eta", mm(mm(tr(V), E), V), E)
def slash(o, comps):  # sum_i c_i sigma_i  (i=0..2) + c_3
    M = [[o.q(0), o.q(0)], [o.q(0), o.q(0)]]
    for i in range(3):
        s = const(o, SIG[i])
        for a in range(2):
            for b in range(2): M[a][b] = M[a][b] + comps[i] * s[a][b]
    return M
def det2(M): return M[0][0] * M[1][1] - M[0][1] * M[1][0]
def add(A, B): return [[x + y for x, y in zip(r, s)] for r, s in zip(A, B)]
def sc(c, A): return [[c * x for x in r] for r in A]
def spinor_consistency(o, S, V, bar, p=""):
    # S X(v) S^dagger = X(V v), X(v) = v_t +/- v.sigma , for each basis vector v
    for j in range(4):
        v = [o.q(1 if i == j else 0) for i in range(4)]
        def X(w):
            M = sc(w[3], const(o, ident(2)))
            s = slash(o, w)
            return add(M, sc(o.q(-1), s) if bar else s)
        w = [V[i][j] for i in range(4)]
        yield from eqm(p + "spinor vs vector e%d" % j, mm(mm(S, X(v)), dag(S)), X(w))
def bispinor_consistency(o, B, Bi, V, p=""):
    # B^-1 gamma^mu B = V^mu_nu gamma^nu
    yield from eqm(p + "B^-1 B = 1", mm(Bi, B), const(o, ident(4)))
    for mu in range(4):
        L = mm(mm(Bi, const(o, GAM[mu])), B)
        Rr = [[o.q(0)] * 4 for _ in range(4)]
        for nu in range(4): Rr = add(Rr, sc(V[mu][nu], const(o, GAM[nu])))
        yield from eqm(p + "bispinor vs vector gamma%d" % mu, L, Rr)
def rotate(o):
    V, S, B = o["V"].mat(), o["S"].mat(), o["B"].mat()
    iV, iS, iB = o["iV"].mat(), o["iS"].mat(), o["iB"].mat()
    yield from lorentz(o, V)
    yield from eqm("V iV = 1", mm(V, iV), const(o, ident(4)))
    yield from eqm("S iS = 1", mm(S, iS), const(o, ident(2)))
    yield ("time component untouched", V[3][3], o.q(1))
    yield ("det S = 1", det2(S), o.q(1))
    yield from eqm("S unitary", mm(S, dag(S)), const(o, ident(2)))
    yield from spinor_consistency(o, S, V, False)
    yield from bispinor_consistency(o, B, iB, V)
    k = [o.v("kx"), o.v("ky"), o.v("kz"), o.q(0)]
    for i in range(3):
        yield ("axis fixed %d" % i, sum((V[i][j] * k[j] for j in range(1, 3)), V[i][0] * k[0]), k[i])
    yield ("trace = 2+2c", V[0][0] + V[1][1] + V[2][2] + V[3][3], 2 + 2 * o.v("c"))
    # right handed: antisymmetric part = sin * epsilon.k with sin >= 0
    s = o.sqrt(1 - o.v("c") * o.v("c"))
    yield ("handedness z", V[1][0] - V[0][1], 2 * s * k[2])
    yield ("handedness x", V[2][1] - V[1][2], 2 * s * k[0])
    yield ("handedness y", V[0][2] - V[2][0], 2 * s * k[1])
    p = [o.v("p" + c) for c in "xyzt"]
    for i in range(4): yield ("operator()(tensor) %d" % i, o["app"][i], sum((V[i][j] * p[j] for j in range(1, 4)), V[i][0] * p[0]))
    for i in range(4): yield ("operator()(tensor,Bispinor) %d" % i, o["appB"][i], sum((B[i][j] * p[j] for j in range(1, 4)), B[i][0] * p[0]))
def boost(o):
    V, S, B = o["V"].mat(), o["S"].mat(), o["B"].mat()
    iV, iS, iB = o["iV"].mat(), o["iS"].mat(), o["iB"].mat()
    yield from lorentz(o, V)
    yield from eqm("V iV = 1", mm(V, iV), const(o, ident(4)))
    yield from eqm("S iS = 1", mm(S, iS), const(o, ident(2)))
    yield ("gamma factor", V[3][3], o.v("g"))
    yield ("det S = 1", det2(S), o.q(1))
    yield from eqm("S hermitian", S, dag(S))
    yield from spinor_consistency(o, S, V, True)
    yield from bispinor_consistency(o, B, iB, V)
    # boost along +k moves a particle with velocity along k to smaller energy: V[3][i] = -sqrt(g^2-1) k_i
    s = o.sqrt(o.v("g") * o.v("g") - 1)
    for i, c in enumerate("xyz"):
        yield ("time row %d" % i, V[3][i], -s * o.v("k" + c))
        for j, d in enumerate("xyz"): yield ("space block %d%d" % (i, j), V[i][j], (o.q(1) if i == j else o.q(0)) + (o.v("g") - 1) * o.v("k" + c) * o.v("k" + d))
    p = [o.v("p" + c) for c in "xyzt"]
    for i in range(4): yield ("operator()(tensor) %d" % i, o["app"][i], sum((V[i][j] * p[j] for j in range(1, 4)), V[i][0] * p[0]))
    for i in range(4): yield ("operator()(tensor,Bispinor) %d" % i, o["appB"][i], sum((B[i][j] * p[j] for j in range(1, 4)), B[i][0] * p[0]))
def seq(o):
    for r, n in (("V", 4), ("S", 2), ("B", 4)):
        a, b = o["a" + r].mat(), o["b" + r].mat()
        ba = mm(b, a)
        for s in ("s1", "s2", "s3", "s4"): yield from eqm("%s%s = later * earlier" % (s, r), o[s + r].mat(), ba)
        for s in ("inv", "inv2"): yield from eqm("%s%s * seq = 1" % (s, r), mm(o[s + r].mat(), o["s1" + r].mat()), const(o, ident(n)))
        yield from eqm("cleared %s = 1" % r, o["s6" + r].mat(), const(o, ident(n)))
    yield ("size of sequence of 2", o["size1"], o.q(2)); yield ("size of combined", o["size3"], o.q(2)); yield ("size of 4", o["n5"], o.q(4))
    p = [o.v("p" + c) for c in "xyzt"]; V = o["s1V"].mat(); B = o["s1B"].mat()
    for i in range(4): yield ("operator()(tensor) %d" % i, o["app"][i], sum((V[i][j] * p[j] for j in range(1, 4)), V[i][0] * p[0]))
    for i in range(4): yield ("operator()(tensor,Bispinor) %d" % i, o["appB"][i], sum((B[i][j] * p[j] for j in range(1, 4)), B[i][0] * p[0]))
def empty(o):
    for r, n in (("V", 4), ("S", 2), ("B", 4)):
        yield ("identity of the right rank (%s)" % r, o.q(o[r].dims[0]), o.q(n))
        yield from eqm("empty %s = 1" % r, o[r].mat(), const(o, ident(o[r].dims[0])))
        yield from eqm("inverse of empty %s = 1" % r, o["i" + r].mat(), const(o, ident(o["i" + r].dims[0])))
        for s in "lr":
            yield ("rank %s%s" % (s, r), o.q(len(o[s + r])), o.q(n * n))
            yield from eqm("empty composed %s%s" % (s, r), o[s + r].mat(), o["a" + r].mat())
def hyper(o):
    x = o.v("x"); e = o.D.exp(x)
    yield ("cosh", o["cosh"], (e + 1 / e) / 2); yield ("sinh", o["sinh"], (e - 1 / e) / 2)
    yield ("tanh", o["tanh"] * o["cosh"], o["sinh"])
    D = o.D
    yield ("asinh", D.exp(o["asinh"]) if D.name == "float" else o["asinh"], (x + o.sqrt(x * x + 1)) if D.name == "float" else D.fn("log", [x + o.sqrt(x * x + 1)]))
    y = o.v("y"); z = o.v("z")
    yield ("acosh", D.exp(o["acosh"]) if D.name == "float" else o["acosh"], (y + o.sqrt(y * y - 1)) if D.name == "float" else D.fn("log", [y + o.sqrt(y * y - 1)]))
    yield ("atanh", o["atanh"] * 2, D.fn("log", [(1 + z) / (1 - z)]))
def unitk(rng, n):
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]; m = math.sqrt(sum(x * x for x in v))
        if m > 1e-3: return {n + c: x / m for c, x in zip("xyz", v)}
def vec(rng): return {"p" + c: rng.uniform(-2, 2) for c in "xyzt"}
def samp_rot(rng): return dict(unitk(rng, "k"), c=rng.uniform(-1, 1), **vec(rng))
def samp_boost(rng): return dict(unitk(rng, "k"), g=1 + rng.expovariate(0.5), **vec(rng))
def samp_seq(rng): return dict(unitk(rng, "k"), **unitk(rng, "l"), c=rng.uniform(-1, 1), g=1 + rng.expovariate(0.5), **vec(rng))
def pre_unit(*ns):
    def f(o):
        D = o.D
        for n in ns:
            # precondition: k is a unit vector, encoded as kz^2 = 1 - kx^2 - ky^2
            kx, ky = D.var(n + "x"), D.var(n + "y")
            one = D.q(1)
            D.bind(n + "z", (one - kx * kx - ky * ky))
    return f
def pre_rot(o):
    pre_unit("k")(o)
    D = o.D; c = D.var("c")
    # half-angle roots a = sqrt((1+c)/2), b = sqrt((1-c)/2), so sqrt(1-c^2) = 2ab  (|c|<=1)
    a = D.sqrt((1 + c) * D.q(1, 2)); b = D.sqrt((1 - c) * D.q(1, 2)); D.require_pos(2 * a * b)
def pre_boost(o, k="k"):
    pre_unit(k)(o)
    D = o.D; g = D.var("g")
    a = D.sqrt((g + 1) * D.q(1, 2)); b = D.sqrt((g - 1) * D.q(1, 2)); D.require_pos(2 * a * b)
def pre_seq(o):
    pre_rot(o); pre_boost(o, "l")
V4 = ["px", "py", "pz", "pt"]
GROUPS = [
    Group("Transform(Rotate)", "rotate", ["c", "kx", "ky", "kz"] + V4, rotate, samp_rot, pre_rot, funcs=["Transform::operator()(Representation)", "Transform::rotate_spinor", "Transform::J_dot_p", "Transform::sigma_dot_p", "Transform::make_bispinor_operator", "Transform::inverse", "Transform::operator()(Tensor)"], requires="|c|<=1, |k|=1"),
    Group("Transform(Boost)", "boost", ["g", "kx", "ky", "kz"] + V4, boost, samp_boost, pre_boost, funcs=["Transform::operator()(Representation)", "Transform::boost_spinor", "Transform::K_dot_p", "Transform::inverse"], requires="g>=1, |k|=1"),
    Group("TransformSequence", "seq", ["c", "g", "kx", "ky", "kz", "lx", "ly", "lz"] + V4, seq, samp_seq, pre_seq, funcs=["TransformSequence::TransformSequence", "TransformSequence::push_back", "TransformSequence::buildCache", "TransformSequence::inverse", "TransformSequence::operator()", "TransformSequence::clear"], requires="|c|<=1, g>=1, unit axes"),
    Group("TransformSequence(empty)", "empty", ["c", "kx", "ky", "kz"], empty, lambda rng: dict(unitk(rng, "k"), c=rng.uniform(-1, 1)), pre_rot, funcs=["TransformSequence::TransformSequence()", "TransformSequence::buildCache"]),
    Group("hyperbolic helpers", "hyper", ["x", "y", "z"], hyper, lambda rng: dict(x=rng.uniform(-2, 2), y=rng.uniform(1, 3), z=rng.uniform(-.9, .9)), None, funcs=["cosh", "sinh", "tanh", "acosh", "asinh", "atanh"]),
]
def seqinv(n1, n2):
    def fn(o):
        for r, n in (("V", 4), ("S", 2), ("B", 4)):
            one = const(o, ident(n))
            def prod(ms, start=None):
                x = start or one
                for m in ms: x = mm(o[m + r].mat(), x)
                return x
            A = prod(["a%d" % i for i in range(n1)]); B = ["b%d" % i for i in range(n2)]; AB = prod(B, A)
            yield from eqm("A%s: matrix is the ordered product of the steps" % r, o["A" + r].mat(), A)
            yield from eqm("push_back(sequence) %s" % r, o["push" + r].mat(), AB)
            yield from eqm("TransformSequence(s,t) %s" % r, o["cat" + r].mat(), AB)
            yield from eqm("clear then append %s" % r, o["clr" + r].mat(), prod(B))
            yield from eqm("append a step %s" % r, o["again" + r].mat(), mm(o["a_" + r].mat(), AB))
            yield from eqm("inverse %s" % r, mm(o["minv" + r].mat(), AB), one)
            yield from eqm("inverse followed by inverse of inverse %s" % r, o["back" + r].mat(), one)
        yield ("size", o["size"], o.q(n1 + n2))
    return fn
def pre_inv(names):
    def f(o):
        D = o.D; D.subst = {}
        for v in names:
            t = D.var(v); 
            if int(v[1:]) % 2 == 0: a = (1 - t * t) / (1 + t * t); b = 2 * t / (1 + t * t); D.subst[v] = a * a - b * b   # cos(theta), half angle rational
            else: a = (1 + t * t) / (2 * t); b = (1 - t * t) / (2 * t); D.subst[v] = a * a + b * b                          # gamma, half rapidity rational
            D.require_pos(a); D.require_pos(b); D.require_pos(2 * a * b)
    return f
def samp_inv(names):
    def s(rng): return {v: rng.uniform(-1, 1) if int(v[1:]) % 2 == 0 else 1 + rng.expovariate(1) for v in names}
    return s
def inv_groups(deep):
    for n1 in range(4):
        for n2 in range(4):
            if n1 + n2 == 0: continue
            for how in range(3):
                if not deep and (n1 + n2 > 4): continue
                names = sorted({"a0"} | {"a%d" % i for i in range(n1)} | {"b%d" % i for i in range(n2)})
                yield Group("TransformSequence invariant, %d steps (built %d) then %d" % (n1, how, n2), "inv_%d_%d_%d" % (n1, n2, how), names, seqinv(n1, n2), samp_inv(names), pre_inv(names), nsamp=3, modp=True,
                            funcs=["TransformSequence::push_back(Transform)", "TransformSequence::push_back(TransformSequence)", "TransformSequence::TransformSequence(seq,seq)", "TransformSequence::clear", "TransformSequence::inverse"], requires="|cos|<=1, gamma>=1")
def run(rep, deep, seed):
    exe = build.harness("transform")
    rep.merge(oblig.discharge(rep.pid, exe, GROUPS + list(inv_groups(deep)), seed, deep))
    rep.assumptions += ["machine arithmetic treated as exact real arithmetic", "std::vector/std::shared_ptr behave as specified", "the value of an expression node is the one its operator()() defines (property P01)"]
    rep.trusted += ["term exporter harness/h.h", "exact normal form (sympy polynomial ring over Q)", "g++"]
