"""P07: indexed tensor algebra follows the Einstein convention with the (-,-,-,+) metric."""
import itertools, math
import build, oblig
from oblig import Group, T
from alg import PolyDom, conj
LEVEL = "proof"
D0 = [4, 2, 3, 4, 2, 3, 2, 2]
def parse(c): return [(ord(c[i]) - 97, c[i + 1] == "+") for i in range(0, len(c), 2)]
def dims(ls, scheme): return [D0[l] if scheme == 0 else 4 for l, _ in ls]
def pos(co, d):
    k = 0
    for i, n in zip(co, d): k = k * n + i
    return k
def rng(d): return itertools.product(*[range(n) for n in d])
def vname(pfx, co, d): return "%s%d" % (pfx, pos(co, d))
def sgn(c): return 1 if c == 3 else -1
def outix(o, nm): return o._get.str("ix:" + nm)
def mulspec(o, l1, l2, scheme):
    """Einstein sum; a label in both operands is summed, with the metric when one is up and one is down"""
    d1, d2 = dims(l1, scheme), dims(l2, scheme)
    s1 = [l for l, _ in l1]; s2 = [l for l, _ in l2]
    shared = [l for l in s1 if l in s2]
    free = [l for l in s1 if l not in s2] + [l for l in s2 if l not in s1]
    dm = dict(zip(s1, d1)); dm.update(zip(s2, d2))
    u1 = dict(l1); u2 = dict(l2)
    fd = [dm[l] for l in free]
    el = []
    for co in rng(fd):
        val = dict(zip(free, co)); acc = o.q(0)
        for cs in rng([dm[l] for l in shared]):
            val.update(zip(shared, cs)); s = 1
            for l, c in zip(shared, cs):
                if u1[l] != u2[l]: s *= sgn(c)
            t = o.v(vname("A", [val[l] for l in s1], d1)) * o.v(vname("B", [val[l] for l in s2], d2))
            acc = acc + t if s > 0 else acc - t
        el.append(acc)
    return fd, free, el
def mkmul(r1, r2, s, least=0):
    def pats():
        l1 = list(range(r1)); res = []
        def rec(cur):
            if len(cur) == r2: res.append(list(cur)); return
            for x in range(r1):
                if x not in cur: rec(cur + [x])
            rec(cur + [r1 + sum(1 for c in cur if c >= r1)])
        rec([])
        for l2 in res:
            if sum(x < r1 for x in l2) < least: continue
            for v in range(3):
                u1 = [0] * r1; u2 = [0] * r2
                if v == 1: u2 = [1] * r2
                if v == 2: u1 = [i % 2 for i in range(r1)]; u2 = [(i // 2) % 2 for i in range(r2)]
                yield list(zip(l1, u1)), list(zip(l2, u2))
    def code(l): return "".join(chr(97 + a) + "-+"[u] for a, u in l)
    # convention of the harness: a negated index flips isUpper, the plain one is not upper
    def fn(o):
        for l1, l2 in pats():
            nm = "mul:%s,%s,%d" % (code(l1), code(l2), s)
            fd, free, el = mulspec(o, l1, l2, s)
            t = o[nm]
            short = code(l1) + "*" + code(l2)
            td = t.dims if isinstance(t, T) else []
            te = t.el if isinstance(t, T) else [t]
            yield ("%s: shape" % short, o.q(1 if list(td) == fd else 0), o.q(1))
            if len(te) != len(el): continue
            for i in range(len(el)): yield ("%s[%d]" % (short, i), te[i], el[i])
    vs = set()
    for l1, l2 in pats():
        vs |= {vname("A", c, dims(l1, s)) for c in rng(dims(l1, s))} | {vname("B", c, dims(l2, s)) for c in rng(dims(l2, s))}
    return Group("TensorProxy product rank %d x rank %d%s" % (r1, r2, " (all 4)" if s else ""), "mul%d%d%d" % (r1, r2, s), sorted(vs), fn, None, nsamp=2, dom=PolyDom,
                 funcs=["operator*(TensorProxy,TensorProxy)", "Tensor::index_to_coordinates", "Tensor::coordinates_to_index", "Tensor::operator[]"], requires="one shared label pairs one index of each operand")
def mksum(r):
    def code(l): return "".join(chr(97 + a) + "-" for a in l)
    def fn(o):
        l1 = list(range(r))
        for l2 in itertools.permutations(l1):
            c = "%s,%s,0" % (code(l1), code(l2))
            d1 = [D0[l] for l in l1]; d2 = [D0[l] for l in l2]
            def chk(nm, A, B, sg, dd1, dd2, labels=None):
                t = o[nm]; te = t.el if isinstance(t, T) else [t]; td = t.dims if isinstance(t, T) else []
                yield ("%s shape" % nm, o.q(1 if list(td) == dd1 else 0), o.q(1))
                for i, co in enumerate(rng(dd1)):
                    val = dict(zip(l1, co))
                    yield ("%s[%d]" % (nm, i), te[i], A(co, dd1) + (B([val[l] for l in l2], dd2) if sg > 0 else -B([val[l] for l in l2], dd2)))
            va = lambda co, d: o.v(vname("A", co, d)); vb = lambda co, d: o.v(vname("B", co, d)); vs = lambda co, d: o.v(vname("A", sorted(co), d))
            yield from chk("add:" + c, va, vb, 1, d1, d2)
            yield from chk("sub:" + c, va, vb, -1, d1, d2)
            if r in (2, 3):
                e = [3] * r
                yield from chk("adds:" + c, vs, vb, 1, e, e); yield from chk("subs:" + c, vs, vb, -1, e, e)
                yield from chk("addt:" + c, lambda co, d: o.v(vname("B", co, d)), vs, 1, e, e)
            t = o["ord:" + c]; te = t.el if isinstance(t, T) else [t]; td = t.dims if isinstance(t, T) else []
            yield ("ord:%s shape" % c, o.q(1 if list(td) == d2 else 0), o.q(1))
            for i, co in enumerate(rng(d2)):
                val = dict(zip(l2, co)); yield ("ord:%s[%d]" % (c, i), te[i], va([val[l] for l in l1], d1))
    n = 1
    for l in range(r): n *= D0[l]
    n = max(n, 27)
    return Group("TensorProxy sum/reorder rank %d" % r, "sum%d" % r, ["%s%d" % (a, i) for a in "AB" for i in range(n)], fn, None, nsamp=2, dom=PolyDom,
                 funcs=["operator+(TensorProxy,TensorProxy)", "operator-(TensorProxy,TensorProxy)", "TensorProxy::reorder", "Tensor::imposeSymmetry"])
def chain(o):
    a = [o.v("A%d" % i) for i in range(4)]; b = [o.v("B%d" % i) for i in range(4)]; c = [o.v("C%d" % i) for i in range(4)]; M = [[o.v("M%d" % (4 * i + j)) for j in range(4)] for i in range(4)]
    g = [-1, -1, -1, 1]
    def S(xs):
        r = o.q(0)
        for x in xs: r = r + x
        return r
    ab = S(a[i] * b[i] * g[i] for i in range(4)); ca = S(c[i] * a[i] * g[i] for i in range(4))
    for i in range(4):
        yield ("(a.b) c[%d]" % i, o["abc"][i], ab * c[i]); yield ("c (a.b)[%d]" % i, o["cab"][i], ab * c[i])
        for j in range(4):
            yield ("M.M^T[%d%d]" % (i, j), o["MMt"][i, j], S(M[i][k] * M[j][k] * g[k] for k in range(4)))
            yield ("(a.b)M[%d%d]" % (i, j), o["sAa"][i, j], ab * M[i][j])
    one = lambda x: x.el[0] if isinstance(x, T) else x
    yield ("a.M.b", one(o["aMb"]), S(a[i] * M[i][j] * b[j] * (g[i] * g[j]) for i in range(4) for j in range(4)))
    yield ("(a.b)(c.a)", one(o["ss"]), ab * ca)
    yield ("same variance is Euclidean", o["e"], S(a[i] * b[i] for i in range(4)))
    yield ("scalar + scalar", o["e2"], ab + ca)
    yield ("dot", o["dot"], ab)
    yield ("dot rank 2", o["dotM"], S(M[i][j] * o.v("N%d" % (4 * i + j)) * (g[i] * g[j]) for i in range(4) for j in range(4)))
def elem(o):
    d = [2, 3, 4]
    for co in rng(d):
        s = "".join(map(str, co))
        yield ("get(%s)" % s, o["g" + s], o.v(vname("A", co, d))); yield ("[](%s)" % s, o["b" + s], o.v(vname("A", co, d)))
    for i in range(2):
        for j in range(3): yield ("(%d,%d)" % (i, j), o["m%d%d" % (i, j)], o.v("A%d" % (3 * i + j))); yield ("write (%d,%d)" % (i, j), o["w"][i, j], o.v("W%d%d" % (i, j)))
    for i in range(3): yield ("(%d)" % i, o["o%d" % i], o.v("A%d" % i)); yield ("get(%d)" % i, o["p%d" % i], o.v("A%d" % i))
    yield ("size", o["size"], o.q(24)); yield ("nElements", o["nel"], o.q(24)); yield ("rank", o["rank"], o.q(3)); yield ("nDim", o["ndim"], o.q(3))
    for i in range(4): yield ("zero initialised %d" % i, o["z"].el[i], o.q(0))
def linear(o):
    s = o.v("s"); I = o.I()
    for i in range(6):
        A, B = o.v("A%d" % i), o.v("B%d" % i); k = "[%d]" % i
        yield ("A+B" + k, o["add"].el[i], A + B); yield ("A-B" + k, o["sub"].el[i], A - B); yield ("-A" + k, o["neg"].el[i], -A)
        for n in ("se", "es", "xse", "xes"): yield (n + k, o[n].el[i], s * A)
        for n in ("sd", "ds", "xsd", "xds"): yield (n + k, o[n].el[i], A * o.q(5, 2))
        for n in ("de", "xde"): yield (n + k, o[n].el[i] * s, A)
        for n in ("dd", "xdd"): yield (n + k, o[n].el[i] * 4, A)
        yield ("+=" + k, o["pe"].el[i], A + B); yield ("-=" + k, o["me"].el[i], A - B); yield ("conjugate" + k, o["conj"].el[i], A - I * B)
        yield ("A/(2i)" + k, o["ce"].el[i] * 2 * I, A); yield ("A(i,j)/(2i)" + k, o["xce"].el[i] * 2 * I, A)
        for n in ("cm", "cn", "xcm"): yield (n + k, o[n].el[i], A * 2 * I)
        for n in ("sc", "xsc", "sc2"): yield ("conjugate of cached elements, " + n + k, o[n].el[i], A - I * B)
        yield ("cached + A" + k, o["sa"].el[i], A + I * B + A); yield ("cached - A" + k, o["sm"].el[i], I * B); yield ("cached / 2i" + k, o["sd2"].el[i] * 2 * I, A + I * B)
    for n in "add sub neg se es sd ds de dd pe me conj xse xes xsd xds xde xdd".split(): yield (n + " shape", o.q(1 if list(o[n].dims) == [2, 3] else 0), o.q(1))
    yield ("rankMatches same", o["rm1"], o.q(1)); yield ("rankMatches permuted", o["rm2"], o.q(0)); yield ("rankMatches other rank", o["rm3"], o.q(0))
def comb(n, k): return math.comb(n + k - 1, k)
def mksym(r, n):
    d = [n] * r
    def fn(o):
        for i, co in enumerate(rng(d)): yield ("symmetric tensor unchanged [%d]" % i, o["s"].el[i], o.v(vname("A", sorted(co), d)))
        yield ("independent elements", o["nu"], o.q(comb(n, r)))
        g = o["g"]
        for i, co in enumerate(rng(d)): yield ("symmetrised view is symmetric [%d]" % i, g.el[i], g.el[pos(sorted(co), d)])
        if r == 2:
            for nm in "wv":
                for i, j in rng(d):
                    if sorted((i, j)) == [0, 2]: yield ("write through symmetry %s(%d,%d)" % (nm, i, j), o[nm][i, j], o.v("x"))
                    else: yield ("write leaves others %s(%d,%d)" % (nm, i, j), o[nm][i, j], g[i, j])
            for i, j in rng(d): yield ("st() keeps values (%d,%d)" % (i, j), o["vst"][i, j], o["v"][i, j])
        if r == 3:
            q = o["q"]
            for i, co in enumerate(rng(d)): yield ("symmetric in 0,2 [%d]" % i, q.el[i], q.el[pos((co[2], co[1], co[0]), d)])
            yield ("independent elements (0,2)", o["qn"], o.q(comb(3, 2) * 3))
    return Group("Tensor::imposeSymmetry rank %d" % r, "sym%d" % r, ["%s%d" % (a, i) for a in "AB" for i in range(n ** r)] + ["x"], fn, None, nsamp=2, dom=PolyDom, funcs=["Tensor::imposeSymmetry", "Tensor::symmetrisedIndex", "Tensor::uniqueElements"])
def symlin(o):
    s = o.v("s")
    for k, (d, q) in enumerate((([2, 2], (0, 1)), ([2, 2, 2], (0, 1, 2)), ([2, 2, 2], (0, 2)), ([2, 2, 2], (1, 2)))):
        k = str(k); A = o["a" + k]; dt = o.q(0)
        for i, co in enumerate(rng(d)):
            c2 = list(co); vals = sorted((co[x] for x in q), reverse=True)
            for x, y in zip(q, vals): c2[x] = y
            v = o.v(vname("A", c2, d)) + o.I() * o.v(vname("Ai", c2, d)); B = o.v(vname("B", co, d)); t = " (symmetry %s) [%d]" % (q, i)
            # whichever of the equivalent stored elements represents the class: the view is one of them and symmetric
            a = A.el[i]; w = A.el[pos(c2, d)]
            yield ("view is symmetric" + t, a, w)
            yield ("conjugate" + t, o["conj" + k].el[i], conj(a)); yield ("negation" + t, o["neg" + k].el[i], -a)
            for n in ("s", "t"): yield ("scaling" + t, o[n + k].el[i], s * a)
            yield ("division" + t, o["d" + k].el[i] * s, a); yield ("twice" + t, o["dd" + k].el[i], a + a)
            for n in ("add", "add'", "pe"): yield ("sum " + n + t, o[n + k].el[i] if n != "pe" else o["pe" + k].el[i], a + B)
            yield ("difference" + t, o["sub" + k].el[i], a - B); yield ("difference'" + t, o["sub'" + k].el[i], B - a); yield ("difference-=" + t, o["me" + k].el[i], B - a)
            for n in ("st", "sts", "get", "getc", "te"): yield (n + " keeps the value" + t, o[n + k].el[i], a)
            sg = 1
            for x in co: sg *= -1
            dt = dt + a * B * sg
        yield ("dot (symmetry %s)" % (q,), o["dot" + k], dt); yield ("dot' (symmetry %s)" % (q,), o["dot'" + k], dt)
def parity(p):
    s = 1; p = list(p)
    for i in range(len(p)):
        for j in range(i): s = -s if p[j] > p[i] else s
    return s
def const(o):
    for n in range(1, 6):
        yield ("Identity(%d) shape" % n, o.q(1 if list(o["id%d" % n].dims) == [n, n] else 0), o.q(1))
        for i in range(n):
            for j in range(n): yield ("Identity(%d)[%d%d]" % (n, i, j), o["id%d" % n][i, j], o.q(1 if i == j else 0))
        if 2 <= n <= 4:
            for co in rng([n] * n): yield ("LeviCivita%s" % (co,), o["lc%d" % n][tuple(co)], o.q(parity(co) if len(set(co)) == n else 0))
    for i in range(16): yield ("metricSgn(%d)" % i, o["ms%d" % i], o.q(sgn(i // 4) * sgn(i % 4)))
def names(p, n): return ["%s%d" % (p, i) for i in range(n)]
def groups(deep):
    g = []
    for r1 in range(4):
        for r2 in range(4):
            for s in range(2):
                if s == 1 and r1 + r2 > 4: continue
                g.append(mkmul(r1, r2, s))
    g += [mkmul(r1, r2, 0, k) for r1, r2, k in ((4, 2, 0), (2, 4, 0), (4, 3, 2), (3, 4, 2), (4, 4, 3), (5, 2, 1))]
    g += [mksum(r) for r in range(5)]
    g.append(Group("products with contracted operands; dot", "chain", names("A", 4) + names("B", 4) + names("C", 4) + names("M", 16) + names("N", 16), chain, None, nsamp=4, dom=PolyDom, funcs=["operator*(TensorProxy,TensorProxy)", "dot", "TensorProxy::operator Expression"]))
    g.append(Group("Tensor element access", "elem", names("A", 24) + ["W%d%d" % (i, j) for i in range(2) for j in range(3)], elem, None, nsamp=2, dom=PolyDom, funcs=["Tensor::get", "Tensor::operator[]", "Tensor::operator()", "Tensor::append", "Tensor::size"]))
    g.append(Group("operations on tensors with imposed symmetry", "symlin", names("A", 8) + names("Ai", 8) + names("B", 8) + ["s"], symlin, None, nsamp=3, funcs=["Tensor::imposeSymmetry", "Tensor::conjugate", "Tensor::get", "dot"]))
    g.append(Group("Tensor linear operations", "linear", names("A", 6) + names("B", 6) + ["s"], linear, None, nsamp=4, funcs=["operator+(Tensor,Tensor)", "operator-(Tensor,Tensor)", "operator*(Expression,Tensor)", "operator/(Tensor,Expression)", "Tensor::conjugate", "Tensor::operator-", "operator*(Expression,TensorProxy)", "operator/(TensorProxy,Expression)"]))
    g += [mksym(2, 4), mksym(3, 3), mksym(4, 2)]
    g.append(Group("Identity, LeviCivita, metric", "const", [], const, None, nsamp=1, dom=PolyDom, funcs=["Identity", "LeviCivita", "Tensor::metricSgn"]))
    return g
def run(rep, deep, seed):
    exe = build.harness("tensor")
    rep.merge(oblig.discharge(rep.pid, exe, groups(deep), seed, deep))
    rep.assumptions += ["machine arithmetic treated as exact real arithmetic", "tensor ranks up to 3 per operand with every sharing of labels, up to rank 5 with most sharings (all elements symbolic)", "the value of an expression node is the one its operator()() defines (property P01)"]
    rep.trusted += ["term exporter harness/h.h", "exact polynomial normal form (lib/alg.py)", "g++"]
