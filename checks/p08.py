"""P08: symbolic matrix inversion returns the two-sided inverse."""
import build, oblig
from oblig import Group
LEVEL = "proof"
def inv(n):
    def fn(o):
        I, A = o["I"], o["A"]
        yield ("shape", o.q(1 if list(I.dims) == [n, n] else 0), o.q(1))
        for i in range(n):
            for j in range(n):
                l = o.q(0); r = o.q(0)
                for k in range(n): l = l + A[i, k] * I[k, j]; r = r + I[i, k] * A[k, j]
                yield ("A inv(A) [%d,%d]" % (i, j), l, o.q(1 if i == j else 0)); yield ("inv(A) A [%d,%d]" % (i, j), r, o.q(1 if i == j else 0))
    return fn
def samp(n, cx):
    def s(rng):
        e = {}
        for i in range(n * n):
            e["A%d" % i] = rng.uniform(-1, 1) + (n if i % (n + 1) == 0 else 0)
            if cx: e["Ai%d" % i] = rng.uniform(-1, 1)
        return e
    return s
def groups(deep):
    g = []
    F = ["Tensor::Invert"]
    for n in range(1, 10 if deep else 9):
        vs = ["A%d" % i for i in range(n * n)]
        g.append(Group("Tensor::Invert %dx%d" % (n, n), "inv%d" % n, vs, inv(n), samp(n, 0), nsamp=5, modp=n > 3, funcs=F, requires="leading principal minors nonzero"))
        if n > 1: g.append(Group("Tensor::Invert %dx%d symmetric" % (n, n), "sinv%d" % n, vs, inv(n), samp(n, 0), nsamp=3, modp=n > 3, funcs=F, requires="leading principal minors nonzero"))
        if n > 1: g.append(Group("Tensor::Invert %dx%d, symmetry imposed" % (n, n), "iinv%d" % n, vs, inv(n), samp(n, 0), nsamp=3, modp=n > 3, funcs=F, requires="leading principal minors nonzero"))
        g.append(Group("Tensor::Invert %dx%d complex" % (n, n), "cinv%d" % n, vs + ["Ai%d" % i for i in range(n * n)], inv(n), samp(n, 1), nsamp=3, modp=n > 2, funcs=F, requires="leading principal minors nonzero"))
    return g
def run(rep, deep, seed):
    exe = build.harness("invert")
    rep.merge(oblig.discharge(rep.pid, exe, groups(deep), seed, deep))
    rep.assumptions += ["machine arithmetic treated as exact real arithmetic", "requires: the leading principal minors are nonzero (the algorithm does not pivot)", "sizes 1..8 (1..9 thorough); sizes >=4 (>=3 complex) by polynomial identity testing over F_p, p=2^127-1, with error probability below 1e-30"]
    rep.trusted += ["term exporter harness/h.h", "exact normal form (sympy polynomial ring over Q)", "g++"]
