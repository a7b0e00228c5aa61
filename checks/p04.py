"""P04: symbolic derivatives of the elementary analytic functions."""
import build, oblig, math
from oblig import Group
LEVEL = "proof"
def fn(o):
    for k, x in (("x", o.v("x")), ("xy", o.v("x") * o.v("y")), ("x-y", o.v("x") - o.v("y") * o.q(1, 8)), ("cse", o.v("x") * o.v("y"))):
        D = o.D; one = o.q(1); r = D.sqrt(one - x * x); s = D.sqrt(x)
        spec = dict(Log=one / x, Exp=D.exp(x), Sqrt=one / (s * 2), Sin=D.cos(x), Cos=-D.sin(x), Tan=one / (D.cos(x) * D.cos(x)), ASin=one / r, ACos=-(one / r), ATan=one / (one + x * x), ISqrt=-(one / (s * x * 2)))
        for n, v in spec.items(): yield ("d %s(%s)" % (n, k), o[k + ":" + n], v)
def run(rep, deep, seed):
    exe = build.harness("expr")
    smp = lambda rng: {"x": rng.uniform(0.3, 0.9), "y": rng.uniform(0.1, 0.9)}
    rep.merge(oblig.discharge(rep.pid, exe, [Group("d()", "d", ["x", "y"], fn, smp, funcs=[f + "::d" for f in "Log Exp Sqrt Sin Cos Tan ASin ACos ATan ISqrt".split()], requires="0 < argument < 1", nsamp=40)], seed, deep))
    rep.std_assumptions()
