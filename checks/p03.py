"""P03: the function compiled for an expression computes the expression; its parameter buffer follows the parameter set."""
import build, oblig, uf, ctext, p01, re, os, sys, subprocess, tempfile, shutil, ctypes, random
from concurrent.futures import ThreadPoolExecutor
LEVEL = "proof"
CASES = ["shapes", "dag", "dag_simp", "dag_avx", "tensor", "debug", "mps", "mps_expr", "literal_parameters", "with_parameters", "amplitude", "amplitude_avx"]
class Unknown(Exception): pass           # text in a form this checker does not read: decided by compiling and running it instead
class Bad(Exception): pass
def functions(text):
    """name -> (parameter text, body) of every function definition in the generated text"""
    r = {}
    for m in re.finditer(r"(\w+)\s*\(([^(){};]*)\)\s*\{", text):
        if m.group(1) in ("for", "if", "while", "switch"): continue
        d = 1; j = m.end()
        while d and j < len(text):
            d += {"{": 1, "}": -1}.get(text[j], 0); j += 1
        r[m.group(1)] = (m.group(2), text[m.end():j - 1])
    return r
def args_of(s):
    """split a top-level comma list"""
    out = []; d = 0; k = 0
    for i, c in enumerate(s):
        if c in "([{": d += 1
        elif c in ")]}": d -= 1
        elif c == "," and d == 0: out.append(s[k:i]); k = i + 1
    return out + [s[k:]]
class Run:
    """evaluation of one generated function body over a term domain, statement by statement"""
    def __init__(self, D, f, x0, x1): self.D = D; self.f = f; self.x0 = x0; self.x1 = x1; self.local = {}; self.outs = {}; self.ret = None; self.strings = []
    def names(self, kind, nm, ix):
        if kind == "id":
            if nm in self.local: return self.local[nm]
            if re.fullmatch(r"v\d+", nm): raise Bad("sub-expression %s is used before it is computed" % nm)
            raise Unknown("identifier " + nm)
        if kind == "idx":
            if nm == "x0": return self.x0(ix)
            if nm == "x1": return self.x1(ix)
            raise Unknown("array " + nm)
        if kind == "call":
            if nm == "f": return self.D.fn("call:f", ix)
            raise Unknown("function " + nm)
    def ev(self, s): 
        try: return ctext.ev(ctext.parse(s), self.D, self.names)
        except ctext.ParseError as e: raise Unknown(str(e))
    def body(self, text):
        for st in text.split(";"):
            st = st.strip()
            if not st: continue
            m = re.fullmatch(r"(?:const\s+)?auto(?:\s+const)?\s*&?\s+(\w+)\s*=\s*(.*)", st, re.S)
            if m:
                if m.group(1) in self.local: raise Bad("%s is defined twice" % m.group(1))
                self.local[m.group(1)] = self.ev(m.group(2)); continue
            m = re.fullmatch(r"return\s+\{(.*)\}", st, re.S)
            if m:
                for a in args_of(m.group(1)):
                    q = re.fullmatch(r"\s*\{\s*(\"[^\"]*\")\s*,(.*)\}\s*", a, re.S)
                    if not q: raise Unknown(a[:80])
                    e = q.group(2).strip(); self.strings.append((q.group(1), None if re.search(r"\(-999\.?\s*,", e) else self.ev(e)))
                continue
            m = re.fullmatch(r"return\s+(.*)", st, re.S)
            if m: self.ret = self.ev(m.group(1)); continue
            m = re.fullmatch(r"r\s*\[\s*s\s*\[\s*(\d+)\s*\]\s*\]\s*=\s*(.*)", st, re.S)
            if m: self.outs[int(m.group(1))] = self.ev(m.group(2)); continue
            raise Unknown(st[:80])
def slots(rep, c, f):
    """which parameter each buffer slot holds: identified by its value (all parameter values are distinct)"""
    inv = {v: n for n, v in f["vals"].items() if n not in f["evt"]}; r = {}
    for i, v in enumerate(f["ext"]):
        if v in inv: r[i] = inv[v]
    return r
def run(rep, deep, seed):
    sys.setrecursionlimit(20000); exe = build.harness("compiled"); jobs = []; unknown = 0; skipped = 0
    with ThreadPoolExecutor(6) as ex: data = list(ex.map(lambda c: oblig.run_harness(exe, [c]), CASES))
    for c, d in zip(CASES, data):
        N = d["nodes"]
        if not d["recs"] or "json" not in d["recs"][0]:
            rep.ob(c, "code is generated without error", False, "replay", why=str(d.get("crash") or d["recs"])[:500]); continue
        Ds = [uf.UF(seed + k) for k in range(2)]; Vs = [D.nodes(N) for D in Ds]; ok = okd = okb = okh = 0
        for f in d["recs"][0]["json"]:
            f["case"] = c; f["N"] = N; jobs.append(f); sl = slots(rep, c, f); f["slots"] = sl
            nm = f.get("decay", f["name"])
            # buffer: slots disjoint, dense, filled with the parameter values
            adr = sorted(zip(f["adr"][::2], f["adr"][1::2])); pos = 0
            for a, n in adr:
                if a != pos: rep.violate("parameter buffer", "slots of %s are disjoint and dense" % nm, found=True, input=str(adr)); break
                pos = a + n
            else:
                if pos > len(f["ext"]): rep.violate("parameter buffer", "buffer of %s holds every slot" % nm, found=True, input=str(adr))
                else: okb += 1
            want = (64 if f.get("avx") else 16) * len(f["ids"])
            if f["size"] != want: rep.violate("CompiledExpression::returnTypeSize", "the size of the result of %s is that of its components" % nm, found=True, input=nm, got=f["size"], want=want)
            fs = functions(f["text"]); inv_evt = {v: k for k, v in f["evt"].items()}
            res = None
            for D, V in zip(Ds, Vs):
                if f.get("lit"):
                    D = uf.UF(seed); par = {n: v for n, v in f["vals"].items() if n not in f["evt"]}; var0 = D.var
                    D.var = lambda n, D=D, par=par, var0=var0: D.const(par[n]) if n in par else var0(n)
                    V = D.nodes(N)
                def x0(i, D=D, f=f, sl=sl):
                    if f.get("lit") and i < len(f["ext"]): return D.const(f["ext"][i])
                    if i not in sl: raise Bad("slot %d of the parameter buffer (value %s) holds no parameter of the expression" % (i, f["ext"][i] if i < len(f["ext"]) else "out of range"))
                    return D.var(sl[i])
                def x1(i, D=D):
                    if i not in inv_evt: raise Bad("event variable %d does not exist" % i)
                    return D.var(inv_evt[i])
                try:
                    if f["prog"] not in fs: raise Unknown("function %s not found" % f["prog"])
                    R = Run(D, f, x0, x1); R.body(fs[f["prog"]][1])
                    want = [V[i] for i in f["ids"]]
                    got = [R.outs.get(j) for j in range(len(want))] if f.get("rto") else [R.ret]
                    if any(w is None for w in want): continue
                    if f.get("rto") and len(R.outs) != len(want): raise Bad("%d outputs written, %d expected" % (len(R.outs), len(want)))
                    for j, (g, w) in enumerate(zip(got, want)):
                        if g != w: raise Bad("output %d differs from the expression" % j)
                    if "db" in f and f["prog"] + "_DB" in fs:
                        RD = Run(D, f, x0, x1); RD.body(fs[f["prog"] + "_DB"][1])
                        if len(RD.strings) != len(f["db"]): raise Bad("%d debugging values, %d expected" % (len(RD.strings), len(f["db"])))
                        for (lab, g), i in zip(RD.strings, f["db"]):
                            if g is not None and V[i] is not None and g != V[i]: raise Bad("debugging value %s differs from its expression" % lab)
                        okd += len(f["db"])
                    if f.get("wp"): wp(f, fs)
                    res = True
                except uf.Zero: continue
                except Unknown as e:
                    unknown += 1; res = None; f["unknown"] = str(e); break
                except Bad as e:
                    f["bad"] = str(e); res = False; break
            if res is True: ok += 1
            elif res is None: skipped += 1
            okh += history(rep, f, sl)
        rep.ob_many("generated function [%s]" % c, "result equals the expression, every sub-expression is computed before use", ok, "field+congruence identity (F_p^2)")
        rep.ob_many("debugging function [%s]" % c, "value equals the expression", okd, "field+congruence identity (F_p^2)")
        rep.ob_many("parameter buffer [%s]" % c, "slots disjoint, dense", okb, "exhaustive over the generated functions")
        if okh: rep.ob_many("CompiledExpressionBase::prepare [%s]" % c, "buffer follows the parameters, change flag exact", okh, "executed histories")
    compiled(rep, jobs, seed)
    pipeline(rep, exe)
    if unknown: rep.notes.append("%d generated functions in a form the text reader does not know: decided by compiling and running them (bounded)" % unknown)
    rep.functions += ["ASTResolver::getOrderedSubExpressions", "ASTResolver::resolve<SubTree>", "ASTResolver::resolve<Parameter>", "ASTResolver::resolve<MinuitParameterLink>", "ASTResolver::resolve<LambdaExpression>", "ASTResolver::addCacheFunction", "CompiledExpressionBase::resolve", "CompiledExpressionBase::prepare", "CompiledExpressionBase::to_stream", "CompiledExpressionBase::addDependentExpressions", "CompiledExpressionBase::addDebug", "CompiledExpressionBase::compileWithParameters", "CompiledExpressionBase::compileBatch (bounded)", "CompiledExpression::setExternal", "CacheTransfer::transfer", "ParameterTransfer::transfer", "LambdaTransfer::transfer"]
    rep.assumptions += ["expression graphs are enumerated (800 random graphs with shared, nested and repeated sub-expressions, fixed shapes, 16 real amplitudes); each obligation holds for all parameter and event values of that graph", "the reader of the generated text (lib/ctext.py) implements C++; confirmed by compiling the functions with g++ and comparing numbers", "batch entry point is checked by running it on 5 events (bounded)", "CUDA and Python-binding output not covered"]
    rep.trusted += ["lib/ctext.py", "lib/uf.py", "harness/h.h", "g++"]
def pipeline(rep, exe):
    """bounded: functions written, compiled, linked and called through the public interface, before and after parameter changes"""
    for att in range(2):
        d = oblig.run_harness(exe, ["pipeline"])
        if d["recs"] and "json" in d["recs"][0]: break
    else:
        rep.bound("compile and call", "functions compile, link and answer", 1, "22 calls", [dict(input="harness case pipeline (functions of random expression graphs compiled with CompiledExpression::compile and CompilerWrapper::compile)", got=str(d.get("crash") or d["recs"])[:400])]); return
    bad = []; n = 0
    for c in d["recs"][0]["json"]:
        env = dict(c["vals"]); env.update({k: c["x"][i] for k, i in c["evt"].items() if c["x"]}); n += 1
        if c["what"] == "ready":
            if not c["got"][0][0]: bad.append(dict(input="compile()", got="function not linked"))
            continue
        V = p01.sub_eval(uf.Flt(lambda v: env[v]), d["nodes"], c["ids"]); want = [V[i] for i in c["ids"]]; inp = "%s: event %s, parameters %s" % (c["what"], c["x"], c["vals"])
        if c["what"] == "debug":
            for k, w in enumerate(want):
                lab = "sym%d" % k if k < 3 else "param"; ln = [l for l in c["text"].splitlines() if lab in l]
                if not ln: bad.append(dict(input=inp, got="no line for the debugging symbol " + lab)); continue
                nums = [float(x) for x in re.findall(r"-?\d+\.?\d*(?:e[-+]?\d+)?", ln[0].split("=", 1)[-1])]
                if nums and w is not None and not any(abs(x - w.real) < 1e-4 * (1 + abs(w)) for x in nums): bad.append(dict(input=inp, got=ln[0], expected=str(w)))
            continue
        for g, w in zip(c["got"], want):
            if w is None or w != w or abs(w) > 1e12: continue
            if not uf.close(complex(*g), w, 1e-6): bad.append(dict(input=inp, got=str(g), expected=str(w)))
    rep.bound("compile and call", "functions written, compiled, linked and called through the public interface return the value of their expression (single, several per library, batch, tensor, lanes, debugging, after parameter changes, copies)", n, "14 functions, %d calls" % n, bad)
    rep.functions += ["CompilerWrapper::compile", "CompilerWrapper::generateSource", "CompilerWrapper::compileSource", "CompiledExpression::link", "CompiledExpression::operator()", "CompiledExpression::batch", "CompiledExpression::debug"]
def wp(f, fs):
    b = fs.get(f["prog"] + "_wParams")
    if b is None: raise Bad("no entry point with built-in parameters")
    m = re.search(r"double\s+externalParameters\s*\[\s*\]\s*=\s*\{([^}]*)\}\s*;\s*return\s+%s\s*\(([^;]*)\)\s*;" % re.escape(f["prog"]), b[1])
    if not m: raise Unknown("wParams body")
    vals = [float(x) for x in m.group(1).split(",")]
    if len(f["ext"]) and vals != [float(x) for x in f["ext"]]: raise Bad("built-in parameter values %s are not the parameter values %s" % (vals[:6], f["ext"][:6]))
    a = [x.strip() for x in m.group(2).split(",")]
    if a != (["r", "s"] if f.get("rto") else []) + ["externalParameters", "x0"]: raise Bad("entry point with built-in parameters forwards (%s)" % m.group(2))
def history(rep, f, sl):
    n = 0; prev = None
    for h in f.get("hist", []):
        for i, nm in sl.items():
            if nm in h["vals"] and h["ext"][i] != h["vals"][nm]:
                rep.violate("CompiledExpressionBase::prepare", "the buffer holds the current value of every parameter", found=True, input="%s, after: %s" % (f["name"], h["what"]), slot=i, parameter=nm, value=h["vals"][nm], buffer=h["ext"][i]); return n
        if h["what"] != "built":
            ch = int(prev["ext"] != h["ext"])
            if ch != h["changed"]:
                rep.violate("CompiledExpression::setExternal", "the change flag is raised exactly when a parameter changed", found=True, input="%s, after: %s" % (f["name"], h["what"]), flag=h["changed"], buffer_changed=ch); return n
        prev = h; n += 2
    return n
PRE0 = """#include <complex>
#include <vector>
#include <array>
#include <cmath>
#include <cstring>
#include <string>
#include <iostream>
"""
PRE1 = """#include "AmpGen/simd/avx2d_types.h"
#include "AmpGen/Complex.h"
#include "AmpGen/simd/utils.h"
using namespace AmpGen; using namespace AmpGen::AVX2d;
"""
PRE2 = """using namespace std;
template<class A,class B> auto f(A a, B b){ return a*2.0+b; }
"""
def compiled(rep, jobs, seed):
    """every generated function compiled with g++ and run; mismatches are the concrete witnesses"""
    rng = random.Random(seed); wd = tempfile.mkdtemp(prefix="cf", dir=build.BUILD); n = nb = 0; bad = []
    nomem = []
    try:
        avx = lambda f: bool(f.get("avx") or "AVX" in f["text"])
        sc = [f for f in jobs if not avx(f)]; av = [f for f in jobs if avx(f)]
        chunks = [sc[i::8] for i in range(8)] + [av[i::8] for i in range(8)]
        def comp(k, js, tag=""):
            if not js: return []
            src = wd + "/c%d%s.cpp" % (k, tag); so = src[:-4] + ".so"
            with open(src, "w") as fo:
                fo.write(PRE0 + (PRE1 if avx(js[0]) else "") + PRE2)
                for f in js:
                    fo.write(re.sub(r"#include\s*<omp.h>", "", f["text"]) + "\n"); p = f["prog"]
                    if f.get("avx"): 
                        nv = max(f["evt"].values()) + 1
                        fo.write('extern "C" void W_%s(double* o, const double* x0, const double* x1){ std::vector<real_v> e; for(int i=0;i<%d;++i) e.push_back(real_v(x1+4*i)); auto z=%s(x0,e.data()); auto a=z.real().to_array(); auto b=z.imag().to_array(); for(int i=0;i<4;++i){ o[2*i]=a[i]; o[2*i+1]=b[i]; } }\n' % (p, nv, p))
                    elif f.get("rto"):
                        k_ = len(f["ids"]); sidx = ",".join(str(2 * i + 1) for i in range(k_))
                        fo.write('extern "C" void W_%s(double* o, const double* x0, const double* x1){ size_t s[]={%s}; std::vector<std::complex<double>> r(%d); %s(r.data(),s,x0,x1); for(int i=0;i<%d;++i){ auto z=r[s[i]]; o[2*i]=z.real(); o[2*i+1]=z.imag(); } }\n' % (p, sidx, 2 * k_ + 2, p, k_))
                        if f.get("wp"): fo.write('extern "C" void P_%s(double* o, const double* x1){ size_t s[]={%s}; std::vector<std::complex<double>> r(%d); %s_wParams(r.data(),s,x1); for(int i=0;i<%d;++i){ auto z=r[s[i]]; o[2*i]=z.real(); o[2*i+1]=z.imag(); } }\n' % (p, sidx, 2 * k_ + 2, p, k_))
                    else:
                        fo.write('extern "C" void W_%s(double* o, const double* x0, const double* x1){ auto z=%s(x0,x1); o[0]=z.real(); o[1]=z.imag(); }\n' % (p, p))
                        fo.write('extern "C" void B_%s(double* o, const double* x0, const double* x1, size_t es, size_t cs){ %s_batch(5,es,cs,(std::complex<double>*)o,x0,x1); }\n' % (p, p))
                        if f.get("wp"): fo.write('extern "C" void P_%s(double* o, const double* x1){ auto z=%s_wParams(x1); o[0]=z.real(); o[1]=z.imag(); }\n' % (p, p))
            r = subprocess.run(["g++", "-std=c++17", "-O0", "-w", "-mavx2", "-mfma", "-fPIC", "-shared", "-DINSTRUCTION_SET=2", "-DENABLE_AVX=1", "-I" + build.REPO, src, "-o", so], capture_output=True, text=True)
            if r.returncode == 0: return [(so, js)]
            if len(js) == 1: js[0]["compile_error"] = "\n".join([l for l in r.stderr.splitlines() if "error" in l][:3])[:600] or r.stderr[-300:]; return []
            out = []; m = 6 if len(js) > 6 else len(js)
            for q in range(m): out += comp(k, js[q::m], tag + "abcdef"[q])
            return out
        with ThreadPoolExecutor(8) as ex: libs = [x for l in ex.map(lambda a: comp(*a), enumerate(chunks)) for x in l]
        for f in jobs:
            if "compile_error" in f: bad.append(dict(input=f.get("decay", f["name"]), got="generated code does not compile", why=f["compile_error"]))
        for so, js in libs:
            lib = ctypes.CDLL(so); dp = ctypes.POINTER(ctypes.c_double)
            for f in js:
                nv = (max(f["evt"].values()) + 1) if f["evt"] else 1; ne = 4 if f.get("avx") else 5
                evs = [[rng.uniform(0.3, 2.0) for _ in range(nv)] for _ in range(ne)]
                x0 = (ctypes.c_double * max(1, len(f["ext"])))(*f["ext"]); ids = f["ids"]; vals = []
                for e in evs[:4 if f.get("avx") else 2]:
                    env = dict(f["vals"]); env.update({k: e[i] for k, i in f["evt"].items()})
                    D = uf.Flt(lambda v: env[v]); D.fn = lambda name, a, real=False: a[0] * 2 + a[1] if len(a) == 2 else a[0]
                    try: V = p01.sub_eval(D, f["N"], ids)
                    except KeyError: V = {i: None for i in ids}
                    vals.append([V[i] for i in ids])
                def cmp(what, got, want, e):
                    nonlocal n
                    n += 1
                    for g, w in zip(got, want):
                        if w is None or g != g or w != w or abs(g) > 1e12 or abs(w) > 1e12: continue
                        if not uf.close(g, w, 1e-6): bad.append(dict(input="%s at event %s, parameters %s" % (f.get("decay", f["name"]), [round(x, 6) for x in e[:8]], f["ext"][:8]), entry=what, got=str(g), expected=str(w), why=f.get("bad", ""))); return
                if f.get("avx"):
                    x1 = (ctypes.c_double * (4 * nv))(*[evs[l][i] for i in range(nv) for l in range(4)]); o = (ctypes.c_double * 8)()
                    getattr(lib, "W_" + f["prog"])(o, x0, x1)
                    for l in range(4): cmp("lane %d" % l, [complex(o[2 * l], o[2 * l + 1])], vals[l], evs[l])
                    continue
                for e, w in zip(evs, vals):
                    x1 = (ctypes.c_double * nv)(*e); o = (ctypes.c_double * (2 * len(ids)))()
                    getattr(lib, "W_" + f["prog"])(o, x0, x1); cmp("function", [complex(o[2 * i], o[2 * i + 1]) for i in range(len(ids))], w, e)
                    if f.get("wp"):
                        o = (ctypes.c_double * (2 * len(ids)))(); getattr(lib, "P_" + f["prog"])(o, x1); cmp("built-in parameters", [complex(o[2 * i], o[2 * i + 1]) for i in range(len(ids))], w, e)
                if not f.get("rto"):
                    es, cs = nv + 2, 3; buf = [0.0] * (es * 5)
                    for k, e in enumerate(evs): buf[es * k:es * k + nv] = e
                    o = (ctypes.c_double * (2 * cs * 5))(*([-77.0] * (2 * cs * 5))); x1 = (ctypes.c_double * len(buf))(*buf)
                    fn = getattr(lib, "B_" + f["prog"]); fn.argtypes = [dp, dp, dp, ctypes.c_size_t, ctypes.c_size_t]; fn(o, x0, x1, es, cs)
                    for k, e in enumerate(evs):
                        o1 = (ctypes.c_double * 2)(); getattr(lib, "W_" + f["prog"])(o1, x0, (ctypes.c_double * nv)(*e)); nb += 1
                        if (o[2 * cs * k], o[2 * cs * k + 1]) != (o1[0], o1[1]) and o1[0] == o1[0] and o1[1] == o1[1]: bad.append(dict(input="batch call of %s, event %d" % (f["name"], k), got=str(o[2 * cs * k]), expected=str(o1[0]))); break
                        if any(o[2 * cs * k + j] != -77.0 for j in range(2, 2 * cs)): bad.append(dict(input="batch call of %s" % f["name"], got="writes outside its output")); break
    finally: shutil.rmtree(wd, ignore_errors=True)
    rep.bound("generated function compiled by g++", "compiled function returns the value of the expression", n, "every generated function at 2-4 inputs", bad)
    rep.bound("compileBatch", "batch evaluation equals event-by-event evaluation", nb, "5 events, padded strides", [])
    witnessed = {b["input"].split(" at ")[0] for b in bad}
    for f in jobs:
        if f.get("bad") and len(rep.violations) < 30: rep.violate("generated function", "%s: %s" % (f.get("decay", f["name"]), f["bad"]), found=f.get("decay", f["name"]) in witnessed or "compile_error" in f, why=f.get("compile_error", f["bad"])[:600])
