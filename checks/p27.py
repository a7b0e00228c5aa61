"""P27: the text helpers on which descriptors, options and file names rest honour their contracts on every string."""
import tx, random, itertools, re, os, math, shutil, tempfile, fnmatch, build
LEVEL = "exploration"
def words(al, n): return ["".join(w) for k in range(n + 1) for w in itertools.product(al, repeat=k)]
def split1(s, d, ign):
    r = s.split(d)
    if r and r[-1] == "": r.pop()          # text ends with its last non-empty piece, as with getline
    return [x for x in r if not ign or x not in ("", " ", "\n", "\t")]
def split2(s, ds, keep):
    out = []; cur = ""
    for c in s:
        if c in ds:
            if cur: out.append(cur)
            if keep: out.append(c)
            cur = ""
        else: cur += c
    return out + ([cur] if cur else [])
def items(s, o="{", c="}", sep=","):
    """X{a,b{c,d},e} -> [X, a, b{c,d}, e]; text without brackets stays whole"""
    if o not in s and c not in s: return [s]
    i = s.index(o); out = [s[:i]]; depth = 0; cur = ""
    for ch in s[i:]:
        if ch == o:
            depth += 1
            if depth == 1: continue
        elif ch == c:
            depth -= 1
            if depth == 0: out.append(cur); break
        elif ch == sep and depth == 1: out.append(cur); cur = ""; continue
        cur += ch
    return out
def balanced(rng, d):
    n = rng.choice(["a", "b", "Kp", "", "x[P;GS]"])
    if d == 0 or rng.random() < .4: return n or "z"
    return n + "{" + ",".join(balanced(rng, d - 1) for _ in range(rng.randrange(1, 4))) + "}"
def findall(s, p): return [i for i in range(len(s)) if s.startswith(p, i)]
def edit(a, b):
    p = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        q = [i]
        for j, y in enumerate(b, 1): q.append(min(p[j] + 1, q[-1] + 1, p[j - 1] + (x != y)))
        p = q
    return p[-1]
def fnv(s):
    h = 2166136261
    for c in s.encode("latin1"): h = ((h ^ c) * 16777619) & 0xffffffff
    return h
def lex(w):
    def num(f, rx):
        m = re.fullmatch(rx, w); return [1, f(w)] if m else [0, None]
    D = r"\s*[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)"; I = r"\s*[+-]?\d+"
    return [num(float, D), num(int, I), num(int, I.replace("[+-]?", r"\+?")), num(float, D), [1, 1] if w in ("1", "true") else [1, 0] if w in ("0", "false") else [0, None], num(int, I), num(int, I.replace("[+-]?", r"\+?"))]
def run(rep, deep, seed):
    rng = random.Random("p27:%d" % seed); cases = []   # (group, commands, expected, checker)
    eq = lambda g, w: g == w
    def C(grp, cmd, want, chk=eq): cases.append((grp, cmd, want, chk))
    ab = words("ab", 6); 
    # split
    for s in words("a ,\t", 5): 
        C("split on a character", ["split1", s, ",", 1], split1(s, ",", True)); C("split on a character", ["split1", s, ",", 0], split1(s, ",", False))
    for s in words("a+-(", 5):
        for keep in (0, 1): C("split on several characters", ["split2", s, "+-", keep], split2(s, "+-", keep))
    # nested lists
    for _ in range(3000 if deep else 800):
        s = balanced(rng, 4); C("nested lists", ["items", s], items(s))
        t = s.replace("{", "(").replace("}", ")").replace(",", ";") if "[" not in s else None
        if t: C("nested lists", ["items", t, "(", ")", ";"], items(t, "(", ")", ";"))
    for s in ("a{b", "a{b{c}", "}", "a{b,c"): C("nested lists", ["items", s], [])   # refused: odd number of brackets
    # search and replace
    for s in rng.sample(ab, len(ab)) if not deep else words("ab", 8):
        for p in ("a", "ab", "aa", "aba"): C("find all occurrences", ["findall", s, p], findall(s, p))
        for p, q in (("a", "b"), ("ab", ""), ("a", ""), ("a", "aa"), ("aa", "a"), ("b", "aba"), ("ab", "ba"), ("ba", "bba")): C("replace all occurrences", ["replace", s, p, q], s.replace(p, q))
    for s in words("abc", 5): C("replace all occurrences", ["replaces", s, "a", "b", "b", "cc"], s.replace("a", "b").replace("b", "cc"))
    for _ in range(300):
        s = "".join(rng.choice("abc.") for _ in range(rng.randrange(9))); ps = rng.sample(["a", "b", ".", "bc", "cc"], rng.randrange(1, 4)); b = rng.randrange(4)
        C("first of several patterns", ["next", s, b] + ps, min([i for p in ps for i in findall(s, p) if i >= b], default=-1))
        qs = rng.sample(["a", "b", "."], 2); C("find all occurrences", ["vecfind", s] + qs, [[i, c] for i, c in enumerate(s) if c in qs])
    for s in words("abc", 4): C("exchange two characters", ["swap", s, "a", "b"], s.translate(str.maketrans("ab", "ba")))
    # wildcards
    for p in words("ab*", 4):
        rx = re.compile("".join(".*" if c == "*" else c for c in p) + r"\Z", re.S)
        for s in words("ab", 4): C("wildcards", ["wild", s, p], int(bool(rx.match(s))))
    # distances, hashes, numbers
    W = words("abc", 4)
    for _ in range(2000): x, y = rng.choice(W), rng.choice(W) + rng.choice(["", "a", "abcab"]); C("edit distance", ["edit", x, y], edit(x, y))
    for _ in range(400): x = "".join(rng.choice("abcdK*()+-{},") for _ in range(rng.randrange(5, 40))); y = "".join(c if rng.random() < .8 else rng.choice(["", "z", c + c]) for c in x) if rng.random() < .7 else "".join(rng.choice("abcd") for _ in range(rng.randrange(30))); C("edit distance", ["edit", x, y], edit(x, y))
    for _ in range(300): s = "".join(chr(rng.randrange(32, 127)) for _ in range(rng.randrange(20))); C("hash", ["hash", s], fnv(s))
    for s in words("a \t\n", 4): C("trim", ["trim", s], [s.lstrip(), s.rstrip(), s.strip()])
    num = ["0", "1", "-1", "+3", "2.5", "-.5", "1e3", "1E-2", "007", "1.", "12345678", "-99", "true", "false", "x", "1x", "1.5.2", "--1", "1e", "Free", "1 ", "0.1", "3e+5", "-2.5e-3", "010", "-010", "0100", "08", "TRUE", "yes"]
    cmdneg = lambda w: w[0][0] and w[0][1] < 0
    def lk(g, w):
        for k, ((gs, gv), (ws, wv)) in enumerate(zip(g, w)):
            if k in (2, 6) and cmdneg(w): continue   # negative text for an unsigned type: C conversion, not claimed
            if gs != ws: return False
            if ws and not (abs(gv - wv) <= (1e-6 if k == 3 else 0) * abs(wv)): return False
        return True
    for s in num + [repr(rng.uniform(-1e3, 1e3)) for _ in range(200)] + [str(rng.randrange(10 ** 6)) for _ in range(50)]: C("numbers from text", ["lex", s], lex(s), lk)
    C("numbers from text", ["lex", ""], None, lambda g, w: g[4][0] == 0)                      # no truth value in an empty text
    for s in ("1", "0", "true", "2.5", "x"): C("numbers from text", ["lexf", s], [0] * 7)      # an earlier failure is not forgotten
    for _ in range(400):
        n = rng.randrange(0, 7); x = rng.choice([rng.uniform(-10, 10), rng.uniform(-1e4, 1e4), rng.uniform(-1, 1) * 1e-3])
        C("rounding", ["round", repr(x), n], (x, n), lambda g, w: re.fullmatch(r"-?\d+" + (r"\.\d{%d}" % w[1] if w[1] else ""), g) is not None and abs(float(g) - w[0]) <= .5000001 * 10.0 ** -w[1] + 1e-9 * abs(w[0]))
        e = abs(x) / 7; C("rounding", ["werr", repr(x), repr(e), n], (x, e, n), lambda g, w: len(g.split("\\pm")) == 2 and all(re.fullmatch(r"-?\d+" + (r"\.\d{%d}" % w[2] if w[2] else ""), t) and abs(float(t) - v) <= .5000001 * 10.0 ** -w[2] + 1e-9 * abs(v) for t, v in zip(g.split("\\pm"), w[:2])))
    # combinatorics
    for n in range(0, 9 if deep else 7):
        for r in range(0, n + 1): C("combinations", ["ncr", n, r], sorted(list(c) for c in itertools.combinations(range(n), r)), lambda g, w: sorted(g) == w)
    for _ in range(120):
        k = [rng.randrange(1, 4) for _ in range(rng.randrange(1, 5))]; off = list(itertools.accumulate([0] + k)); C("combinations", ["comb"] + k, [list(x) for x in itertools.product(*[range(off[i], off[i + 1]) for i in range(len(k))])])
    for _ in range(60): v = [rng.choice("abc") * rng.randrange(3) for _ in range(rng.randrange(5))]; C("joining", ["vts", rng.choice([",", "", " - "])] + v, None, lambda g, w: True); cases[-1] = (cases[-1][0], cases[-1][1], cases[-1][1][1].join(v), eq)
    for _ in range(60):
        v = [rng.randrange(100) for _ in range(rng.randrange(60))]; C("parallel sort", ["psort", rng.choice([2, 3, 8, 1000])] + v, sorted(v)); C("parallel sum", ["pacc"] + v, 2 * sum(v))
    # files
    d = tempfile.mkdtemp(prefix="p27.", dir=build.BUILD)
    try:
        fs = ["a1.txt", "a2.txt", "b1.dat", "xay.txt", "aa.txt"]; lines = ["# c", "one two", "", "* star", "  three", "four # not a comment", "five\r"]
        for f in fs: open(os.path.join(d, f), "w").write("")
        os.makedirs(os.path.join(d, "sub1")); os.makedirs(os.path.join(d, "sub2")); open(d + "/sub1/q.txt", "w").write(""); open(d + "/sub2/r.txt", "w").write(""); open(d + "/lines", "w").write("\n".join(lines) + "\n")
        strip = lambda c: [l.replace("\r", "") for l in lines if l.replace("\r", "") and l[0] != c]
        C("files", ["file", d + "/lines"], strip("#")); C("files", ["file", d + "/lines", "*"], strip("*"))
        C("files", ["exists", d + "/a1.txt"], [1, 0]); C("files", ["exists", d], [1, 1]); C("files", ["exists", d + "/none"], [0, 0])
        srt = lambda g, w: sorted(g) == sorted(w)
        allf = fs + ["sub1", "sub2", "lines"]
        for p in ("*.txt", "a*", "*1*", "a*.txt", "*", "b1.dat", "a*y*", "*a*.txt", "zz*"): C("file lists", ["ls", d, p], [d + "/" + f for f in allf if re.match("".join(".*" if c == "*" else re.escape(c) for c in p) + r"\Z", f)], srt)
        C("file lists", ["ls", d], [d + "/" + f for f in allf], srt); C("file lists", ["ls", d + "/sub*"], [d + "/sub1/q.txt", d + "/sub2/r.txt"], srt)
        for t, w in (("${HV}/x/y", "/base/x/y"), ("$HV/x", "/base/x"), ("$HV", "/base"), ("${HV}", "/base"), ("/p/$HV/q.txt", "/p//base/q.txt"), ("/p/${HV}q", "/p//baseq"), ("$HV/$HW/z", "/base/w.1/z"), ("${HV}${HW}/z", "/basew.1/z"), ("plain/path", "plain/path"), ("$HV.opt", "/base.opt"), ("$H_V2/x", "/under/x"), ("${H_V2}_y/x", "/under_y/x"), ("a/$H_V2", "a//under"), ("$HV/a_b-c/d", "/base/a_b-c/d")): C("environment variables in paths", ["expand", t], w)
        pre = [["setenv", "HV", "/base"], ["setenv", "HW", "w.1"], ["setenv", "H_V2", "/under"]]
        A = tx.ask([pre + [c[1]] for c in cases], timeout=800)
    finally: shutil.rmtree(d)
    by = {}
    for (g, cmd, w, chk), a in zip(cases, A):
        b = by.setdefault(g, [0, []]); b[0] += 1
        if tx.bad(a): b[1].append(dict(input=cmd, got=a, want=w)); continue
        try: ok = chk(a[-1], w)
        except Exception as e: ok = False
        if not ok: b[1].append(dict(input=cmd, got=a[-1], want=w))
    for g, (n, bad) in by.items():
        bad.sort(key=lambda b: len(str(b["input"]))); rep.bound("text", g, n, "all strings over small alphabets up to the stated length, and random ones", bad[:2])
    rep.functions += "split vectorFromFile findAll vecFindAll replaceAll getItems find_next_of editDistance round numberWithError stringMatchesWildcard FNV1a_hash swapChars trim ltrim rtrim expandGlobals isDir fileExists getListOfFiles lexical_cast nCr all_combinations vectorToString parallel_sort parallel_accumulate processFile".split()
    rep.explored(len(cases), len(cases), "each helper on all strings over an alphabet of two to four characters up to length 4-6 and on random strings", [c[1] for c in cases[:3]])
