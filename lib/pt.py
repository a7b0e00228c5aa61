"""Driver for harness/particle.cpp: runs a list of commands on the real code, returns the decoded answers."""
import os, tempfile, build, oblig
def ask(lines, exe=None, env=None, timeout=600):
    exe = exe or build.harness("particle")
    fd, p = tempfile.mkstemp(prefix="scr", dir=build.BUILD); os.close(fd)
    try:
        with open(p, "w") as f:
            for l in lines: f.write("\t".join(str(x) for x in l) + "\n")
        os.environ["H_SCRIPT"] = p
        d = oblig.run_harness(exe, ["script"], timeout=timeout)
        if not d["recs"] or "json" not in d["recs"][0]: raise build.BuildError("particle harness gave no answer: " + str(d.get("crash"))[:1000])
        r = d["recs"][0]["json"]
        assert len(r) == len(lines)
        return r
    finally: os.remove(p)
def table(exe=None):
    d = oblig.run_harness(exe or build.harness("particle"), ["table"])
    return d["recs"][0]["json"], d["recs"][1]["json"]
def bad(a): return isinstance(a, str) and a.startswith("!")
