"""Driver for harness/text.cpp: each line is a scenario (list of commands, each a list of fields); answers come back per command."""
import os, tempfile, build, oblig
def enc(s): return "".join(c if c.isalnum() or c in "_.+-" else "".join("%%%02X" % b for b in c.encode("latin1")) for c in str(s))
def ask(scen, timeout=600):
    exe = build.harness("text")
    fd, p = tempfile.mkstemp(prefix="scr", dir=build.BUILD); os.close(fd)
    try:
        with open(p, "w") as f:
            for s in scen: f.write("\t%3B%3B\t".join("\t".join(enc(x) for x in c) for c in s) + "\n")
        os.environ["H_SCRIPT"] = p
        d = oblig.run_harness(exe, ["script"], timeout=timeout)
        if not d["recs"] or "json" not in d["recs"][0]: raise build.BuildError("text harness gave no answer: " + str(d.get("crash"))[:1000])
        r = d["recs"][0]["json"]; assert len(r) == len(scen)
        return r
    finally: os.remove(p)
def bad(a): return isinstance(a, str) and a.startswith("!")
