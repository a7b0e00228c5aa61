#!/usr/bin/env python3-vt
import sys, os, importlib, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.setrecursionlimit(100000)
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import report
    m = importlib.import_module(pid.lower())
    rep = report.Report(pid, tier, seed)
    import build
    try: m.run(rep, tier == "thorough", seed)
    except build.BuildError as e:
        print("cannot attach to the current tree (harness does not build or load): no answer\n" + str(e)); sys.exit(2)
    except (MemoryError, OSError, subprocess.SubprocessError) as e: print("no answer: %r" % e); sys.exit(2)
    except Exception as e:      # an answer of the code the oracle has no reading for (non-finite, missing, of another shape): the obligation that reads it fails
        import traceback; t = traceback.format_exc(); print(t[-1500:]); rep.violate("answers of the code", "every answer can be read by its obligation", why=t[-1500:], found=False)
    sys.exit(rep.finish(m.LEVEL))
main()
