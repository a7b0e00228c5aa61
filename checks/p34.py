"""P34: the thread pool runs every task it accepts exactly once, whatever the schedule."""
import build, oblig, json, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
LEVEL = "exploration"
WHAT = {"destroy": "destroying the pool first finishes every accepted task, once", "wait": "waiting returns when every accepted task has finished, once; the pool can then be destroyed", "twice": "waiting twice is waiting once",
        "late": "after waiting a task is refused or run, never accepted and dropped", "future": "every accepted task is run without further calls, and its future receives its result", "onebyone": "a pool that has been idle wakes up for the next task",
        "throwing": "an exception of a task reaches its future and disturbs no other task", "nested": "a task may add tasks: those accepted are run, once", "together": "a pool of n workers runs n tasks at the same time", "atmost": "a pool of n workers runs at most n tasks at the same time", "clients": "several threads may add tasks at once",
        "off": "with the pool switched off every task is run at once, and its future receives its result"}
def plan(deep):
    """(scenario, workers, tasks, preemptions)"""
    L = [(s, w, k, 2) for s in ("destroy", "wait", "future", "throwing") for w, k in ((1, 0), (1, 1), (1, 3), (2, 1), (2, 2), (2, 3))] + [(s, 3, k, 1) for s in ("destroy", "wait", "future") for k in (1, 2, 3)]
    L += [("twice", w, k, 2) for w, k in ((1, 1), (2, 2))] + [("late", w, k, 2) for w, k in ((1, 2), (2, 3))] + [("onebyone", 1, 3, 2), ("onebyone", 2, 2, 2), ("onebyone", 2, 3, 1), ("onebyone", 3, 2, 1)]
    L += [("nested", 1, 1, 2), ("nested", 1, 2, 2), ("nested", 2, 1, 2), ("nested", 2, 2, 2), ("together", 1, 0, 2), ("together", 2, 0, 2), ("together", 3, 0, 1), ("atmost", 1, 2, 2), ("atmost", 2, 3, 2), ("clients", 1, 1, 2), ("clients", 1, 2, 1), ("clients", 2, 1, 1), ("clients", 2, 2, 1), ("off", 1, 3, 2), ("off", 2, 1, 2)]
    if deep: L += [(s, w, k, 3) for s in ("destroy", "wait", "future", "nested", "throwing") for w, k in ((1, 2), (1, 3), (2, 2))] + [(s, 3, k, 2) for s in ("destroy", "wait", "future") for k in (1, 2, 3)] + [("onebyone", 2, 2, 3), ("onebyone", 3, 2, 2), ("together", 3, 0, 2), ("together", 2, 0, 3), ("clients", 2, 1, 2), ("clients", 2, 2, 2), ("late", 2, 3, 3), ("twice", 2, 2, 3), ("destroy", 4, 4, 1)]
    L += [(s, w, k, 0) for s in ("destroy", "wait", "future") for w, k in ((1, 90), (2, 150), (3, 200), (8, 300))]     # long queues: some schedules only
    return L
def run(rep, deep, seed):
    try: exe = build.harness("pool", opt=("-O1",))
    except build.BuildError as e:
        # the pool uses synchronisation the stand-ins do not offer (or does not compile at all, which the library build reports)
        build.lib(); rep.notes.append("the pool cannot be attached to the controlled scheduler: " + str(e)[-600:]); rep.explored(0, 0, "none: not attachable", []); rep.bound("ThreadPool", "not attached", 0, "nothing explored", []); return
    budget = 240 if deep else 40
    def one(j):
        s, w, k, pb = j
        try: r = subprocess.run([exe, s, str(w), str(k), str(pb), "1000000000" if k < 50 else "300", str(budget if k < 50 else 8)], capture_output=True, text=True, timeout=budget + 120)
        except subprocess.TimeoutExpired: return j, dict(hang=True)
        l = [x for x in r.stdout.splitlines() if x.startswith("{")]
        return j, json.loads(l[-1]) if l else dict(crash="exit %d: %s" % (r.returncode, (r.stderr or r.stdout)[-600:]))
    with ThreadPoolExecutor(8) as ex: R = list(ex.map(one, plan(deep)))
    tot = 0; inc = []; by = {}
    for j, r in R:
        s, w, k, pb = j; tot += r.get("executions", 0); b = []
        if "fail" in r: b = [dict(scenario=s, workers=w, tasks=k, why=r["fail"], schedule=r["schedule"], trace=r["log"])]
        elif "crash" in r: b = [dict(scenario=s, workers=w, tasks=k, why="the program dies: " + r["crash"])]
        elif "hang" in r: rep.notes.append("%s: no answer in time" % (j,))
        elif not r.get("complete") and k < 50: inc.append("%s with %d workers, %d tasks, %d preemptions (%d schedules)" % (s, w, k, pb, r["executions"]))
        n, bb, cfg = by.setdefault(s, [0, [], []]); by[s][0] += r.get("executions", 0); bb += b; cfg.append("%d/%d/%d" % (w, k, pb) + (" (up to 300 schedules)" if k >= 50 else ""))
    rep.explored(tot, sum(1 for j, r in R if r.get("complete")), "every schedule of each scenario with at most the stated number of preemptions and one spurious wake-up; scheduling points are all operations on threads, locks, conditions and the queue", [list(map(str, j)) for j, r in R[:3]])
    for s, (n, bb, cfg) in by.items(): rep.bound("ThreadPool." + s, WHAT[s], n, "workers/tasks/preemptions: " + " ".join(cfg), bb[:2])
    if inc: rep.notes.append("time budget reached before all schedules were seen: " + "; ".join(inc))
    rep.functions += ["ThreadPool::ThreadPool", "ThreadPool worker loop", "ThreadPool::enqueue", "ThreadPool::waitForStoppedThreads", "ThreadPool::~ThreadPool"]
    rep.trusted += ["g++", "the stand-ins for std::thread, mutex, condition_variable, lock guards and queue in harness/pool.cpp", "std::packaged_task, std::future, std::function"]
    rep.assumptions += ["sequential consistency; accesses outside the stand-ins (the stop flag) are interleaved only at the surrounding scheduling points"]
