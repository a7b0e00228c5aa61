#!/usr/bin/env python3-vt
"""pre-builds the AmpGen objects and the harnesses from /repo's current tree (the checks rebuild whatever changed)"""
import os, sys, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build
from concurrent.futures import ThreadPoolExecutor
build.lib()
hs = [os.path.basename(f)[:-4] for f in glob.glob(os.path.join(build.VERIF, "harness", "*.cpp"))]
def b(h):
    try: build.harness(h, **(dict(opt=("-O1",)) if h == "pool" else {})); return h, "ok"
    except build.BuildError as e: return h, str(e)[-500:]
with ThreadPoolExecutor(8) as ex:
    for h, r in ex.map(b, hs): print(h, r)
import sym
S = [("num",), ("event",), ("phsp",), ("tree",), ("numv", ("-DINSTRUCTION_SET=2", "-DENABLE_AVX=1"), (), [build.VERIF + "/harness/sym/lanes"])]
def c(a):
    try: sym.harness(*a); return a[0], "ok"
    except build.BuildError as e: return a[0], str(e)[-300:]
with ThreadPoolExecutor(8) as ex:
    for h, r in ex.map(c, S): print("sym", h, r)
def d(h):
    try: build.rharness(h, **(dict(opt=("-O1",)) if h == "gen" else {})); return h, "ok"
    except build.BuildError as e: return h, str(e)[-300:]
for h in [os.path.basename(f)[:-4] for f in glob.glob(os.path.join(build.VERIF, "harness", "rt", "*.cpp"))]: print("root", *d(h))
