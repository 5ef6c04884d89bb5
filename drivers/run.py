"""python -m drivers.run Cxx --root SCRATCH [--case NAME] [--tier quick] [--budget SECONDS] --out FILE"""
import argparse
import faulthandler
import importlib
import json
import os
import sys
import time
import traceback
import warnings

ap = argparse.ArgumentParser()
ap.add_argument("pid")
ap.add_argument("--root", required=True)
ap.add_argument("--case")
ap.add_argument("--tier", default="quick")
ap.add_argument("--budget", type=float, default=20)
ap.add_argument("--out")
ap.add_argument("--skip", default="")
a = ap.parse_args()
sys.path.insert(0, a.root)
sys.path[:] = [a.root] + [p for p in sys.path if p != a.root and os.path.realpath(p or ".") != "/repo"]
sys.meta_path[:] = [f for f in sys.meta_path if "__editable__" not in getattr(f, "__module__", "") and "__editable__" not in getattr(f, "__name__", "")]
warnings.simplefilter("ignore")
import logging

logging.disable(logging.CRITICAL)
out = open(a.out, "w") if a.out else sys.stdout


def emit(**k):
    out.write(json.dumps(k, default=repr) + "\n")
    out.flush()


emit(ev="start", case="import a_sync")
import a_sync

assert os.path.realpath(a_sync.__file__).startswith(os.path.realpath(a.root)), a_sync.__file__
from drivers import lib

mod = importlib.import_module("drivers." + a.pid)
t0 = time.time()
n, bad, names, done = 0, 0, [], True
skip = set(filter(None, a.skip.split("\x1f")))
for name, thunk in mod.cases(a.tier):
    if a.case is not None and name != a.case:
        continue
    if name in skip:
        continue
    if time.time() - t0 > a.budget and a.case is None:
        done = False
        break
    emit(ev="start", case=name)
    try:
        thunk()
        n += 1
    except lib.Bad as e:
        n += 1
        bad += 1
        emit(ev="bad", case=name, why=str(e)[:2000])
        if bad >= 5:
            break
    except BaseException as e:
        n += 1
        bad += 1
        emit(ev="bad", case=name, why=f"unexpected {type(e).__name__}: {e}"[:1500], tb=traceback.format_exc()[-3000:])
        if bad >= 5:
            break
    if len(names) < 12:
        names.append(name)
emit(ev="end", n=n, bad=bad, complete=done, samples=names, wall=round(time.time() - t0, 2), space=getattr(mod, "SPACE", ""))
out.flush()
os._exit(0)
