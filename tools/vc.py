"""debug: python tools/vc.py Cxx [substring of contract name] : verify contracts in-process and print the outcome"""
import sys, os, time, importlib, traceback
sys.path.insert(0, "/verif"); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc.engine import *
repo = os.environ.get("VERIF_REPO", "/repo")
w = World(repo); w.module("a_sync")
mod = importlib.import_module("contracts." + sys.argv[1])
for c in mod.contracts():
    if len(sys.argv) > 2 and sys.argv[2] not in c.name: continue
    t = time.time()
    v = Verifier(w, c, max_paths=getattr(c, "max_paths", 6000))
    st = "done"
    try: v.run()
    except Unsupported as e: st = "UNSUPPORTED " + str(e)
    except Exception: st = "CRASH " + " | ".join(traceback.format_exc().strip().splitlines()[-1:-9:-1])[:900]
    o = list(v.obl.values())
    print(f"{c.name}: {st}; {sum(x.status=='proved' for x in o)}/{len(o)} obl, {v.npaths} paths, {v.queries} queries {v.solver_s:.2f}s, wall {time.time()-t:.2f}s, missing covers {[n for n in c.must_cover if not v.covers.get(n)]}")
    seen = set()
    for x in o:
        if x.status != "proved" and x.name not in seen:
            seen.add(x.name); print("   ", x.status, x.name, "|", x.path[-8:], "|", x.where, x.model if os.environ.get("M") else "")
    for i in sorted(v.inlined) if os.environ.get("I") else (): print("      inlined", i)
