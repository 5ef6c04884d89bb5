#!/opt/venv/bin/python
"""python check.py Cxx   (VERIF_TIER=quick|thorough, VERIF_SEED): decides one property on /repo's current tree.

1. the contracts of contracts/Cxx.py are verified, function by function, on the code parsed from /repo (pyvc);
2. drivers/Cxx.py runs the real code (scratch build of the same tree) on enumerated cases: it replays what the verifier refuted, and is the
   bounded stand-in for contracts the verifier cannot decide;
3. exit 0, or VIOLATION + exit 1.  Any internal failure exits 2.
"""
import importlib
import json
import multiprocessing as mp
import os
import pickle
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
PRE = {}


def verify_one(arg):
    """worker: verify contract number i of property pid"""
    pid, i, tier, budget = arg
    t0 = time.time()
    res = {"name": f"{pid}#{i}", "status": "crash", "obl": [], "detail": ""}
    try:
        from pyvc.engine import Unsupported, Verifier, World

        mod = importlib.import_module("contracts." + pid)
        w = PRE.get("world") or World(REPO)
        c = mod.contracts()[i]
        res["name"] = c.name
        v = Verifier(w, c, timeout_ms=10000 if tier == "quick" else 60000, deadline=t0 + budget, keep_smt=tier == "thorough", max_paths=getattr(c, "max_paths", 6000))
        try:
            w.module("a_sync")
            v.run()
            res["status"] = "done"
        except Unsupported as e:
            res["status"] = "unsupported"
            res["detail"] = str(e)[:1500]
        except RecursionError:
            res["status"] = "unsupported"
            res["detail"] = "recursion limit"
        obl = list(getattr(v, "obl", {}).values())
        cov = dict(getattr(v, "covers", {}))
        if res["status"] == "done":
            miss = [n for n in getattr(c, "must_cover", []) if not cov.get(n)]
            if miss:
                res["status"] = "vacuous"
                res["detail"] = f"not reachable: {miss}"
            elif not obl:
                res["status"] = "vacuous"
                res["detail"] = "no obligations"
        cross = None
        if tier == "thorough" and res["status"] == "done":
            cross = cvc5_cross(obl, t0 + budget)
        res.update(
            obl=[{"name": o.name, "status": o.status, "path": o.path[-12:], "model": o.model, "where": o.where} for o in obl if o.status != "proved"][:40],
            n=len(obl), proved=sum(o.status == "proved" for o in obl), names=sorted({o.name for o in obl}), covers=cov,
            paths=getattr(v, "npaths", 0), passes=getattr(v, "passes", 0), solver_s=round(v.solver_s, 2), queries=v.queries,
            inlined=sorted(getattr(v, "inlined", ())), assumed=sorted(set(getattr(v, "assumed", ())) | set(getattr(c, "assumes", ()))), cvc5=cross,
        )
    except Exception:
        res["detail"] = traceback.format_exc()[-3000:]
    res["wall"] = round(time.time() - t0, 2)
    return res


def start_verifying(pid, n, tier, budget, outdir):
    """up to 8 single-threaded processes (forked before this one starts anything else), each taking the next contract and verifying it in a
    child of its own; the results are pickled to files"""
    nxt = mp.get_context("fork").Value("i", 0)
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for _ in range(min(8, max(1, n))):
        p = os.fork()
        if p:
            try:
                os.setpgid(p, p)
            except OSError:
                pass
            pids.append(p)
            continue
        try:
            os.setpgid(0, 0)
            while True:
                with nxt.get_lock():
                    i = nxt.value
                    nxt.value += 1
                if i >= n:
                    break
                c = os.fork()
                if c == 0:
                    try:
                        r = verify_one((pid, i, tier, budget))
                        tmp = os.path.join(outdir, f"r{i}.tmp")
                        with open(tmp, "wb") as f:
                            pickle.dump(r, f)
                        os.rename(tmp, os.path.join(outdir, f"r{i}.pickle"))
                    finally:
                        os._exit(0)
                os.waitpid(c, 0)
        finally:
            os._exit(0)
    return pids


def verified(pids, pid, n, outdir, deadline):
    live = set(pids)
    while live and time.time() < deadline:
        for p in list(live):
            try:
                if os.waitpid(p, os.WNOHANG)[0]:
                    live.discard(p)
            except ChildProcessError:
                live.discard(p)
        time.sleep(0.02)
    out = []
    for i in range(n):
        f = os.path.join(outdir, f"r{i}.pickle")
        try:
            with open(f, "rb") as fh:
                out.append(pickle.load(fh))
            os.remove(f)
        except Exception as e:
            out.append({"name": f"{pid}#{i}", "status": "crash", "obl": [], "detail": f"no result of the verifier: {type(e).__name__}: {e}"})
    return out


def cvc5_cross(obl, deadline):
    """re-discharge the SMT-LIB obligations with cvc5 (z3 syntax accepted by both)"""
    import cvc5

    agree = unknown = dis = 0
    for o in obl:
        if not o.smt or o.status != "proved" or time.time() > deadline:
            continue
        try:
            s = cvc5.Solver()
            s.setOption("tlimit-per", "5000")
            s.setLogic("ALL")
            p = cvc5.InputParser(s)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, o.smt.replace("(check-sat)", ""), "o")
            sm = p.getSymbolManager()
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                cmd.invoke(s, sm)
            r = s.checkSat()
            if r.isUnsat():
                agree += 1
            elif r.isSat():
                dis += 1
            else:
                unknown += 1
        except Exception:
            unknown += 1
    return {"agree": agree, "unknown": unknown, "disagree": dis}


def load_known(pid):
    known, fixed = [], []
    p = os.path.join(HERE, "known", "findings.txt")
    for line in open(p):
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        if line.startswith("fixed: "):
            if f"property={pid} " in line:
                fixed.append(line)
        elif line.startswith(f"property={pid} "):
            kv = dict(x.split("=", 1) for x in line.split(" ", 2)[:2])
            known.append((kv.get("key", ""), line.split(" ", 2)[2] if line.count(" ") > 1 else ""))
    return known, fixed


def run_driver(pid, root, tier, budget, outfile, case=None, skip=()):
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    for k in list(env):
        if k.startswith("A_SYNC_") or k.startswith("PYTHONASYNCIO"):
            del env[k]
    cmd = [VENV, "-m", "drivers.run", pid, "--root", root, "--tier", tier, "--budget", str(budget), "--out", outfile]
    if case:
        cmd += ["--case", case]
    if skip:
        cmd += ["--skip", "\x1f".join(skip)]
    hang = budget + 60
    p = subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        log, _ = p.communicate(timeout=hang)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        log, _ = p.communicate()
        rc = "timeout"
    ev = []
    try:
        for line in open(outfile):
            try:
                ev.append(json.loads(line))
            except ValueError:
                pass
    except OSError:
        pass
    return rc, ev, log.decode("utf-8", "replace")[-3000:]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    outdir = os.path.join(HERE, "out", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    from pyvc import build

    mod = importlib.import_module("contracts." + pid)
    cs = mod.contracts()
    vbudget = 240 if tier == "quick" else 700
    dbudget = 25 if tier == "quick" else 150
    dbudget = float(os.environ.get("VERIF_DRIVER_BUDGET", dbudget))
    try:
        from pyvc.engine import World

        w = World(REPO)
        w.module("a_sync")
        PRE["world"] = w
    except Exception as e:
        print(f"front end: {type(e).__name__}: {e}", file=sys.stderr)
    work = start_verifying(pid, len(cs), tier, vbudget, outdir)
    root = None
    violations = []
    known, fixed = load_known(pid)
    try:
        try:
            root, compiled = build.scratch(REPO)
        except RuntimeError as e:
            print(f"the tree does not build: {e}", file=sys.stderr)
            return 2
        ncases, drv_samples, drv_complete, drv_bad, space = 0, [], True, [], ""
        known_hit = []
        if os.path.exists(os.path.join(HERE, "drivers", pid + ".py")):
            skip = []
            for attempt in range(6):
                rc, ev, log = run_driver(pid, root, tier, dbudget, os.path.join(outdir, f"driver{attempt}.jsonl"), skip=skip)
                starts = [e["case"] for e in ev if e["ev"] == "start"]
                bads = [e for e in ev if e["ev"] == "bad"]
                end = next((e for e in ev if e["ev"] == "end"), None)
                drv_bad += bads
                if end:
                    ncases += end["n"]
                    drv_samples = end["samples"]
                    drv_complete = drv_complete and end["complete"]
                    space = end["space"]
                    break
                if not starts:
                    print(f"driver did not start: {log}", file=sys.stderr)
                    return 2
                last = starts[-1]
                # the process died in this case: confirm that it dies on this case alone (or at import)
                rc2, ev2, log2 = run_driver(pid, root, tier, dbudget, os.path.join(outdir, "confirm.jsonl"), case=last if last != "import a_sync" else "none")
                end2 = next((e for e in ev2 if e["ev"] == "end"), None)
                if end2 is None:
                    drv_bad.append({"case": last, "why": f"the process running the case ended abnormally ({rc}): {log[-800:]}"})
                elif last != "import a_sync" and rc == "timeout":
                    drv_bad.append({"case": last, "why": "the case does not end"})
                else:
                    drv_bad.append({"case": last, "why": f"the process ended abnormally ({rc}) in the course of the cases up to this one: {log[-800:]}"})
                ncases += len(starts)
                if last == "import a_sync":
                    break
                skip.append(last)
        results = verified(work, pid, len(cs), outdir, t0 + vbudget + 300)
    finally:
        for wpid in work:
            try:
                os.killpg(wpid, 9)
            except OSError:
                pass
        if root:
            shutil.rmtree(root, ignore_errors=True)
    crashed = [r for r in results if r["status"] == "crash"]
    # classify
    real_bad = []
    for b in drv_bad:
        k = next((k for k in known if k[0] and b["case"].startswith(k[0])), None)
        if k:
            known_hit.append((k, b))
        else:
            real_bad.append(b)
    failed = [(r, o) for r in results if r["status"] in ("done",) for o in r["obl"] if o["status"] == "failed"]
    unknown = [(r, o) for r in results for o in r["obl"] if o["status"] == "unknown"]
    failed_known = []
    f2 = []
    for r, o in failed:
        k = next((k for k in known if k[0] and k[0].startswith("obl:") and (r["name"] + "/" + o["name"]).startswith(k[0][4:])), None)
        (failed_known if k else f2).append((k, r, o) if k else (r, o))
    failed = f2
    undecided = [r for r in results if r["status"] in ("unsupported", "vacuous", "crash")]
    total = sum(r.get("n", 0) for r in results)
    proved = sum(r.get("proved", 0) for r in results)
    for k, why in known:
        print(f"KNOWN-FINDING: property={pid} {why}")
    exit_code = 0
    if real_bad or failed:
        exit_code = 1
        rp = os.path.join(outdir, "replay.json")
        with open(rp, "w") as f:
            json.dump({
                "property": pid, "tree": REPO,
                "failed_obligations": [{"contract": r["name"], **o} for r, o in failed],
                "failing_cases": real_bad,
                "replay": [f"cd {HERE} && root=$({VENV} -m pyvc.build {REPO} | cut -d' ' -f1) && PYTHONPATH={HERE} {VENV} -m drivers.run {pid} --root $root --case '{b['case']}'" for b in real_bad],
            }, f, indent=1, default=repr)
        for r, o in failed:
            print(f"failed obligation: {r['name']}: {o['name']} at {o['where']}")
        for b in real_bad:
            print(f"failing case on the real code: {b['case']}: {b['why']}")
        violations = real_bad or failed
        print(f"VIOLATION property={pid} replay={rp}" + ("" if real_bad else " no-failing-input-found"))
    for r in undecided:
        print(f"undecided by the verifier ({r['status']}): {r['name']}: {r['detail'][:400]}; bounded stand-in: driver, {ncases} cases")
    for r, o in unknown:
        print(f"solver gave up: {r['name']}: {o['name']}; bounded stand-in: driver, {ncases} cases")
    trusted = sorted({a for r in results for a in r.get("assumed", ())})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": total, "discharged": proved,
            "checker_cmd": f"{VENV} check.py {pid}",
            "trusted_base": ["pyvc (this VC generator) and z3 " + z3_version()] + trusted,
            "back_ends": {"z3": {"queries": sum(r.get("queries", 0) for r in results), "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2)},
                          "cvc5": [r.get("cvc5") for r in results if r.get("cvc5")]},
            "contracts": [{k: r.get(k) for k in ("name", "status", "n", "proved", "paths", "passes", "wall", "names", "detail")} for r in results],
            "functions_under_contract": sorted({q for c in cs for q in getattr(c, "functions", ())}),
            "functions_inlined_from_source": sorted({q for r in results for q in r.get("inlined", ())}),
            "undecided_contracts": [r["name"] for r in undecided],
            "unknown_obligations": [f"{r['name']}: {o['name']}" for r, o in unknown],
            "bounded_cases_on_real_code": {"cases": ncases, "complete": drv_complete, "space": space, "samples": drv_samples, "modules_compiled": compiled,
                                           "note": "bounded cross-check and replay of refutations; not counted as proved"},
        },
        "assumptions": trusted,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print(f"{pid}: {proved}/{total} obligations discharged in {len(results)} contracts, {ncases} concrete cases, {ev['wall_s']}s")
    if exit_code == 0 and crashed:
        for r in crashed:
            print(r["detail"], file=sys.stderr)
        # the generator itself failed: the concrete cases still decide, as the bounded stand-in
        if ncases == 0:
            return 2
    return exit_code


def z3_version():
    import z3

    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
