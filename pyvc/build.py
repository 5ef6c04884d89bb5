"""Scratch copy of /repo's package with extension modules that match its current sources.

/repo's own products are used only where build/source-hashes.json says that they were built from exactly these sources; every other
.pyx is compiled here (same Cython, same directives, -O0).  Nothing is written to /repo."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VENV = "/opt/venv/bin/python"


def sha(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def scratch(repo="/repo"):
    """(scratch root, [modules compiled here]); raises RuntimeError if a module does not compile"""
    root = tempfile.mkdtemp(prefix="verif-scratch-")
    src = os.path.join(repo, "a_sync")
    ign = shutil.ignore_patterns("*.so", "*.c", "*.html", "__pycache__", "*.pyc")
    shutil.copytree(src, os.path.join(root, "a_sync"), ignore=ign)
    try:
        with open(os.path.join(repo, "build/source-hashes.json")) as f:
            old = json.load(f)
    except (OSError, ValueError):
        old = {}
    import Cython

    pxds = {os.path.relpath(p, repo) for e in ("pxd", "pxi") for p in glob.glob(os.path.join(src, "**/*." + e), recursive=True)}
    old_pxds = {p for p in old if p.endswith((".pxd", ".pxi"))}
    all_stale = old.get("cython") != Cython.__version__ or pxds != old_pxds or any(old.get(p) != sha(os.path.join(repo, p)) for p in pxds)
    todo = []
    for pyx in sorted(glob.glob(os.path.join(src, "**/*.pyx"), recursive=True)):
        rel = os.path.relpath(pyx, repo)
        sos = glob.glob(pyx[:-4] + ".*.so")
        if not all_stale and sos and old.get(rel) == sha(pyx):
            shutil.copy2(sos[0], os.path.join(root, os.path.relpath(sos[0], repo)))
        else:
            todo.append(rel)
    if todo:
        inc = sysconfig.get_paths()["include"]
        inc2 = subprocess.run([VENV, "-c", "import sysconfig;print(sysconfig.get_paths()['include'],sysconfig.get_config_var('EXT_SUFFIX'))"], capture_output=True, text=True).stdout.split()

        def one(rel):
            c = os.path.join(root, rel[:-4] + ".c")
            r = subprocess.run([VENV, "-c", "import sys;from Cython.Compiler.Main import compile;from Cython.Compiler.Options import CompilationOptions as O,get_directive_defaults as d;"
                                "o=O(language_level=3,compiler_directives={'language_level':3,'embedsignature':True,'linetrace':True},output_file=sys.argv[2],include_path=['.']);"
                                "r=compile(sys.argv[1],o);sys.exit(1 if r.num_errors else 0)", rel, c], cwd=root, capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError(f"cython {rel}: {r.stdout[-1500:]}{r.stderr[-1500:]}")
            so = os.path.join(root, rel[:-4] + inc2[1])
            r = subprocess.run(["gcc", "-shared", "-fPIC", "-O0", "-w", "-I" + inc2[0], c, "-o", so], capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError(f"gcc {rel}: {r.stderr[-1500:]}")
            os.remove(c)

        try:
            with cf.ThreadPoolExecutor(8) as ex:
                list(ex.map(one, todo))
        except BaseException:
            shutil.rmtree(root, ignore_errors=True)
            raise
    return root, todo


if __name__ == "__main__":
    import time

    t = time.time()
    r, td = scratch(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    print(r, td, time.time() - t)
