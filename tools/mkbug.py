#!/opt/venv/bin/python
"""python tools/mkbug.py SPEC.py: writes seeded/<ID>/ from a spec with ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)"""
import json, os, runpy, subprocess, sys, tempfile, shutil

s = runpy.run_path(sys.argv[1])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(here, "seeded", s["ID"])
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix="mkbug-")
try:
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tmp + "/w", "HEAD"], check=True)
    for f, old, new in s["EDITS"]:
        p = f"{tmp}/w/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", tmp + "/w", "diff"], capture_output=True, text=True, check=True).stdout
finally:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", tmp + "/w"])
    shutil.rmtree(tmp, ignore_errors=True)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write(s["DEMO"].lstrip())
open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds on this case\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$D/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
print("wrote", d)
