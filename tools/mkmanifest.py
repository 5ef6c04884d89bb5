"""writes MANIFEST.json from the table below: python tools/mkmanifest.py"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
DONE = {}
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in DONE:
        lv, note = DONE[i]
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python check.py {i}",
            "thorough_cmd": f"/opt/venv/bin/python check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "contract-based deductive verification: verification conditions generated from /repo's source (pyvc), discharged by z3; failed obligations replayed on the real code",
            "level": lv, "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup_check.py", "checks": checks}
m["not_applicable"] = na
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
