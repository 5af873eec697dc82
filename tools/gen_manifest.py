"""Regenerate MANIFEST.json from properties.jsonl and mc/checks/*.py."""
import importlib.util, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "mc", "checks", pid.lower() + ".py")) and pid in NOTES:
        note = NOTES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 mc/run.py {pid} quick",
            "thorough_cmd": f"python3 mc/run.py {pid} thorough",
            "technique": note["technique"],
            "level": "model_checking",
            "level_note": note["note"],
            "evidence_file": f"evidence/{pid}.json",
        })
    else:
        na.append({"property": pid, "reason": NOTES.get("_na", {}).get(pid, "check not built yet")})
manifest = {
    "version": 1,
    "setup_cmd": "python3 mc/setup.py",
    "checks": checks,
    "hooks": {"guard": "none", "enable": "no hooks are needed: every check drives the unmodified public API", "source_commits": []},
    "not_applicable": na,
    "notes": "Bounded exhaustive exploration of the real code against plain-Python reference models; see DESIGN.md.",
}
json.dump(manifest, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
