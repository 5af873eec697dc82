"""Record every fix commit of /repo in known_findings.json (run once after adding a fix)."""
import json, subprocess
PROPS = {}
for ids, props in [
    ((1,), "C06"), ((2,), "C07"), ((3, 4), "C02"), ((5,), "C03 C04"), ((6, 7), "C05"), ((8, 9, 10), "C08"), ((11, 12), "C09"),
    ((13, 14, 15), "C10"), ((16, 17, 18, 19), "C11"), (tuple(range(20, 24)), "C12"), ((24,), "C12 C23"), ((25, 26, 27, 28), "C12"),
    (tuple(range(29, 38)), "C13"), ((38, 39), "C14"), ((40,), "C15 C16"), ((41,), "C15 C18"), ((42, 43), "C15"), ((44, 45), "C16"),
    ((46,), "C17 C18"), ((47, 48, 49), "C17"), ((50, 51, 52, 53), "C18"), ((54, 55), "C19"),
]:
    for i in ids:
        PROPS[i] = props
extra = json.load(open("/verif/tools/fix_props.json"))
PROPS.update({int(k): v for k, v in extra.items()})
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
fixes = [l for l in log if l.split(" ", 1)[1].startswith("fix: ")]
out = []
for i, line in enumerate(fixes, 1):
    h, msg = line.split(" ", 1)
    for p in PROPS[i].split():
        out.append(f"fixed: property={p} {h} {msg[5:]}")
path = "/verif/known_findings.json"
d = json.load(open(path)); d["fixed"] = out
json.dump(d, open(path, "w"), indent=1)
open(path, "a").write("\n")
print(len(fixes), len(out))
