"""Assemble DESIGN.md: hand-written sections (tools/design/*.md) plus the bounds and assumptions declared by each check
(read from the sources, so that they cannot drift) and the table of planted bugs."""
import ast, glob, json, os

ROOT = "/verif"
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(f"{ROOT}/MANIFEST.json"))["checks"]}


def const(path, name):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == name:
            return ast.literal_eval(node.value)
    return None


out = [open(f"{ROOT}/tools/design/head.md").read().rstrip(), "", "## Properties", ""]
notes = {}
cur = None
for line in open(f"{ROOT}/tools/design/props.md"):
    if line.startswith("# "):
        cur = line[2:].strip()
        notes[cur] = []
    elif cur:
        notes[cur].append(line.rstrip())
caught = {}
for d in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json") + glob.glob(f"{ROOT}/planted_more/*/meta.json")):
    m = json.load(open(d))
    caught.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
for p in props:
    i = p["id"]
    path = f"{ROOT}/mc/checks/{i.lower()}.py"
    out += [f"### {i} {p['title']}", ""]
    out += ["\n".join(notes.get(i, ["(missing)"])).strip(), ""]
    b = const(path, "BOUNDS")
    out += [f"*Bounds, quick*: {b['quick']}.", "", f"*Bounds, thorough* (on top of quick): {b['thorough']}.", ""]
    out += ["*Assumed*: " + "; ".join(const(path, "ASSUMPTIONS")) + ".", ""]
    if i in caught:
        out += ["*Planted bugs*: " + ", ".join(f"`{n}`" for n, _ in caught[i]) + ".", ""]
out += [open(f"{ROOT}/tools/design/tail.md").read().rstrip(), ""]
out += ["## Planted bugs and the checks that catch them", ""]
out += ["| id | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
status = json.load(open(f"{ROOT}/tools/caught.json")) if os.path.exists(f"{ROOT}/tools/caught.json") else {}
for i in sorted(caught):
    for n, m in caught[i]:
        cell = lambda s: " ".join(str(s).split()).replace("|", "/")
        out.append(f"| {n} | {i} | {cell(m['needs'])} | {cell(m['what_it_breaks'])} | {status.get(n, i + ' (quick)')} |")
out += ["", "## Defects found in the library and repaired", "", "Each is a `fix:` commit in /repo, listed in known_findings.json:", ""]
for e in json.load(open(f"{ROOT}/known_findings.json"))["fixed"]:
    out.append("- " + e[len("fixed: "):])
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(out))
