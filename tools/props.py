"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
PY = "/opt/minorminer-venv/bin/python"


def P(id, title, statement, over, text, why, files, mech, check=None, na=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, check=check, na=na, state=state or []))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks, na = [], []
for p in PROPS:
    if p["check"]:
        tech, note = p["check"]
        cmd = "%s checks/%s.py" % (PY, p["id"].lower())
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd, "technique": tech,
                       "level": "other", "level_note": note})
    else:
        na.append({"property": p["id"], "reason": p["na"]})
m = {"version": 1,
     "setup_cmd": PY + " engine/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they read /repo's current sources (C++ through clang's resolved AST/CFG of the "
              "two Cython extensions, Python/Cython through syntax trees), never run them. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "claimed")

# ---------------------------------------------------------------- DESIGN.md
import glob
DD = os.path.join(V, "tools", "design")
out = [open(os.path.join(DD, "HEAD.md")).read().rstrip(), "", "## Properties", ""]
for p in PROPS:
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], ""]
    if p["check"]:
        f = os.path.join(DD, p["id"] + ".md")
        out += ["*Method:* %s. %s" % p["check"], ""]
        out += [open(f).read().rstrip() if os.path.exists(f) else "", ""]
    else:
        out += ["*Not applicable:* " + p["na"], ""]
out += ["## Planted bugs", "",
        "Each was confirmed in a scratch copy (builds, the 200 stable tests pass, the demonstration fails with it and passes "
        "without). `caught` is what the property's check reports with the patch applied.", "",
        "| bug | property | needs | caught |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    out.append("| %s | %s | %s | %s |" % (i, j["property"], j["needs"], caught.get(i, "not run yet")))
out += ["", "## Defects found in the pinned tree", "",
        "Repaired (one `fix:` commit each) or recorded in `known_findings.txt`:", ""]
for l in open(os.path.join(V, "known_findings.txt")):
    if l.strip() and not l.startswith("#"):
        out.append("* " + l.strip())
extra = os.path.join(DD, "TAIL.md")
if os.path.exists(extra):
    out += ["", open(extra).read().rstrip()]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
