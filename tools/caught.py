"""run every planted bug's own check (trybug.sh) and record the outcome for DESIGN.md"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
r = subprocess.run(["bash", V + "/tools/trybug.sh"] + ids, capture_output=True, text=True, env=dict(os.environ, W="400")).stdout
p = V + "/tools/caught.json"
c = json.load(open(p)) if os.path.exists(p) else {}
for l in r.splitlines():
    m = re.match(r"(\S+) \((\S+)\) by (\S+): rc=(\d+) .*?FAILED (\S+)", l)
    if m:
        c[m.group(1)] = "%s, rule %s" % (m.group(2), m.group(5)) if m.group(4) == "1" else "MISSED"
    elif " by " in l:
        c[l.split()[0]] = "MISSED"
        print(l)
c = {k: v for k, v in c.items() if os.path.isdir(V + "/seeded/" + k)}
json.dump(c, open(p, "w"), indent=1, sort_keys=True)
print(len(c), "recorded", [k for k, v in c.items() if v == "MISSED"])
