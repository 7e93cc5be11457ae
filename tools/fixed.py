"""Regenerates the "fixed" entries of known_findings.json from the fix
commits of /repo:  python3 tools/fixed.py"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for line in open(os.path.join(HERE, "tools", "fixed_map.txt")):
    if line.strip():
        n, p = line.split()
        PROP[int(n)] = p
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse",
                      "--format=%h %s"], capture_output=True,
                     text=True).stdout.splitlines()
fixes = [ln for ln in log if ln.split(" ", 1)[1].startswith("fix:")]
path = os.path.join(HERE, "known_findings.json")
data = json.load(open(path))
data["entries"] = [e for e in data["entries"] if e["kind"] != "fixed"]
for i, ln in enumerate(fixes, 1):
    h, s = ln.split(" ", 1)
    data["entries"].append({
        "kind": "fixed", "property": PROP[i], "commit": h,
        "what": s[5:],
        "line": "fixed: property=%s %s %s" % (PROP[i], h, s[5:])})
with open(path, "w") as f:
    json.dump(data, f, indent=1)
    f.write("\n")
print(len(fixes), "fixes")
