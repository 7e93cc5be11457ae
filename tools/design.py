"""fill the generated tables of DESIGN.md"""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def put(s, tag, lines):
    return re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (tag, tag),
                  lambda m: m[1] + "\n".join(lines) + "\n" + m[2], s,
                  flags=re.S)


def main():
    p = os.path.join(V, "DESIGN.md")
    s = open(p).read()
    es = json.load(open(os.path.join(V, "known_findings.json")))["entries"]
    L = ["| property | commit | what failed |", "|---|---|---|"]
    for e in sorted(es, key=lambda e: (e["property"], e.get("commit", ""))):
        if e["kind"] == "fixed":
            L.append("| %s | %s | %s |" % (e["property"], e["commit"],
                                           e["what"]))
    K = [e for e in es if e["kind"] != "fixed"]
    L += [""] + ["Known finding: %s %s" % (e["property"], e["what"])
                 for e in K]
    s = put(s, "fixes", L)
    det = {}
    f = os.path.join(V, "tools", "detected.txt")
    if os.path.exists(f):
        for x in open(f):
            x = x.rstrip("\n").split("\t")
            det[x[0]] = x[1:]
    L = ["| bug | property | needs | reported by |", "|---|---|---|---|"]
    d = os.path.join(V, "seeded")
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, "meta.json")))
        L.append("| %s | %s | %s | %s |" % (
            n, m["property"], m["needs"].replace("|", "/"),
            ", ".join(det.get(n, ["not run"]))))
    s = put(s, "bugs", L)
    open(p, "w").write(s)


main()
