"""Single source of properties.jsonl and MANIFEST.json.

Each entry: id, title, statement, over, quantifier text, why tests can not
settle it, anchored files, mechanisms, level note.  Run `python3 tools/meta.py`
after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = ("The repository's tests compile a fixed set of sample programs and "
         "only require that compilation exits with 0; ")

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique, note,
      observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note, observe=observe))


GEN = "acaciamc/compiler.py Generator"
VMNOTE = ("Randomised exploration: generated programs are compiled by the "
          "code in /repo and the emitted commands are run by our own "
          "interpreter of the Minecraft Bedrock command subset; trusts that "
          "interpreter and the reference model. ")

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
PROPS.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p["observe"] or [
                    "the .mcfunction files written, executed command by "
                    "command"],
                "hook_needed": None},
        }) + "\n")
have = {n[:-3].upper() for n in os.listdir(
    os.path.join(HERE, "acv", "props")) if n.startswith("p")}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3-vt run.py setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3-vt run.py %s quick" % p["id"],
            "thorough_cmd": "python3-vt run.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in PROPS if p["id"] in have],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks: every check drives the public entry points. "
                 "Every defect found in the repository was repaired by a "
                 "'fix:' commit or is listed in known_findings.json.",
    }, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties", sorted(set(ids) - have), sorted(have - set(ids)))
