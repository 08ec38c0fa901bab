"""writes properties.jsonl and MANIFEST.json from tsa/props.py"""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from tsa.props import PROPS, NOT_APPLICABLE
import importlib
with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 3, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]},
        }) + "\n")
checks = []
for p in PROPS:
    docs = [importlib.import_module("tsa.checks." + r).__doc__.strip().split("\n")[0] for r in p["rules"]]
    tech = "; ".join(["static rules: " + ", ".join(p["rules"])] * bool(p["rules"]) + [
        "all-paths abstract interpretation of the anchored functions, decision tables compared with reference semantics"] * bool(p["contracts"]))
    checks.append({
        "property": p["id"], "quick_cmd": "python3 check.py {} --tier quick".format(p["id"]),
        "thorough_cmd": "python3 check.py {} --tier thorough".format(p["id"]),
        "technique": "static analysis: " + tech, "level": "other",
        "level_note": "Sound-for-quiet: reports only differences it understands completely; anything it cannot decide "
                      "(counted in the evidence) is not reported. Trusts the Python model in tsa/absint.py and the "
                      "reviewed reference in spec/." + (" Rules: " + " | ".join(docs) if docs else ""),
    })
json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast, json, multiprocessing'", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE]},
          open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(NOT_APPLICABLE))

# DESIGN.md: table of properties and of planted bugs
def cell(x):
    return x.replace("|", "/")
rows = ["| id | property | direct rules | functions whose decision tables decide it |", "|---|---|---|---|"]
for p in PROPS:
    rows.append("| {} | {} | {} | {} |".format(p["id"], cell(p["title"]), ", ".join(p["rules"]) or "-", cell(
        ", ".join("`" + c.replace("core:", "") + "`" for c in p["contracts"][:14]) + (
            " and {} more".format(len(p["contracts"]) - 14) if len(p["contracts"]) > 14 else ""))))
seeded = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/" + d + "/meta.json"))
    seeded.append("| {} | {} | {} | {} | {} |".format(
        d, m["property"], cell(m["what_it_breaks"]), cell(m["needs"]), m.get("caught_by", m["property"])))
t = open(H + "/DESIGN.md").read()
for name, r in (("table", rows), ("seeded", seeded)):
    a, b = "<!-- {} -->".format(name), "<!-- /{} -->".format(name)
    t = t[:t.index(a) + len(a)] + "\n" + "\n".join(r) + "\n" + t[t.index(b):]
open(H + "/DESIGN.md", "w").write(t)
