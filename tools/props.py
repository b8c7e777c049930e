"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
CLAIMS = {}
NA = {}


def P(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})


def claim(id, technique, note, level="other"):
    CLAIMS[id] = (technique, level, note)


def na(id, reason):
    NA[id] = reason


exec(open(os.path.join(HERE, "tools", "props_body.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 -m py_compile check.py sa/*.py && cargo --version >/dev/null",
    "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                "technique": CLAIMS[p["id"]][0], "level": CLAIMS[p["id"]][1], "level_note": CLAIMS[p["id"]][2]} for p in PROPS if p["id"] in CLAIMS],
    "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in PROPS if p["id"] in NA],
    "notes": "Static analysis of rustc's MIR for the current working tree; nothing of gpf is executed. No hooks in /repo.",
}
for p in PROPS:
    assert (p["id"] in CLAIMS) != (p["id"] in NA), p["id"]
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(CLAIMS), "claimed")
