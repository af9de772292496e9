"""Writes properties.jsonl and MANIFEST.json from vmon/props.py."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vmon.props import PROPS

CMD = "/opt/venv/bin/python -W ignore run.py {} --tier {}"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS.values():
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -W ignore run.py --selftest",
    "checks": [{
        "property": p["id"], "quick_cmd": CMD.format(p["id"], "quick"), "thorough_cmd": CMD.format(p["id"], "thorough"),
        "technique": p["technique"], "level": "exploration", "level_note": p["note"],
    } for p in PROPS.values()],
    "not_applicable": [],
    "notes": "No hooks in /repo are needed: the monitors observe the public compile, run and command line interfaces.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
except ImportError:
    sys.exit()
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(ROOT, "properties.jsonl")):
    jsonschema.validate(json.loads(l), s)
print("ok", len(PROPS))
