"""Writes properties.jsonl and MANIFEST.json from tools/spec.py and the property modules: `python3 tools/gen.py`."""

import json
import re
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
import spec  # noqa: E402


def module_text(pid: str) -> str:
    return (ROOT / "crm" / "props" / f"{pid.lower()}.py").read_text()


props, checks = [], []
for p in sorted(spec.PROPS, key=lambda p: p["id"]):
    assert len(p["title"]) <= 80, p["title"]
    assert len(re.findall(r"[.!?](?= [A-Z]|$)", p["statement"])) <= 3, p["id"]
    props.append(
        {
            "id": p["id"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": [f"conda_recipe_manager/{f}" for f in p["files"]],
                "mechanism": [{"name": n, "where": f"conda_recipe_manager/{w}"} for n, w in p["mech"]],
                "observe_at": p.get("observe", []),
                "hook_needed": None,
            },
        }
    )
    text = module_text(p["id"])
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"./check {p['id']}",
            "thorough_cmd": f"./check {p['id']} --thorough",
            "technique": re.search(r'^TECHNIQUE = \(?\s*"(.*?)"', text, re.M | re.S).group(1),
            "level": re.search(r'^LEVEL = "(.*)"', text, re.M).group(1),
            "level_note": p["note"],
        }
    )
(ROOT / "properties.jsonl").write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in props + spec.UNCLAIMED))
manifest = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": spec.REASONS[p["id"]]} for p in spec.UNCLAIMED],
    "notes": "Known findings and repaired defects: known_findings.json. Design and coverage: DESIGN.md.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + "\n")
print(len(props), "properties")
