#!/usr/bin/env python3
"""
Single source for properties.jsonl and MANIFEST.json.
Run `python3 tools/props.py` after editing; only properties whose check
module exists in harness/checks are emitted.
"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
import sys
sys.path.insert(0, str(ROOT / "tools"))
sys.dont_write_bytecode = True
from props_data import NOT_APPLICABLE, PROPS  # noqa: E402

NOTE_COMMON = (
    " Assurance: every generated execution of the real code was observed and "
    "agreed with the oracle; nothing is claimed about inputs not generated. "
    "Trusted: CPython, numpy, pandas, the independent encoders and oracles in "
    "harness/."
)


def main():
    lines, checks = [], []
    for p in PROPS:
        if not (ROOT / "harness/checks" / f"{p['id'].lower()}.py").exists():
            continue
        assert len(p["title"]) <= 80, p["title"]
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p["observe"],
                "hook_needed": None,
            },
        }))
        checks.append({
            "property": p["id"],
            "quick_cmd": f"bash run.sh {p['id']} quick",
            "thorough_cmd": f"bash run.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": p.get("level", "exploration"),
            "level_note": p["note"] + NOTE_COMMON,
        })
    (ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
    (ROOT / "MANIFEST.json").write_text(json.dumps({
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks are needed: monitors observe the public API, "
                 "warnings, the interpreter's audit events and /proc/self.",
    }, indent=1) + "\n")
    print(len(checks), "properties")


if __name__ == "__main__":
    main()
