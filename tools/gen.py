#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
sys.dont_write_bytecode = True

with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "hook_needed": p.get("hook")},
        }) + "\n")
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("hooks:")]
m = {
    "version": 1,
    "setup_cmd": "bash /verif/mc/run.sh --build",
    "hooks": {"guard": "cfg(vp_mc)", "enable": "RUSTC_WRAPPER=/verif/mc/rustc-wrap.sh adds --cfg vp_mc to the compilation of the crate `tailcall` only", "source_commits": hooks},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash /verif/mc/run.sh {p['id']} --tier quick",
        "thorough_cmd": f"bash /verif/mc/run.sh {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"], "level": p["level"], "level_note": p["note"],
    } for p in PROPS if not p.get("na")],
    "not_applicable": NOT_APPLICABLE,
    "notes": "One binary (mc/) is built against /repo's working tree; every check explores a bounded space exhaustively. See DESIGN.md.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties")
