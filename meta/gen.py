#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta/props.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402

lines, checks, na = [], [], []
for pid in sorted(props.P):
    e = props.P[pid]
    assert len(e["entry"]["title"]) <= 80, pid
    has = os.path.exists(os.path.join(VERIF, "checks", pid + ".py"))
    if pid in props.NA:
        na.append({"property": pid, "reason": props.NA[pid]})
        assert not has, pid
    elif not has:
        print("skipped (no check):", pid)
        continue
    else:
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"python3 run.py {pid}",
                "thorough_cmd": f"python3 run.py {pid}",
                "technique": e["technique"],
                "level": "other",
                "level_note": e["note"],
            }
        )
    lines.append(json.dumps(e["entry"], ensure_ascii=False))
open(os.path.join(VERIF, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import ast, sys; sys.exit(sys.version_info < (3, 12))\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "Everything is decided from the source by the engine in sa/; nothing of givenergy-modbus is imported or run.",
}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(lines), "properties,", len(checks), "checks,", len(na), "not applicable")
