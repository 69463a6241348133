#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(HERE, "tools", "manifest_table.json")))
checks = []
for pid, (technique, note) in T["checks"].items():
    checks.append(dict(property=pid, quick_cmd=f"bash run.sh {pid} quick", thorough_cmd=f"bash run.sh {pid} thorough",
        technique=technique, level="exploration", level_note=note))
m = dict(version=1, setup_cmd="bash run.sh build", checks=checks,
    not_applicable=[dict(property=p, reason=r) for p, r in T["not_applicable"].items()],
    notes=T["notes"])
if T.get("hooks"):
    m["hooks"] = T["hooks"]
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), ensure_ascii=False, indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
listed = list(T["checks"]) + list(T["not_applicable"])
assert sorted(props) == sorted(listed), (set(props) ^ set(listed))
