#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ for every seed of SPEC.py (a list SEEDS of dicts with
id, property, needs, breaks, edits [(file, old, new)], demo)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[2:]
R = tempfile.mkdtemp(prefix="mkseed")
subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            p = f"{R}/{f}"
            t = open(p, encoding="utf-8").read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, check=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        subprocess.run(["git", "-C", R, "checkout", "--", "."], check=True, capture_output=True)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
    open(d + "/demo.rs", "w").write(s["demo"])
    sh = open(f"{V}/tools/seedkit/{s.get('kit', 'demo.sh')}").read().replace("@ID@", s["id"])
    open(d + "/demo.sh", "w").write(sh)
    shutil.copy(f"{V}/tools/make_view.py", d + "/make_view.py")
    shutil.copy(f"{V}/harness/Cargo.lock", d + "/Cargo.lock")
    print(s["id"])
shutil.rmtree(R)
