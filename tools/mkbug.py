#!/usr/bin/env python3
"""tools/mkbug.py <id>: (re)creates seeded/<id>/patch.diff from bugs/<id>.py-like
description given on stdin as JSON {property,file,old,new,needs,what,demo} and
validates it in a scratch copy: builds, stable tests pass, demo passes/fails."""
import sys, json, os, subprocess, shutil, tempfile
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(bid, d, force=False):
    out = f"{V}/seeded/{bid}"; os.makedirs(out, exist_ok=True)
    edits = d.get("edits") or [dict(file=d["file"], old=d["old"], new=d["new"])]
    t = tempfile.mkdtemp(prefix="bug_", dir="/tmp")
    try:
        sh(f"git -C /repo worktree prune; git clone -q /repo {t}/r")
        for e in edits:
            p = f"{t}/r/include/mimic++/{e['file']}"; s = open(p).read()
            if s.count(e["old"]) != 1: return f"old text occurs {s.count(e['old'])} times in {e['file']}"
            open(p, "w").write(s.replace(e["old"], e["new"]))
        diff = sh(f"git -C {t}/r diff").stdout
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.cpp", "w").write(d["demo"])
        open(f"{out}/demo.sh", "w").write('#!/bin/bash\n# exit 0: property holds; nonzero: broken. cwd is the repository\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)\ng++ -std=c++20 -O0 -I include "$d/demo.cpp" -o "$t/demo" FLAGS && timeout 60 "$t/demo"; rc=$?\nrm -rf "$t"; exit $rc\n'.replace(" FLAGS", " " + d["flags"] if "flags" in d else ""))
        os.chmod(f"{out}/demo.sh", 0o755)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["what"]}, open(f"{out}/meta.json", "w"), indent=1)
        a = sh(f"bash {out}/demo.sh", cwd="/repo"); b = sh(f"bash {out}/demo.sh", cwd=f"{t}/r")
        if a.returncode: return "demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-800:]
        if not b.returncode: return "demo passes with the change"
        return None
    finally: shutil.rmtree(t, ignore_errors=True)
if __name__ == "__main__":
    import importlib.util
    spec = importlib.util.spec_from_file_location("bugs", f"{V}/tools/bugs.py"); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for bid, d in m.BUGS.items():
        if len(sys.argv) > 1 and bid not in sys.argv[1:]: continue
        print(bid, make(bid, d) or "ok", flush=True)
