"""Applies each planted bug to a scratch copy and records how its check catches it: catches.py [names]; writes catches.json (and props.py must be run from /verif)."""
import sys, os, json, glob, subprocess, re, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = V + "/tools/"
names = sys.argv[1:] or [os.path.basename(d) for d in sorted(glob.glob(V + "/seeded/*"))]
fn = T + "catches.json"; res = json.load(open(fn)) if os.path.exists(fn) else {}
def one(n):
    w = "/tmp/catch_" + n; shutil.rmtree(w, ignore_errors=True); os.makedirs(w + "/repo"); os.makedirs(w + "/verif")
    subprocess.run(f"git -C /repo archive HEAD include | tar x -C {w}/repo && cd {w}/repo && git init -q . && git apply {V}/seeded/{n}/patch.diff && cp -r {V}/ccv {V}/units {V}/harness {V}/check.py {w}/verif", shell=True, check=True)
    p = json.load(open(f"{V}/seeded/{n}/meta.json"))["property"]
    o = subprocess.run([w + "/verif/check.py", p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w + "/repo")).stdout
    shutil.rmtree(w)
    v = re.search(r"^VIOLATION.*$", o, re.M)
    ob = re.search(r"not discharged \[sat\] (.*)", o) or re.search(r"not discharged \[\w+\] (.*)", o)
    return n, dict(how="MISSED" if not v else "obligation" if "no-failing" in v[0] else "input", ob=(re.sub(r"\s+", " ", ob[1])[-110:] if ob else re.sub(r"\s+", " ", o)[-200:]))
with ThreadPoolExecutor(2) as ex:
    for n, r in ex.map(one, names): res[n] = r; print(n, r["how"], r["ob"][:100])
json.dump(res, open(fn, "w"), indent=1, sort_keys=True)
