#!/usr/bin/env python3-vt
"""Detection test of the checks (developer tool, not a check): random small mutants of
/repo's headers, each in a scratch copy; runs the registered quick checks on it and
lists the mutants no check reports.  usage: mutcheck.py N SEED [HEADER...]"""
import sys, os, re, shutil, subprocess, random, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, SEED = int(sys.argv[1]), int(sys.argv[2]); ONLY = sys.argv[3:]
MAP = {"Call": "C13 C19", "ControlPolicy": "C04 C01 C05 C06 C21", "Expectation": "C12 C10 C11 C08 C09 C22", "ExpectationBuilder": "C20", "ExpectationPolicies": "C13 C14", "InterfaceMock": "C19", "Matcher": "C15 C23 C24", "Mock": "C19", "ObjectWatcher": "C18", "Printer": "C25", "Reporter": "C17 C26", "Reports": "C16 C26 C10", "Sequence": "C03 C02 C21 C01 C06 C05 C07", "String": "C23", "Utility": "C17 C25 C16 C08 C13"}
src = open(V + "/tools/mutate.py").read(); OPS = eval(re.search(r"OPS = (\[.*?\])\ndef", src, re.S)[1]) + [(r"std::move\((\w+)\)", r"\1"), (r"std::forward<[^()]*>\((\w+)\)", r"\1"), (r"const auto&", "auto"), (r"\breturn out;", "return {};"), (r"std::ref\b", "std::cref"), (r"noexcept", "noexcept(false)")]
def mutants(S):
    for i, ln in enumerate(S):
        code = ln.split("//")[0]
        if not code.strip() or code.strip().startswith(("*", "/*", "#", "template", "requires")): continue
        for a, b in OPS:
            for m in re.finditer(a, code): yield i, ln[:m.start()] + m.expand(b) + ln[m.end():]
        if code.strip().endswith(";") and not re.match(r"\s*(return|using|constexpr|const|auto|static|friend|break)\b", code) and "(" in code: yield i, re.match(r"\s*", ln).group(0) + ";"
pool = []
for h in MAP:
    if ONLY and h not in ONLY: continue
    pool += [(h, m) for m in mutants(open(f"/repo/include/mimic++/{h}.hpp").read().split("\n"))]
random.seed(SEED); random.shuffle(pool); done = 0
T = tempfile.mkdtemp(prefix="mc_", dir="/tmp"); W = T + "/w"; os.mkdir(W)
UN = {"C13": "pol", "C19": "mck", "C04": "seq", "C12": "exp", "C20": "bld", "C15": "mat", "C18": "wat", "C25": "prt", "C17": "rpt", "C16": "rep", "C03": "seq", "C23": "str"}
try:
    for h, (i, new) in pool:
        if done >= N: break
        shutil.rmtree(T + "/include", ignore_errors=True); shutil.copytree("/repo/include", T + "/include"); p = f"{T}/include/mimic++/{h}.hpp"; L = open(p).read().split("\n"); old = L[i]; L[i] = new
        if old.strip() == new.strip(): continue
        open(p, "w").write("\n".join(L)); ps = MAP[h].split()
        if any(subprocess.run(["clang++-18", "-std=c++20", "-fsyntax-only", "-w", "-I", T + "/include", f"{V}/units/{u}.cpp"], capture_output=True).returncode for u in {UN[ps[0]], "exp", "mck"}): continue
        done += 1; res = None; notes = []; t0 = time.time()
        for c in ps:
            r = subprocess.run(["python3-vt", V + "/check.py", c, "quick"], env=dict(os.environ, VERIF_REPO=T, VERIF_EV=T + "/ev"), capture_output=True, text=True); o = r.stdout.strip().split("\n")
            if r.returncode == 1: res = f"{c} {'obligation' if 'no-failing-input' in o[-1] else 'input'}"; break
            h_ = next((l for l in o if l.startswith(c + ":")), "")
            notes.append(re.sub(r"obligations \d+ discharged \d+ ", "", h_)[:90])
        print(("caught   " if res else "SURVIVES ") + f"{h}.hpp:{i+1}: {old.strip()[:80]}  ->  {new.strip()[:80]} | {res or '; '.join(notes)} {time.time()-t0:.0f}s", flush=True)
finally: shutil.rmtree(T, ignore_errors=True)
