#!/usr/bin/env python3-vt
"""check.py <property> : decides one property on /repo's current source.
exit 0 held, 1 violation; see DESIGN.md for the outcome policy."""
import sys, os, re, time, json, tempfile, shutil, subprocess, multiprocessing as mp, traceback, signal
V = os.path.dirname(os.path.abspath(__file__)); EVD = os.environ.get("VERIF_EV") or os.path.join(V, "evidence")    # VERIF_EV: developer runs on other trees
sys.path.insert(0, os.path.join(V, "ccv"))
import unit as U, prove, props
from core import Unsupported
T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick"); SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
UNITS = {}
TASKS = []
BUDGET = 300 if TIER == "quick" else 2400
DEP_BUDGET = 90 if TIER == "quick" else 600      # per relied-on proof

def solve_task(i):
    un, f, args = TASKS[i][:3]; budget = DEP_BUDGET if len(TASKS[i]) > 3 else BUDGET
    name = f"{f.__name__}({', '.join(map(str, args))})"
    t = time.time()
    res = dict(name=name, error=None, obs=[], used={}, inlined=0, functions=[], loops=0)
    class TO(Exception): pass
    def alarm(*a): raise TO()
    signal.signal(signal.SIGALRM, alarm); signal.alarm(budget)
    try:
        if isinstance(UNITS[un], Exception): raise UNITS[un]
        ex = f(UNITS[un], *args)
        prove.finish(ex, 8000 if TIER == "quick" else 30000)
        for o in ex.obs:
            m = None
            if o.status == "sat" and o.model is not None:
                try: m = {str(d): str(o.model[d])[:200] for d in list(o.model.decls())[:60] if d.arity() == 0}
                except Exception: m = None
            res["obs"].append(dict(name=o.name, fn=o.fn, kind=o.kind, status="unsat" if o.status == "trivial" else o.status, backend=o.backend or "", time=round(o.time, 4), model=m))
        res["used"] = {k: v for k, v in ex.used.items()}
        res["inlined"] = len(ex.inlined)
        res["loops"] = len(ex.loops_done)
        res["pre_sat"] = True
    except TO: res["error"] = ("timeout", f"no answer within {budget}s")
    except Unsupported as e: res["error"] = ("unsupported", str(e)[:600])
    except U.ExtractError as e: res["error"] = ("extraction", str(e)[-1500:])
    except RecursionError as e: res["error"] = ("unsupported", "recursion limit")
    except Exception as e: res["error"] = ("internal", traceback.format_exc(limit=-4)[-1200:])
    finally: signal.alarm(0)
    res["time"] = round(time.time() - t, 2)
    return res

def run_harness(pid, wd, log):
    """bounded oracle run on the real code; returns (status, text): 'clean' | 'fails' | 'error'"""
    jobs = [(pid, [])] if os.path.exists(os.path.join(V, "harness", pid + ".cpp")) else []
    if pid in E2E: jobs.append(("e2e_main", [pid]))
    if not jobs: return "none", ""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex: rs = list(ex.map(lambda j: run_one(*j, wd), jobs))
    for want in ("fails", "error", "clean"):
        for st, tx in rs:
            if st == want: return st, tx if want != "clean" else "".join(x[1] for x in rs)
E2E = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C16 C19 C20".split()      # also checked on whole-library histories
def run_one(name, args, wd):
    src = os.path.join(V, "harness", name + ".cpp"); exe = os.path.join(wd, "h_" + name)
    m = re.match(r"// FLAGS: (.*)", open(src).read())
    cmd = ["g++", "-std=c++20", "-O1", "-g0"] + (m.group(1).split() if m else ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]) + [ "-I", os.path.join(U.REPO, "include"), "-I", os.path.join(V, "harness"), src, "-o", exe, "-pthread"]
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=400)
    if p.returncode: p = subprocess.run(cmd + ["-DNO_DIRECT"], capture_output=True, text=True, timeout=400)     # without calls of internal helpers
    if p.returncode: return "error", f"harness {name} does not compile\n" + p.stderr[-3000:]
    try: p = subprocess.run([exe, *args], capture_output=True, text=True, timeout=240, cwd=wd, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", TSAN_OPTIONS="halt_on_error=1"))
    except subprocess.TimeoutExpired as e: return "fails", "the real code did not finish (deadlock or endless loop)\n" + str(e.stdout)[-2000:]
    out = (p.stdout + "\n" + p.stderr)
    if p.returncode == 0: return "clean", p.stdout[-1500:]
    return "fails", out[-4000:]

def main():
    pid = sys.argv[1]; P = props.PROPS[pid]
    wd = tempfile.mkdtemp(prefix="ccv_")
    try: return go(pid, P, wd)
    finally: shutil.rmtree(wd, ignore_errors=True)

def compile_unit(a):
    n, wd = a
    try: return n, U.Unit(os.path.join(V, "units", n + ".cpp"), wd)
    except Exception as e: return n, e if isinstance(e, (U.ExtractError, Unsupported)) else U.ExtractError(str(e))

def go(pid, P, wd):
    global TASKS
    own = P["tasks"]; deps = props.relied_on(pid)          # deps: proofs of other properties this one's argument uses
    TASKS = own + [(*t, "dep") for t in deps]
    from concurrent.futures import ThreadPoolExecutor
    need = sorted({t[0] for t in TASKS})
    with ThreadPoolExecutor(8) as ex:
        for n, u in ex.map(compile_unit, [(n, wd) for n in need]): UNITS[n] = u
    with mp.get_context("fork").Pool(min(8, max(1, len(TASKS))), maxtasksperchild=1) as pool:
        results = pool.map(solve_task, range(len(TASKS)), chunksize=1)
    results, dresults = results[:len(own)], results[len(own):]
    dbad = [f"{r['name']}: " + (f"{r['error'][0]}: {r['error'][1][:200]}" if r["error"] else "; ".join(f"{o['name']} [{o['status']}]" for o in r["obs"] if o["status"] != "unsat")[:300] or "no obligations") for r in dresults
        if r["error"] or not r["obs"] or any(o["status"] != "unsat" for o in r["obs"])]
    obs = [dict(o, task=r["name"]) for r in results for o in r["obs"]]
    disch = [o for o in obs if o["status"] == "unsat"]
    failed = [o for o in obs if o["status"] == "sat"]
    unknown = [o for o in obs if o["status"] == "unknown"]
    errors = [(r["name"], *r["error"]) for r in results if r["error"]]
    empty = [r["name"] for r in results if not r["error"] and not r["obs"]]
    own_proved = bool(obs) and len(disch) == len(obs) and not errors and not empty
    proved = own_proved and not dbad
    hs, ht = ("notrun", "")
    bounded = P.get("bounded")            # parts of the property out of the verifier's reach
    if not proved or bounded or TIER == "thorough":      # thorough: also a bounded cross-check, never counted as proof
        hs, ht = run_harness(pid, wd, None)
    viol = None
    if hs == "fails": viol = "input"
    elif failed: viol = "noinput"
    backs = {}
    for o in disch: backs[o["backend"] or "simplifier"] = backs.get(o["backend"] or "simplifier", 0) + 1
    trusted = sorted({v[0] for r in results for v in r["used"].values() if v[1]})
    assumed = sorted({v[0] for r in results for v in r["used"].values() if not v[1]})
    fns = sorted({r["name"] for r in results})
    cov = dict(obligations=len(obs), discharged=len(disch), checker_cmd=f"./check.py {pid} (clang++-18 -O0 LLVM IR -> ccv VC generator -> z3/cvc5)",
        trusted_base=["clang++-18 translation of /repo's headers to LLVM IR (-O0, -g0, NDEBUG off)", "the VC generator in /verif/ccv (LLVM IR semantics, loop summaries)", "z3 / cvc5"] + ["contract assumed: " + x for x in trusted],
        functions_under_contract=[dict(proof=r["name"], obligations=len(r["obs"]), discharged=sum(o["status"] == "unsat" for o in r["obs"]), inlined_functions=r["inlined"], loops_summarised=r["loops"], seconds=r["time"]) for r in results],
        callee_contracts_used_and_proved_separately=assumed, back_ends=backs, solver_seconds=round(sum(o["time"] for o in obs), 2),
        undecided_obligations=[f"{o['fn']}: {o['name']}" for o in unknown][:40], failed_obligations=[f"{o['fn']}: {o['name']}" for o in failed][:40],
        relied_on_proofs=dict(what="contracts of other functions this property's argument uses, discharged in this run as well (not counted above); where one is not discharged the bounded harness decides, and the failure alone is not reported as a violation of this property",
            proofs=len(dresults), obligations=sum(len(r["obs"]) for r in dresults), discharged=sum(o["status"] == "unsat" for r in dresults for o in r["obs"]), not_discharged=dbad[:40]),
        tool_errors=[f"{a}: {b}: {c}"[:500] for a, b, c in errors], bounded_check=dict(status=hs, what=bounded or "bounded cross-check; run when a proof does not go through, and always in the thorough tier", output=ht[-1200:]) )
    level = "proof"
    if not proved:
        level = "other"
        cov["explanation"] = "Not every obligation was discharged on this source, so nothing is claimed as proved; the bounded oracle harness on the real code stands in (status above)."
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - T0, 2), violations=1 if viol else 0,
        assumptions=list(P.get("assumptions", [])) + ["allocation never fails; vector capacity and iterator invalidation are not modelled", "single-threaded execution of each function", "template instantiations listed in /verif/units stand for the templates"])
    os.makedirs(EVD, exist_ok=True)
    with open(os.path.join(EVD, pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{pid}: obligations {len(obs)} discharged {len(disch)} failed {len(failed)} undecided {len(unknown)} tool errors {len(errors)} relied-on {len(dresults) - len(dbad)}/{len(dresults)} harness {hs} {time.time()-T0:.1f}s")
    for o in (failed + unknown)[:12]: print(f"  not discharged [{o['status']}] {o['fn'][:110]}: {o['name'][:120]}")
    for d in dbad[:6]: print("   relied on, not discharged:", d[:220].replace("\n", " "))
    for e in errors[:6]: print("  ", e[0], e[1], e[2][:300].replace("\n", " "))
    if viol:
        rp = os.path.join(EVD, pid + ".replay.txt")
        with open(rp, "w") as f:
            f.write(f"property {pid}\n\nfailed obligations (contract checks on the current source):\n")
            for o in failed: f.write(f"- {o['fn']}: {o['name']} [{o['task']}]\n    countermodel: {json.dumps(o['model'])}\n")
            for o in unknown: f.write(f"- undecided: {o['fn']}: {o['name']} [{o['task']}]\n")
            for e in errors: f.write(f"- tool: {e}\n")
            for d in dbad: f.write(f"- relied on, not discharged: {d}\n")
            f.write(f"\nharness on the real code: {hs}\nreplay: g++ -std=c++20 -O1 -fsanitize=address,undefined -I/repo/include -I/verif/harness /verif/harness/{pid}.cpp -o /tmp/h && /tmp/h   (e2e: harness/e2e_main.cpp, /tmp/h {pid})\n{ht}\n")
        print(f"VIOLATION property={pid} replay={rp}" + ("" if viol == "input" else " no-failing-input-found"))
        return 1
    if hs != "clean" and own_proved: return 0        # the property's own obligations all hold; only a relied-on one is open
    if hs == "error" and not proved:
        print(ht[-1500:]); return 2
    if not proved and hs != "clean":
        print("undecided, and no bounded check available"); return 2
    return 0
if __name__ == "__main__": sys.exit(main())
