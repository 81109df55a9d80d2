"""Discharging obligations: z3 (API), then z3-new / cvc5 / z3 on the SMT-LIB text."""
import z3, time, subprocess, tempfile, os, re
BACK = ["z3-api"]
def to_smt(hyps, goal):
    s = z3.Solver()
    for h in hyps: s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()
def solve(o, tmo=8000, deep=False):
    """returns 'unsat' (discharged) | 'sat' (countermodel) | 'unknown'"""
    if o.status == "trivial": o.backend = "simplifier"; return "unsat"
    t = time.time()
    pc, facts = o.hyps
    hyps = list(pc) + list(facts)
    # light attempt without quantified facts first: sound for proving
    if facts:
        s = z3.Solver(); s.set("timeout", 1000)
        s.add(*pc); s.add(z3.Not(o.goal))
        if s.check() == z3.unsat:
            o.status = "unsat"; o.backend = "z3"; o.time = time.time() - t; return "unsat"
        s = z3.Solver(); s.set("timeout", 2000); s.set("auto_config", False); s.set("smt.mbqi", False)       # instantiation by patterns only
        s.add(*hyps); s.add(z3.Not(o.goal))
        if s.check() == z3.unsat:
            o.status = "unsat"; o.backend = "z3"; o.time = time.time() - t; return "unsat"
    s = z3.Solver(); s.set("timeout", tmo)
    if hyps: s.add(*hyps)
    s.add(z3.Not(o.goal))
    r = s.check()
    if r == z3.unsat: o.status = "unsat"; o.backend = "z3"; o.time = time.time() - t; return "unsat"
    if r == z3.sat:
        o.status = "sat"; o.backend = "z3"; o.model = s.model(); o.time = time.time() - t; return "sat"
    # portfolio
    txt = s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(txt)
    try:
        procs = []
        for nm, cmd in (("cvc5", ["cvc5", "--tlimit=%d" % (tmo*2), "--full-saturate-quant", f.name]),
                        ("z3-new", ["z3-new", "-T:%d" % (tmo//500), "smt.mbqi=false", "smt.random_seed=7", f.name]),
                        ("z3-4.8", ["z3", "-T:%d" % (tmo//500), f.name]),
                        ("cvc5-fmf", ["cvc5", "--tlimit=%d" % (tmo*2), "--finite-model-find", f.name])):
            procs.append((nm, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        res = "unknown"
        end = time.time() + tmo/500 + 2
        pend = list(procs)
        while pend and time.time() < end:
            for x in list(pend):
                if x[1].poll() is not None:
                    pend.remove(x)
                    out = x[1].stdout.read().strip().split("\n")[0]
                    if out == "unsat": res = "unsat"; o.backend = x[0]; pend = []; break
                    if out == "sat" and res != "unsat": res = "sat"; o.backend = x[0]; pend = []; break
            time.sleep(0.02)
        for nm, p in procs:
            if p.poll() is None: p.kill()
            p.wait()
    finally: os.unlink(f.name)
    o.status = res; o.time = time.time() - t
    return res
