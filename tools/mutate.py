#!/usr/bin/env python3-vt
"""Soundness test of the machinery (developer tool, not a check): small mutants of
/repo's headers, in a scratch copy; lists those every proof still accepts.
usage: mutate.py HEADER FROM TO PROP... [-o out]"""
import sys, os, re, shutil, tempfile, multiprocessing as mp, signal, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; hdr, lo, hi = args[0], int(args[1]), int(args[2]); PROPS = args[3:]
T = tempfile.mkdtemp(prefix="mut_", dir="/tmp"); os.environ["VERIF_REPO"] = T
shutil.copytree("/repo/include", T + "/include")
sys.path.insert(0, V + "/ccv")
import unit as U, prove, props
P = T + "/include/mimic++/" + hdr; SRC = open(P).read().split("\n")
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[(\s])!(?=[\w(])", ""),
  (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r" \+ ", " - "), (r" - ", " + "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\bm_Min\b", "m_Max"), (r"\bm_Max\b", "m_Min"), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
  (r"all_of", "any_of"), (r"any_of", "all_of"), (r"\blhs", "rhs"), (r"\brhs", "lhs"), (r"::reverse\b", "::all"), (r"begin\(", "end("), (r"find_if_not", "find_if"), (r"satisfied", "saturated"), (r"saturated", "satisfied"), (r"\bany\b", "as_const"), (r"first", "second"), (r"std::as_const", ""), (r"index_sequence_for", "make_index_sequence"), (r"std::less_equal", "std::less"), (r"std::less\b", "std::less_equal"), (r"std::greater_equal", "std::greater"), (r"std::greater\b", "std::greater_equal"), (r"std::equal_to", "std::not_equal_to"), (r"starts_with", "ends_with"), (r"is_permutation", "equal"), (r"lvalue", "rvalue")]
def mutants():
    for i in range(lo - 1, hi):
        ln = SRC[i]; code = ln.split("//")[0]
        if not code.strip() or code.strip().startswith(("*", "/*", "#", "template", "requires")): continue
        for a, b in OPS:
            for m in re.finditer(a, code):
                yield i, ln[:m.start()] + b + ln[m.end():]
        if code.strip().endswith(";") and not re.match(r"\s*(return|using|constexpr|const|auto|static|friend|break)\b", code) and "(" in code: yield i, re.match(r"\s*", ln).group(0) + ";"
        if re.match(r"\s*(\w|:)+[ (].*;\s*$", code) and "=" in code and "return" not in code and "==" not in code: yield i, re.match(r"\s*", ln).group(0) + ";"
class TO(Exception): pass
def task(a):
    un, f, ar = a
    def alarm(*a): raise TO()
    signal.signal(signal.SIGALRM, alarm); signal.alarm(90)
    try:
        ex = f(UN[un], *ar); r, bad = prove.finish(ex, 2500)
        return None if not bad and ex.obs else f"{f.__name__}{ar}: {r} " + "; ".join(sorted({o.name for o in bad}))[:200]
    except BaseException as e: return f"{f.__name__}{ar}: {type(e).__name__} {str(e)[:120]}"
    finally: signal.alarm(0)
UN = {}
tasks = []
for p in PROPS:
    for t in props.PROPS[p]["tasks"]:
        if t not in tasks: tasks.append(t)
try:
    n = k = s = 0; t0 = time.time()
    for i, new in mutants():
        n += 1
        L = list(SRC); L[i] = new; open(P, "w").write("\n".join(L))
        try: UN = {u: U.Unit(f"{V}/units/{u}.cpp", T) for u in {t[0] for t in tasks}}
        except U.ExtractError: continue
        except Exception as e: continue
        k += 1; why = None
        with mp.get_context("fork").Pool(6) as pool:
            for r in pool.imap_unordered(task, tasks):
                if r: why = r; break
            pool.terminate()
        if why is None: s += 1; print(f"SURVIVES {hdr}:{i+1}: {SRC[i].strip()[:90]}  ->  {new.strip()[:90]}", flush=True)
        elif os.environ.get("MUT_V"): print(f"killed {hdr}:{i+1}: {new.strip()[:70]} | {why[:140]}", flush=True)
    print(f"{hdr} {lo}-{hi}: {n} mutants, {k} compile, {s} survive, {time.time()-t0:.0f}s", flush=True)
finally: shutil.rmtree(T, ignore_errors=True)
