"""Proof harness: run a real function from a symbolic pre-state and check every
outcome against its contract (a functional specification over the pre-state)."""
import z3, time, re
from core import *
from exe import Exec, veq, PathEnd
import models
import exe, loops, models, solve
import ll

class Proof:
    """obligations of one function under contract"""
    def __init__(s, prop, name, unit, fn, mk=None):
        s.prop = prop; s.name = name; s.unit = unit; s.fn = fn; s.ex = Exec(unit.mod); models.install_runtime(s.ex)
        s.status = None; s.detail = ""; s.obs = []; s.time = 0
    def state(s): return State()

def cell_eq(ex, st_a, a, st_b, b):
    """equality of two cell values as a Bool"""
    if veq(a, b): return True
    if isinstance(a, Zero) and isinstance(b, Zero): return True
    if isinstance(a, (Undef,)) or isinstance(b, (Undef,)) or a is None or b is None: return False
    if isinstance(a, Zero): a = zero_like(b)
    if isinstance(b, Zero): b = zero_like(a)
    if isinstance(a, Ptr) and isinstance(b, Ptr): return ex.peq(a, b)
    if isinstance(a, PInt) and isinstance(b, PInt): return b_and(ex.peq(a.p, b.p), eq_int(a.d, b.d))
    if isinstance(a, PInt) and isinstance(b, Ptr): return b_and(ex.peq(a.p, b), eq_int(a.d, 0))
    if isinstance(b, PInt) and isinstance(a, Ptr): return cell_eq(ex, st_b, b, st_a, a)
    if isinstance(a, Ghost) and isinstance(b, Ghost):
        return simp(zi(a.t) == zi(b.t)) if a.sort == b.sort else False
    if isbool(a) or isbool(b):
        if not isbool(a): a = b_not(eq_int(a, 0))
        if not isbool(b): b = b_not(eq_int(b, 0))
        return simp(zb(a) == zb(b))
    if isnum(a) and isnum(b): return eq_int(a, b)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort(): return simp(a == b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b): return False
        return b_and(*[cell_eq(ex, st_a, x, st_b, y) for x, y in zip(a, b)])
    return False
def zero_like(v):
    if isinstance(v, Ptr): return NULL
    if isbool(v): return False
    if isnum(v): return 0
    return ZERO

def trace_eq(ex, A, B):
    """event sequences equal (events: (name, args...))"""
    if len(A) != len(B): return False
    cs = []
    for x, y in zip(A, B):
        if x[0] != y[0]: return False
        if x[0] == "loop":
            c = loop_eq(ex, x, y)
            cs.append(c); continue
        if len(x) != len(y): return False
        for a, b in zip(x[1:], y[1:]):
            if isinstance(a, str) or isinstance(b, str):
                if a != b: return False
                continue
            cs.append(cell_eq(ex, None, a, None, b))
    return b_and(*cs)

def loop_eq(ex, x, y):
    """events of a summarised loop: body ("loop", k, ((cond, events)...)), spec ("loop", n, fn)"""
    if callable(x[2]): x, y = y, x
    k, evs = x[1], x[2]; n, fn = y[1], y[2]
    j = z3.Int("lj"); cs = []
    for cond, ev in evs:
        c = trace_eq(ex, ev, fn(k))
        cs.append(z3.Implies(zb(cond), zb(c)))
    body = z3.substitute(z3.And(*cs), (k, j))
    return z3.And(k == n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), body)))

def frame_eq(ex, pre, body, spec, ignore=()):
    """every location of the pre-state has the same value in both post-states:
    list of (label, Bool)"""
    out = []
    for r in pre.mem:
        if r in ignore or (r in ex.mutglob and r.kind == "sym"): continue     # (state that outlives calls is arbitrary in every contract)
        a, b = body.mem.get(r), spec.mem.get(r)
        if a is b: continue
        if a is None or b is None:
            out.append((f"{r.name} alive", False)); continue
        for o in sorted(set(a) | set(b)):
            if (r, o) in ignore: continue
            x, y = a.get(o), b.get(o)
            if x is None and y is not None and isinstance(y[1], Undef): continue
            if y is None and x is not None and isinstance(x[1], Undef): continue
            if x is None or y is None:
                # lazily created cell: symbolic initial value unchanged?
                z = x or y
                out.append((f"{r.name}+{o}", "lazy", r, o, x, y)); continue
            if x[0] != y[0]: out.append((f"{r.name}+{o}", False)); continue
            out.append((f"{r.name}+{o}", cell_eq(ex, body, x[1], spec, y[1])))
    for f in set(body.fam) | set(spec.fam):
        if f in ignore or getattr(f, "local", False): continue           # storage owned by a local object
        a, b = body.fam.get(f, {}), spec.fam.get(f, {})
        for o in set(a) | set(b):
            if (f, o) in ignore: continue
            x = a.get(o); y = b.get(o)
            if x is None: x = ex.finit[(f, o)]
            if y is None: y = ex.finit[(f, o)]
            if veq(x, y): continue
            n = spec.flen.get(f)
            if n is not None and f.arity == 0:
                i = z3.Int(f"i_{f.name}")
                out.append((f"{f.name}[*]+{o}", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.Select(x, i) == z3.Select(y, i)))))
            else: out.append((f"{f.name}[*]+{o}", simp(x == y)))
    for g in set(body.ghost) | set(spec.ghost):
        if ("ghost", g) in ignore: continue
        out.append((f"ghost {g}", cell_eq(ex, body, body.ghost.get(g), spec, spec.ghost.get(g))))
    return out

def exc_desc(ex, e): return e

def check(ex, pre, outs, specs, label, ret_eq=None, ignore=(), post=None, exc_eq=None):
    """outs: outcomes of the real body; specs: list of (guard, kind, ret, state)"""
    ex.fstack.append(label)
    cover(ex, pre, outs)
    for k, v, t in outs:
        if not ex.smt.feasible(t): continue
        for sp in specs:
            g, k2, v2, t2 = sp[:4]
            def ob(name, goal):
                # obligation under t.pc and the guard
                h = t.copy()
                if g is not True: h.facts = h.facts + (zb(g),)
                for c in t2.pc[len(pre.pc):]: h.facts = h.facts + (c,)
                for c in t2.facts[len(pre.facts):]: h.facts = h.facts + (c,)
                ex.oblige(h, name, goal, "contract")
            if k != k2 or (k == "term" and v != v2):
                ob(f"outcome {k}{'' if k != 'term' else ' ' + str(v)} only where specified (specified: {k2})", False); continue
            if k == "ret" and not (v is None and v2 is None):
                if v2 is not ANY:
                    c = (ret_eq or (lambda a, b, ta, tb: cell_eq(ex, ta, a, tb, b)))(v, v2, t, t2)
                    ob("result as specified", c)
            if k == "throw":
                e1, e2 = t.exc, t2.exc
                c = (e1[0] == e2[0]) if exc_eq is None else exc_eq(t, t2)
                ob("exception type as specified", c)
            for item in frame_eq(ex, pre, t, t2, ignore):
                if len(item) == 2: ob(f"final value of {item[0]}", item[1])
                else:
                    ob(f"final value of {item[0]}", lazy_eq(ex, pre, item))
            if t.trace is not t2.trace or True:
                n = len(pre.trace)
                ob("observable events as specified", trace_eq(ex, t.trace[n:], t2.trace[n:]))
            if post: post(t, t2, ob)
    ex.fstack.pop()
def cover(ex, pre, outs):
    """vacuity guard: the precondition is satisfiable and some outcome is reachable"""
    import z3 as _z
    if ex.smt.check(pre.pc) == _z.unsat or not any(ex.smt.feasible(t) for _, _, t in outs):
        ex.oblige(State(), "cover: precondition satisfiable and an outcome reachable", False, "vacuity")
    else: ex.oblige(State(), "cover: precondition satisfiable and an outcome reachable", True, "vacuity")
class _Any: pass
ANY = _Any()
def lazy_eq(ex, pre, item):
    _, _, r, o, x, y = item
    # a cell only one side touched: it must not have been changed; the reading
    # side created a fresh initial value which is by construction unchanged
    z = x or y
    if r.kind == "sym" and is_sym(z[1]) and z[1].decl().name().startswith(f"{r.name}+{o}"): return True
    return False

def finish(ex, tmo=8000):
    """solve all obligations; returns summary"""
    res = {"unsat": 0, "sat": 0, "unknown": 0}
    fails = []
    for o in ex.obs:
        r = solve.solve(o, tmo)
        res[r] += 1
        if r != "unsat": fails.append(o)
    return res, fails
