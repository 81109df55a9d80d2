"""Contracts for ExpectationCollection (handle_call, push, remove), make_match_report,
evaluate_match_report and ScopedExpectation::Model (C08-C11, C22)."""
import z3, re
from core import *
from prove import *
import exe, ll, models, strings
from models import R, nop
from spec_seq import new, INT_MAX
from spec_ctl import off_of
from spec_best import vindex
I, B = z3.IntSort(), z3.BoolSort()
SIG = r"(?:int \(int, char&\)|void \(\))"          # units exp and exv
def is_void(unit): return unit.src.endswith("exv.cpp")
def tup_rx(unit): return r"std::tuple<class mimicpp::Expectation<" + (r"void \((?:void)?\)" if is_void(unit) else r"int \(int, char &\)") + r"> &, class mimicpp::MatchReport>"
COLL = r"mimicpp::ExpectationCollection<" + SIG + ">"
THROWS = z3.Function("matching_throws", I, B); REPORT = z3.Function("match_report", I, I)
VERDICT = z3.Function("verdict", I, I); FIN = z3.Function("call_result", I, I); SATISF = z3.Function("expectation_satisfied", I, B); EREP = z3.Function("expectation_report", I, I)

REPORTS = ("mimicpp::MatchReport", "mimicpp::CallReport", "mimicpp::ExpectationReport")
def ghost(ex, cls, sort, size):
    """a report class whose values are opaque terms: copy and move transfer the value"""
    g = models.ghost_class(ex, cls, sort, size); n = cls.split("<")[0].split("::")[-1]; c = re.escape(cls); C = ex.contract
    C(rf"^{c}::{n}\({c} const&\)", g["copy"], cls + " copy (no bad_alloc)"); C(rf"^{c}::{n}\({c}&&\)", g["move"], cls + (" move" if cls not in REPORTS else " move (proved separately: C16)"), trusted=cls not in REPORTS)
    C(rf"^{c}::operator=\({c} const&\)", g["assign_copy"], cls + " copy assignment"); C(rf"^{c}::operator=\({c}&&\)", g["assign_move"], cls + " move assignment")
    C(rf"^{c}::~{n}\(\)", nop, cls + (" destructor" if cls not in REPORTS else " destructor (proved separately: C16)"), trusted=cls not in REPORTS)
    return g
def install_lock(ex):
    def lock(ex, st, a, name):
        ex.oblige(st, "lock is not held when taken", eq_int(st.ghost.get("lock"), 0), "lock"); st.ghost["lock"] = 1; return R(st)
    def unlock(ex, st, a, name):
        ex.oblige(st, "lock is held when released", eq_int(st.ghost.get("lock"), 1), "lock"); st.ghost["lock"] = 0; return R(st)
    ex.contract(r"^std::mutex::lock\(\)", lock, "std::mutex::lock"); ex.contract(r"^std::mutex::unlock\(\)", unlock, "std::mutex::unlock")
def unlocked(ex, st, what): ex.oblige(st, f"lock is not held while {what}", eq_int(st.ghost.get("lock"), 0), "lock")

SLOTS = ("report", "is_satisfied", "matches", "consume", "finalize_call", "from")
def vtable(unit, handlers):
    """vtable of an arbitrary user type derived from Expectation: slots in the order the
    compiler chose for the interface; each slot is an assumed contract"""
    ex0 = exe.Exec(unit.mod); models.install_runtime(ex0)
    names = [g for g in unit.mod.globals if g.startswith("_ZTVN7mimicpp16BasicExpectation")]
    if not names: raise Unsupported("no vtable of BasicExpectation")
    p = ex0.gptr(sorted(names)[0]); cells = ex0.cmem[p.base]
    vt = Block("vtable", "const", None, const=True); d = {}
    for o, (sz, v) in cells.items():
        if not isinstance(v, Ptr) or not isinstance(v.base, FuncR): continue
        m = re.search(r"::(\w+)\((?:[^()]|\([^()]*\))*\)( const)?$", ex0.dem(v.base.name))
        r = Region("slot"); r.slot = m.group(1) if m else "dtor"
        def vcall(ex, st, t, a, r=r):
            h = handlers.get(r.slot)
            if h is None: raise Unsupported("virtual call of " + r.slot)
            return h(ex, st, a)
        r.vcall = vcall; d[o] = (8, Ptr(r))
    return vt, d

class Coll:
    """symbolic ExpectationCollection: n live expectations, exps[i] = object handle"""
    def __init__(s, ex, st, unit, handlers):
        s.ex = ex; s.unit = unit
        rec = unit.layout.find(r"mimicpp::ExpectationCollection<void \((?:void)?\)>" if is_void(unit) else r"mimicpp::ExpectationCollection<vu::Sig>")
        s.ov = rec.off("m_Expectations", r"vector<"); s.om = rec.off("m_ExpectationsMx", r"mutex")
        vt, vd = vtable(unit, handlers); ex.cmem[vt] = vd; s.vt = vt
        s.objs = Family("expectation", None, {0: (8, ("const", Ptr(vt, 16)))})
        s.ctrl = Family("refcount", None, {})
        s.fam = Family("live", 16, {0: (8, ("ptr", s.objs)), 8: (8, ("ptr", s.ctrl))}); s.fam.grow = True
        s.n = z3.Int("n"); st.flen[s.fam] = s.n
        st.assume(z3.And(s.n >= 0, s.n <= INT_MAX))
        s.E = ex.fam_arr(st, s.fam, 0); s.C = ex.fam_arr(st, s.fam, 8)
        s.blk = ex.new_block(st, "collection", "sym", rec.size); s.p = Ptr(s.blk)
        s.cap = Ptr(Region("live.cap"))
        st.mem[s.blk] = {s.ov: (8, Ptr(s.fam, 0, 0)), s.ov + 8: (8, Ptr(s.fam, 0, s.n)), s.ov + 16: (8, s.cap)}
        st.ghost["lock"] = 0
        j = z3.Int("j"); st.know(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.n), s.E[j] != 0), patterns=[s.E[j]]))
        def guard(ex, st, p, size):
            if p.base is s.blk and isinstance(p.off, int) and not (p.off + size > s.ov and p.off < s.ov + 24): return
            ex.oblige(st, "live expectations accessed under the lock", eq_int(st.ghost.get("lock"), 1), "lock")
        s.blk.guard = guard; s.fam.guard = guard

def objh(c, p):
    if isinstance(p, Ptr) and p.base is c.objs and p.off == 0: return p.idx
    raise Unsupported(f"expectation object {p}")

def local_vectors(ex, unit, om, oe, objs):
    """default constructed local vectors get a growable symbolic storage"""
    def mk(elem, fields):
        size = unit.layout.find(elem).size
        def dflt(ex, st, a, name):
            f = Family("vec" + str(len(st.fam)), size, dict(fields)); f.tag = elem      # length: its finish pointer
            for o in fields: ex.fam_arr(st, f, o)
            for o in (0, 8): ex.store_raw(st, ex.padd(a[0], o), 8, Ptr(f, 0, 0))
            ex.store_raw(st, ex.padd(a[0], 16), 8, Ptr(Region("cap")))
            return R(st)
        return dflt
    tup = tup_rx(unit)
    msz = unit.layout.find(r"mimicpp::MatchReport").size
    ex.contract(r"^std::_Vector_base<mimicpp::MatchReport, .*>::_Vector_impl_data::_Vector_impl_data\(\)", mk(r"mimicpp::MatchReport", {0: (msz, ("ghost", "MatchReport"))}), "std::vector storage: capacity unbounded, growth never fails")
    ex.contract(r"^std::_Vector_base<std::tuple<mimicpp::Expectation<" + SIG + r">&, mimicpp::MatchReport>, .*>::_Vector_impl_data::_Vector_impl_data\(\)", mk(tup, {om: (msz, ("ghost", "MatchReport")), oe: (8, ("ptr", objs))}), "std::vector storage: capacity unbounded, growth never fails")

def vec_of(ex, st, p):
    """(family, length term, columns) of a vector object"""
    b = ex.load_raw(st, p, 8); e = ex.load_raw(st, ex.padd(p, 8), 8)
    if isinstance(b, Ptr) and isinstance(b.base, Family) and isinstance(e, Ptr) and e.base is b.base:
        return b.base, b.idx, e.idx
    raise Unsupported("vector contents")

def ev_values(ex, unit):
    return {k: ex.run(unit.fn(rf"^vu::v_{f}\("), [], State())[0][1] for k, f in (("none", "none"), ("inapplicable", "inapp"), ("full", "full"))}

def p_handle_call(unit):
    ex, st = new(unit); strings.install_strings(ex); install_lock(ex)
    call = Ptr(ex.new_block(st, "call", "sym", 64))
    W = {}
    def iscall(st, p, who): ex.oblige(st, f"{who} gets this very call", cell_eq(ex, st, p, st, call), "contract")
    def h_consume(ex, st, a):
        unlocked(ex, st, "an expectation is consumed"); iscall(st, a[1], "consume")
        st.emit("consume", objh(W["c"], a[0])); b = z3.Bool("consume_throws")
        u = st.copy(); u.assume(b); st.assume(z3.Not(b))
        return [("ret", None, st), ex.throw(u, None, None, tag=z3.Int("consume_exc"))]
    def h_finalize(ex, st, a):
        unlocked(ex, st, "an expectation is finalized"); iscall(st, a[1], "finalize")
        e = objh(W["c"], a[0]); st.emit("finalize", e); b = z3.Bool("finalize_throws")
        u = st.copy(); u.assume(b); st.assume(z3.Not(b)); st.assume(z3.And(FIN(zi(e)) >= -(1 << 31), FIN(zi(e)) <= INT_MAX))
        return [("ret", None if is_void(unit) else FIN(zi(e)), st), ex.throw(u, None, None, tag=z3.Int("finalize_exc"))]
    c = W["c"] = Coll(ex, st, unit, dict(consume=h_consume, finalize_call=h_finalize))
    vals = ev_values(ex, unit); om, oe = off_of(ex, unit, "vu::m_report"), 0
    # where the tuple keeps its reference: found by executing the construction
    oe = tuple_ref_off(ex, unit, om)
    local_vectors(ex, unit, om, oe, c.objs)
    msz = unit.layout.find(r"mimicpp::MatchReport").size; csz = unit.layout.find(r"mimicpp::CallReport").size
    ghost(ex, "mimicpp::MatchReport", "MatchReport", msz); ghost(ex, "mimicpp::CallReport", "CallReport", csz)
    oo = off_of(ex, unit, "vu::o_val"); osz = unit.layout.find(r"std::optional<class mimicpp::MatchReport>").size; ohas = msz
    CALLREP = z3.Int("call_report")
    def k_mmr(ex, st, a, name):
        ret, cl, e = a; e = objh(c, e); iscall(st, cl, "make_match_report")
        st.emit("offered", e); u = st.copy(); u.assume(THROWS(zi(e))); st.assume(z3.Not(THROWS(zi(e))))
        ex.store_raw(u, ex.padd(ret, ohas), 1, 0)
        ex.store_raw(st, ex.padd(ret, oo), msz, Ghost("MatchReport", REPORT(zi(e)), msz)); ex.store_raw(st, ex.padd(ret, ohas), 1, 1)
        return [("ret", None, st), ("ret", None, u)]
    ex.contract(r"mimicpp::detail::make_match_report<", k_mmr, "make_match_report (proved separately)", trusted=False)
    def k_eval(ex, st, a, name):
        v = ex.load_raw(st, a[0], msz)
        if not (isinstance(v, Ghost) and v.sort == "MatchReport"): raise Unsupported("evaluated report")
        t = VERDICT(zi(v.t)); st.assume(z3.Or(*[t == x for x in vals.values()])); return R(st, t)
    ex.contract(r"^mimicpp::evaluate_match_report\(", k_eval, "evaluate_match_report (proved separately)", trusted=False)
    def k_mcr(ex, st, a, name):
        iscall(st, a[1], "make_call_report"); ex.store_raw(st, a[0], csz, Ghost("CallReport", CALLREP, csz)); return R(st)
    ex.contract(r"mimicpp::make_call_report<", k_mcr, "make_call_report (proved separately)", trusted=False)
    PICK = z3.Function("best_of", z3.ArraySort(I, I), I, I)
    def k_pick(ex, st, a, name):
        f, b, e = vec_of(ex, st, a[0])
        ex.oblige(st, "pick_best_match gets a nonempty list", simp(z3.And(zi(b) == 0, zi(e) > 0)), "contract")
        r = PICK(ex.fam_arr(st, f, om), zi(e)); st.assume(z3.And(r >= 0, r < zi(e))); return R(st, Ptr(f, 0, r))
    ex.contract(r"^(auto )?mimicpp::detail::pick_best_match<", k_pick, "pick_best_match (proved separately)", trusted=False)
    def callrep(st, p):
        v = ex.load_raw(st, p, csz)
        if not (isinstance(v, Ghost) and v.sort == "CallReport"): raise Unsupported("call report")
        return v
    def k_full(ex, st, a, name):
        unlocked(ex, st, "a full match is reported"); b = z3.Bool("full_report_throws")
        v = ex.load_raw(st, a[1], msz); st.emit("full_match", callrep(st, a[0]), v)
        u = st.copy(); u.assume(b); st.assume(z3.Not(b)); return [("ret", None, st), ex.throw(u, None, None, tag=z3.Int("full_exc"))]
    def k_lists(kind):
        def k(ex, st, a, name):
            unlocked(ex, st, "a failed call is reported")
            f, b, e = vec_of(ex, st, a[1])
            st.emit(kind, callrep(st, a[0]), b, e, ex.fam_arr(st, f, 0)); return [ex.throw(st, None, None, tag=z3.Int(kind + "_exc"))]
        return k
    ex.contract(r"^mimicpp::detail::report_full_match\(", k_full, "report_full_match (proved separately)", trusted=False)
    ex.contract(r"^mimicpp::detail::report_inapplicable_matches\(", k_lists("inapplicable"), "report_inapplicable_matches (never returns; proved separately)", trusted=False)
    ex.contract(r"^mimicpp::detail::report_no_matches\(", k_lists("no_match"), "report_no_matches (never returns; proved separately)", trusted=False)
    # ---- specification: lists after offering the k newest expectations
    AR = z3.ArraySort(I, I); j = z3.Int("j")
    def ekk(k): return c.E[c.n - 1 - k]
    cnt = {}; col = {}
    for nm, v in vals.items():
        cnt[nm] = z3.Function("count_" + nm, I, I); F = cnt[nm]
        take = lambda k, v=v: z3.And(z3.Not(THROWS(ekk(k))), VERDICT(REPORT(ekk(k))) == v)
        st.know(F(0) == 0); st.know(z3.ForAll([j], z3.Implies(j >= 0, F(j + 1) == F(j) + z3.If(take(j), 1, 0)), patterns=[F(j + 1)]))
        st.know(z3.ForAll([j], z3.Implies(j >= 0, z3.And(F(j) >= 0, F(j) <= j)), patterns=[F(j)]))
        for what, f in (("r", lambda k: REPORT(ekk(k))),) + ((("e", ekk),) if nm == "full" else ()):
            A = z3.Function(f"list_{nm}_{what}", AR, I, AR); col[nm, what] = (A, f); i0 = z3.Const("i0", AR)
            st.know(z3.ForAll([i0], A(i0, 0) == i0, patterns=[A(i0, 0)]))
            st.know(z3.ForAll([i0, j], z3.Implies(j >= 0, A(i0, j + 1) == z3.If(take(j), z3.Store(A(i0, j), F(j), f(j)), A(i0, j))), patterns=[A(i0, j + 1)]))
    def cand(ex, st, acc, k, loc):
        a = acc.term(k); r = []
        def kinds(f): return ("full",) if getattr(f, "tag", "").startswith("std::tuple") else ("none", "inapplicable")
        if acc.kind == "arr" and loc[0] == "f":
            for (nm, w), (A, f) in col.items():
                if nm in kinds(loc[1]) and (w == "e") == (loc[2] == oe and nm == "full"): r.append(a == A(acc.v0, k))
        elif isinstance(acc.kind, tuple) and acc.kind[0] == "ptr":
            v0 = acc.raw(acc.v0)
            if v0 is None: return []
            for nm, F in cnt.items():
                if nm in kinds(acc.kind[1]): r.append(a == v0 + F(k))
        return r
    ex.candidates.append(cand)
    pre = st.copy()
    outs = ex.run(unit.fn("^" + COLL + r"::handle_call\("), [c.p, call], st)
    n = c.n
    # ---- compare
    ex.fstack.append("ExpectationCollection::handle_call"); cover(ex, pre, outs)
    loopev = ("loop", n, lambda k: (("offered", ekk(k)),))
    ex.fstack.pop()
    def spec(guard, kind, ret, evs, exc=None):
        s = pre.copy(); s.trace = s.trace + (loopev,) + tuple(evs)
        if kind == "throw": s.exc = (None, None, exc); s.uncaught = add(s.uncaught, 1)
        return (guard, kind, ret, s)
    full, inap, non = cnt["full"](n), cnt["inapplicable"](n), cnt["none"](n)
    outs2 = []
    nret = 0
    ex.fstack.append("ExpectationCollection::handle_call")
    for k, v, t in outs:
        if not ex.smt.feasible(t): continue
        ob = lambda nm, g, k2="contract": ex.oblige(t, nm, g, k2)
        tr = t.trace[len(pre.trace):]
        # zero live expectations: the loop contributes no events
        if tr and tr[0][0] == "loop":
            ob("every live expectation is offered the call exactly once, newest first", loop_eq(ex, tr[0], loopev)); rest = tr[1:]
        else: ob("every live expectation is offered the call exactly once, newest first", n == 0); rest = tr
        names = [e[0] for e in rest]
        ob("lock released", eq_int(t.ghost.get("lock"), 0), "lock")
        if "full_match" in names:
            nret += 1
            ob("exactly one full-match report, first", names[0] == "full_match" and names.count("full_match") == 1 and "inapplicable" not in names and "no_match" not in names)
            ob("a full match is reported only if an applicable expectation matches", full > 0)
            g = rest[0]; CE = g[1]; MR = g[2]
            ob("the report describes this call", cell_eq(ex, t, CE, t, Ghost("CallReport", CALLREP, csz)))
            # find which family columns
            A_r, A_e = col["full", "r"][0], col["full", "e"][0]
            fam = [f for f in t.fam if getattr(f, "tag", "").startswith("std::tuple")]
            r0, e0 = ex.finit[(fam[0], om)], ex.finit[(fam[0], oe)]
            best = PICK(A_r(r0, n), full)
            ob("the report describes the chosen expectation", isinstance(MR, Ghost) and simp(MR.t == A_r(r0, n)[best]))
            want = [("consume", A_e(e0, n)[best]), ("finalize", A_e(e0, n)[best])]
            if k == "ret": ok = names[1:] == ["consume", "finalize"]
            elif k == "throw": ok = names[1:] == ["consume", "finalize"][:len(names) - 1]
            else: ok = False
            ob("the call is consumed once and then finalized once", ok)
            for x, y in zip(rest[1:], want): ob(f"{y[0]} is done on the chosen expectation", x[0] == y[0] and simp(zi(x[1]) == y[1]))
            if k == "ret" and not is_void(unit): ob("returns the result of the chosen expectation", simp(zi(v) == FIN(want[1][1])))
            if k == "throw":
                tags = [z3.Int("full_exc"), z3.Int("consume_exc"), z3.Int("finalize_exc")]
                ob("an exception on the way out is the one that was thrown there", is_sym(t.exc[2]) and t.exc[2].eq(tags[len(names) - 1]))
        else:
            ob("a call without applicable match never returns a result", k == "throw")
            ob("exactly one failure report and nothing consumed", len(names) == 1 and names[0] in ("inapplicable", "no_match"))
            ob("a failure is reported only if no applicable expectation matches", full == 0)
            if len(names) == 1 and names[0] in ("inapplicable", "no_match"):
                nm = "inapplicable" if names[0] == "inapplicable" else "none"; nret += 1
                ob(f"{names[0]} report exactly in its case", (inap > 0) if nm == "inapplicable" else (inap == 0))
                e = rest[0]
                ob("the report describes this call", cell_eq(ex, t, e[1], t, Ghost("CallReport", CALLREP, csz)))
                fams = [f for f in t.fam if getattr(f, "tag", "") == r"mimicpp::MatchReport"]
                A = col[nm, "r"][0]
                ob("the report lists exactly the expectations of its kind: begin", eq_int(e[2], 0))
                ob("the report lists exactly the expectations of its kind: number", zi(e[3]) == cnt[nm](n))
                ob("the report lists exactly the expectations of its kind", z3.Or(*[e[4] == A(ex.finit[(f, 0)], n) for f in fams]))
                ob("the report's own exception propagates", k == "throw" and is_sym(t.exc[2]) and t.exc[2].eq(z3.Int(names[0] + "_exc")))
        for it in frame_eq(ex, pre, t, pre, ignore={f for f in t.fam if f is not c.fam} | {("ghost", "lock")}):
            ob(f"final value of {it[0]}", it[1] if len(it) == 2 else lazy_eq(ex, pre, it))
    ex.oblige(State(), "all kinds of outcomes generated", nret >= 3, "vacuity")
    ex.fstack.pop()
    return ex
def tuple_ref_off(ex, unit, om):
    """offset of the reference inside tuple<Expectation&, MatchReport>"""
    msz = unit.layout.find(r"mimicpp::MatchReport").size
    ex2, st = new(unit); ghost(ex2, "mimicpp::MatchReport", "MatchReport", msz)
    o = ex2.new_block(st, "out", "undef"); e = Ptr(ex2.new_block(st, "e", "sym")); m = ex2.new_block(st, "m", "undef"); st.mem[m] = {0: (msz, Ghost("MatchReport", z3.Int("m"), msz))}
    for k, v, t in ex2.run(unit.fn(r"^vu::match_mk\("), [Ptr(o), e, Ptr(m)], st):
        for off, (sz, x) in t.mem[o].items():
            if isinstance(x, Ptr) and x.base is e.base: return off
    raise Unsupported("layout of the match tuple")

# ---------------------------------------------------------------- C09
def p_make_match_report(unit):
    ex, st = new(unit); strings.install_strings(ex)
    msz = unit.layout.find(r"mimicpp::MatchReport").size; csz = unit.layout.find(r"mimicpp::CallReport").size; esz = unit.layout.find(r"mimicpp::ExpectationReport").size
    ghost(ex, "mimicpp::MatchReport", "MatchReport", msz); ghost(ex, "mimicpp::CallReport", "CallReport", csz); ghost(ex, "mimicpp::ExpectationReport", "ExpectationReport", esz)
    ghost(ex, "std::__exception_ptr::exception_ptr", "exception_ptr", 8)
    call = Ptr(ex.new_block(st, "call", "sym", 64)); e = z3.Int("e"); st.assume(e != 0); W = {}
    EXC = z3.Int("thrown"); CALLREP = z3.Int("call_report")
    oo = off_of(ex, unit, "vu::o_val"); ohas = msz
    def h_matches(ex, st, a):
        ret, this, cl = a; ex.oblige(st, "the expectation gets this very call", cell_eq(ex, st, cl, st, call), "contract")
        st.emit("matches", objh(W["c"], this)); u = st.copy(); u.assume(THROWS(e)); st.assume(z3.Not(THROWS(e)))
        ex.store_raw(st, ret, msz, Ghost("MatchReport", REPORT(e), msz)); return [("ret", None, st), ex.throw(u, None, None, tag=EXC)]
    def h_report(ex, st, a):
        ex.store_raw(st, a[0], esz, Ghost("ExpectationReport", EREP(zi(objh(W["c"], a[1]))), esz)); return R(st)
    W["c"] = Coll(ex, st, unit, dict(matches=h_matches, report=h_report)); c = W["c"]
    def k_mcr(ex, st, a, name):
        ex.oblige(st, "the call report is made from this very call", cell_eq(ex, st, a[1], st, call), "contract")
        ex.store_raw(st, a[0], csz, Ghost("CallReport", CALLREP, csz)); return R(st)
    ex.contract(r"mimicpp::make_call_report<", k_mcr, "make_call_report (proved separately)", trusted=False)
    def k_unh(ex, st, a, name):
        st.emit("unhandled", ex.load_raw(st, a[0], csz), ex.load_raw(st, a[1], esz), ex.load_raw(st, a[2], 8)); return R(st)
    ex.contract(r"^mimicpp::detail::report_unhandled_exception\(", k_unh, "report_unhandled_exception (proved separately; the reporter returns)", trusted=False)
    ret = ex.new_block(st, "result", "undef"); pre = st.copy()
    outs = ex.run(unit.fn(r"mimicpp::detail::make_match_report<(?:int, int, char&|void), " + SIG + ">"), [Ptr(ret), call, Ptr(c.objs, 0, e)], st)
    s1 = pre.copy(); s1.emit("matches", e); s2 = s1.copy()
    s2.emit("unhandled", Ghost("CallReport", CALLREP, csz), Ghost("ExpectationReport", EREP(e), esz), Ghost("exception_ptr", EXC, 8))
    def res(t, t2, ob):
        m = t.mem[ret]; thr = t2.trace[-1][0] == "unhandled"
        ob("reports no match if and only if matching threw", eq_int(ex.load(t, Ptr(ret, ohas), ll.INT(8)), 0 if thr else 1))
        if not thr: ob("hands out the expectation's own match report", cell_eq(ex, t, ex.load_raw(t, Ptr(ret, oo), msz), t, Ghost("MatchReport", REPORT(e), msz)))
        ob("no exception is left active", t.exc is None and not t.caught and eq_int(t.uncaught, pre.uncaught))
    check(ex, pre, outs, [(z3.Not(THROWS(e)), "ret", None, s1), (THROWS(e), "ret", None, s2)], "make_match_report", ignore=(ret,), post=res)
    return ex
# ---------------------------------------------------------------- C10
def p_evaluate(unit):
    ex, st = new(unit); strings.install_strings(ex)
    rec = unit.layout.find(r"mimicpp::MatchReport"); er = unit.layout.find(r"mimicpp::MatchReport::Expectation")
    oi, ia = vindex(unit, "state_applicable"); ov = off_of(ex, unit, "vu::r_state"); om = er.off("isMatching"); oe = rec.off("expectationReports")
    fam = Family("policy_reports", er.size, {om: (1, "bool")}); n = z3.Int("n"); st.assume(z3.And(n >= 0, n <= INT_MAX)); st.flen[fam] = n
    M = ex.fam_arr(st, fam, om); ix = z3.Int("control"); st.assume(z3.And(ix >= 0, ix <= 2))
    b = ex.new_block(st, "report", "sym", rec.size); st.mem[b] = {ov + oi: (1, ix), oe: (8, Ptr(fam, 0, 0)), oe + 8: (8, Ptr(fam, 0, n)), oe + 16: (8, Ptr(Region("cap")))}
    vals = ev_values(ex, unit); i = z3.Int("i"); allm = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), M[i]))
    pre = st.copy(); outs = ex.run(unit.fn(r"^vu::eval\("), [Ptr(b)], st)
    check(ex, pre, outs, [(z3.Not(allm), "ret", vals["none"], pre), (z3.And(allm, ix == ia), "ret", vals["full"], pre), (z3.And(allm, ix != ia), "ret", vals["inapplicable"], pre)], "evaluate_match_report")
    return ex
# ---------------------------------------------------------------- C11
def shared_arg(ex, st, c, e, name):
    b = ex.new_block(st, name, "undef", 16); st.mem[b] = {0: (8, Ptr(c.objs, 0, e)), 8: (8, Ptr(c.ctrl, 0, z3.Int(name + ".refs")))}
    return Ptr(b)
def install_sp(ex):
    import spec_ctl; spec_ctl.install_shared_ptr(ex)
def p_push(unit):
    ex, st = new(unit); strings.install_strings(ex); install_lock(ex); install_sp(ex); c = Coll(ex, st, unit, {})
    e = z3.Int("e"); j = z3.Int("j"); st.assume(e != 0); st.know(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.n), c.E[j] != e), patterns=[c.E[j]]))
    st.assume(c.n < INT_MAX); p = shared_arg(ex, st, c, e, "arg"); pre = st.copy()
    outs = ex.run(unit.fn("^" + COLL + r"::push\("), [c.p, p], st)
    s = pre.copy(); s.fam[c.fam] = {0: z3.Store(c.E, c.n, e), 8: z3.Store(c.C, c.n, z3.Int("arg.refs"))}; s.flen[c.fam] = c.n + 1
    s.mem[c.blk] = dict(s.mem[c.blk]); s.mem[c.blk][c.ov + 8] = (8, Ptr(c.fam, 0, c.n + 1))
    check(ex, pre, outs, [(True, "ret", None, s)], "ExpectationCollection::push", ignore=(p.base,))
    return ex
def k_erase(c):
    def erase(ex, st, a, name):
        v, it = a
        if not (isinstance(it, Ptr) and it.base is c.fam and it.off == 0): raise Unsupported("erase position")
        fin = ex.load_raw(st, ex.padd(v, 8), 8)
        ex.oblige(st, "erase position is an element", simp(z3.And(zi(it.idx) >= 0, zi(it.idx) < zi(fin.idx))))
        d = {}; j = z3.Int("j")
        ex.oblige(st, "live expectations accessed under the lock", eq_int(st.ghost.get("lock"), 1), "lock")
        for o in (0, 8):
            A = ex.fam_arr(st, c.fam, o); N = z3.Const(f"erased{o}!{ex.nfresh}", A.sort()); d[o] = N
            st.know(z3.ForAll([j], z3.Implies(j < zi(it.idx), N[j] == A[j]), patterns=[N[j]])); st.know(z3.ForAll([j], z3.Implies(j >= zi(it.idx), N[j] == A[j + 1]), patterns=[N[j]]))
        st.fam[c.fam] = d; st.flen[c.fam] = sub(fin.idx, 1)
        ex.store_raw(st, ex.padd(v, 8), 8, ex.padd(fin, -16)); return R(st, it)
    return erase
def p_remove(unit):
    ex, st = new(unit); strings.install_strings(ex); install_lock(ex); install_sp(ex); W = {}
    esz = unit.layout.find(r"mimicpp::ExpectationReport").size; ghost(ex, "mimicpp::ExpectationReport", "ExpectationReport", esz)
    def h_sat(ex, st, a): return [("ret", SATISF(zi(objh(W["c"], a[0]))), st)]
    def h_report(ex, st, a): ex.store_raw(st, a[0], esz, Ghost("ExpectationReport", EREP(zi(objh(W["c"], a[1]))), esz)); return R(st)
    c = W["c"] = Coll(ex, st, unit, dict(is_satisfied=h_sat, report=h_report))
    e, p, j = z3.Ints("e pos j"); st.assume(e != 0); st.assume(z3.And(0 <= p, p < c.n)); st.assume(c.E[p] == e)
    st.know(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.n, j != p), c.E[j] != e), patterns=[c.E[j]]))
    ex.contract(r"^std::vector<std::shared_ptr<mimicpp::Expectation<.*>::erase\(__gnu_cxx::__normal_iterator<[^()]*(\([^()]*\)[^()]*)*\)$", k_erase(c), "std::vector::erase(pos): removes that element, keeps the others in order")
    def k_rep(ex, st, a, name):
        st.emit("unfulfilled", ex.load_raw(st, a[0], esz)); b = z3.Bool("reporter_throws"); u = st.copy(); u.assume(b); st.assume(z3.Not(b))
        return [("ret", None, st), ex.throw(u, None, None, tag=z3.Int("rep_exc"))]
    ex.contract(r"^mimicpp::detail::report_unfulfilled_expectation\(", k_rep, "report_unfulfilled_expectation (proved separately)", trusted=False)
    arg = shared_arg(ex, st, c, e, "arg"); pre = st.copy()
    outs = ex.run(unit.fn("^" + COLL + r"::remove\("), [c.p, arg], st)
    s = pre.copy(); k_erase(c)(ex, s, [ex.padd(c.p, c.ov), Ptr(c.fam, 0, p)], "") if s.ghost.update(lock=1) is None else 0; s.ghost["lock"] = 0
    u = s.copy(); u.emit("unfulfilled", Ghost("ExpectationReport", EREP(e), esz)); t = u.copy(); t.exc = (None, None, z3.Int("rep_exc")); t.uncaught = add(t.uncaught, 1)
    b = z3.Bool("reporter_throws")
    check(ex, pre, outs, [(SATISF(e), "ret", None, s), (z3.And(z3.Not(SATISF(e)), z3.Not(b)), "ret", None, u), (z3.And(z3.Not(SATISF(e)), b), "throw", None, t)], "ExpectationCollection::remove", ignore=(arg.base,))
    return ex
# ---------------------------------------------------------------- ScopedExpectation
def p_scoped(unit):
    """a ScopedExpectation pushes its expectation once when created and removes it exactly
    once: when it (or the object it was moved to) goes away or is overwritten"""
    ex, st = new(unit); strings.install_strings(ex); install_sp(ex); W = {}
    LOC = Ptr(Region("source_location"))
    c = W["c"] = Coll(ex, st, unit, dict(is_satisfied=lambda ex, st, a: [("ret", SATISF(zi(objh(W["c"], a[0]))), st)], **{"from": lambda ex, st, a: [("ret", (st.emit("from", objh(W["c"], a[0])), LOC)[1], st)]}))
    def k(kind):
        def f(ex, st, a, name):
            p = ex.load_raw(st, a[1], 8); st.emit(kind, a[0], objh(c, p)); b = z3.Bool(f"{kind}_throws")
            if kind == "push": return R(st)
            u = st.copy(); u.assume(b); st.assume(z3.Not(b)); return [("ret", None, st), ex.throw(u, None, None, tag=z3.Int("remove_exc"))]
        return f
    for nm in ("push", "remove"): ex.contract("^" + COLL + "::" + nm + r"\(", k(nm), f"ExpectationCollection::{nm} (proved separately)", trusted=False)
    def mk(st, name, e):
        st.assume(e != 0)
        cb = Ptr(ex.new_block(st, name + ".coll", "undef", 16)); st.mem[cb.base] = {0: (8, c.p), 8: (8, Ptr(c.ctrl, 0, z3.Int(name + ".crefs")))}
        eb = shared_arg(ex, st, c, e, name + ".exp"); out = Ptr(ex.new_block(st, name, "undef", 8))
        o = ex.run(unit.fn(r"^vu::scoped_mk\("), [out, cb, eb], st)
        return out, o
    e1, e2 = z3.Ints("e1 e2"); lab = "ScopedExpectation"
    s1, outs = mk(st, "s1", e1)
    ex.fstack.append(lab + " construction"); cover(ex, st, outs)
    for kk, v, t in outs:
        if not ex.smt.feasible(t): continue
        ex.oblige(t, "creation returns", kk == "ret", "contract"); ex.oblige(t, "pushes exactly its expectation, once", trace_eq(ex, t.trace, (("push", c.p, e1),)), "contract")
    ex.fstack.pop()
    live = [t for kk, v, t in outs if kk == "ret" and ex.smt.feasible(t)]
    fn = lambda n: unit.fn(rf"^vu::{n}\(")
    RM = lambda e: ("remove", c.p, e)
    def after(ex, base, outs, name, want, throws=True, term_ok=False):
        ex.fstack.append(lab + " " + name); cover(ex, base, outs); b = z3.Bool("remove_throws"); n = len(base.trace)
        for kk, v, t in outs:
            if not ex.smt.feasible(t): continue
            ex.oblige(t, "events as specified", trace_eq(ex, t.trace[n:], want), "contract")
            if term_ok: ex.oblige(t, "returns unless the removal fails", kk == "ret" or (kk == "term" and z3.Bool("remove_throws")) , "contract")
            elif not any(w[0] == "remove" for w in want): ex.oblige(t, "returns", kk == "ret", "contract")
            else:
                ex.oblige(t, "an exception of the removal propagates, and only that", kk in ("ret", "throw") and simp(b == (kk == "throw")), "contract")
        ex.fstack.pop()
        return [(v, t) for kk, v, t in outs if kk == "ret" and ex.smt.feasible(t)]
    for t0 in live:
        after(ex, t0, ex.run(fn("scoped_drop"), [s1], t0.copy()), "destruction", (RM(e1),))
        for v, t in after(ex, t0, ex.run(fn("scoped_sat"), [s1], t0.copy()), "is_satisfied", ()): ex.fstack.append(lab); ex.oblige(t, "asks its own expectation", simp(zb(v) == SATISF(e1)), "contract"); ex.fstack.pop()
        for v, t in after(ex, t0, ex.run(fn("scoped_from"), [s1], t0.copy()), "from", (("from", e1),)): ex.fstack.append(lab); ex.oblige(t, "hands out its own expectation's location", cell_eq(ex, t, v, t, LOC), "contract"); ex.fstack.pop()
        t1 = t0.copy(); d = Ptr(ex.new_block(t1, "moved_to", "undef", 8))
        for v, t in after(ex, t0, ex.run(fn("scoped_mv"), [d, s1], t1), "move construction", ()):
            after(ex, t, ex.run(fn("scoped_drop"), [s1], t.copy()), "destruction of the moved-from object", ())
            after(ex, t, ex.run(fn("scoped_drop"), [d], t.copy()), "destruction of the moved-to object", (RM(e1),))
        t2 = t0.copy(); s2, o2 = mk(t2, "s2", e2)
        for kk, v, t in o2:
            if kk != "ret" or not ex.smt.feasible(t): continue
            for v, u in after(ex, t, ex.run(fn("scoped_asg"), [s1, s2], t.copy()), "move assignment", (RM(e1),), term_ok=True):
                after(ex, u, ex.run(fn("scoped_drop"), [s2], u.copy()), "destruction of the moved-from object", ())
                u2 = u.copy(); u2.pc = tuple(x for x in u2.pc if not (z3.is_not(x) and x.arg(0).eq(z3.Bool("remove_throws"))))
                after(ex, u2, ex.run(fn("scoped_drop"), [s1], u2.copy()), "destruction of the assigned-to object", (RM(e2),))
    ex.fstack.append(lab); ex.oblige(State(), "a live object exists", len(live) > 0, "vacuity"); ex.fstack.pop()
    return ex
