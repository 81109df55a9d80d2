"""Contracts for BasicExpectation over opaque policies (C12)."""
import z3, re
from core import *
from prove import *
import exe, ll, models, strings
from models import R, nop
from spec_seq import new, INT_MAX
from spec_ctl import off_of, read_vec
from spec_call import ghost, is_void
I, B = z3.IntSort(), z3.BoolSort()
PS = z3.Function("policy_satisfied", I, B); PM = z3.Function("policy_matches", I, B); PT = z3.Function("policy_throws", I, B)
DH = z3.Function("has_description", I, B); DT = z3.Function("description", I, I)
STATE = z3.Function("control_state", I, I); FR = z3.Function("finalizer_result", I, I); TIMES = z3.Function("times_text", I, I)
KINDS = {0: [], 1: [1], 2: [1, 2], 3: [2, 1, 1], 5: [1, 2, 2, 1, 2]}
def p_basic(unit, n): return basic(unit, n, None)
def p_report(unit, n, kind): return basic(unit, n, kind)
ALTS = dict(ina=0, app=1, sat=2)
def basic(unit, n, kind):
    ex, st = new(unit); strings.install_strings(ex)
    C = ex.contract; call = Ptr(ex.new_block(st, "call", "sym", 64))
    vsz = unit.layout.find(r"std::variant<struct mimicpp::state_inapplicable, .*>").size
    ghost(ex, "std::variant<mimicpp::state_inapplicable, mimicpp::state_applicable, mimicpp::state_saturated>", "control_state", vsz)
    def this(st, p, cls): 
        v = ex.load_raw(st, p, 4)
        if isinstance(v, Undef): ex.oblige(st, "policy object is alive", False); raise PathEnd()
        return zi(v)
    def move(ex, st, a, name):
        v = ex.load_raw(st, a[1], 4); ex.store_raw(st, a[0], 4, v); ex.store_raw(st, a[1], 4, ex.fresh("moved_from")); return R(st)
    def iscall(st, p): ex.oblige(st, "the policy gets this very call", cell_eq(ex, st, p, st, call), "contract")
    for cls in ("Pol1", "Pol2", "Ctl", "Fin"):
        C(rf"^vu::{cls}::{cls}\(vu::{cls}&&\)", move, "opaque policy move (noexcept)"); C(rf"^vu::{cls}::~{cls}\(\)", nop, "opaque policy destructor")
        C(rf"^vu::{cls}::is_satisfied\(\)", lambda ex, st, a, name: R(st, PS(this(st, a[0], 0))), "opaque policy is_satisfied (noexcept, pure)")
    def k_matches(ex, st, a, name):
        iscall(st, a[1]); i = this(st, a[0], 0); u = st.copy(); u.assume(PT(i)); st.assume(z3.Not(PT(i)))
        return [("ret", PM(i), st), ex.throw(u, None, None, tag=i)]
    oo = off_of(ex, unit, "vu::od_val")
    def k_describe(ex, st, a, name):
        i = this(st, a[1], 0); u = st.copy(); u.assume(DH(i)); st.assume(z3.Not(DH(i)))
        ex.store_raw(st, ex.padd(a[0], 32), 1, 0); ex.store_raw(u, ex.padd(a[0], 32), 1, 1); strings.put(ex, u, ex.padd(a[0], oo), DT(i))
        return [("ret", None, st), ("ret", None, u)]
    def k_consume(ex, st, a, name):
        iscall(st, a[1]); st.emit("consume", this(st, a[0], 0)); return R(st)
    for cls in ("Pol1", "Pol2"):
        C(rf"^vu::{cls}::matches\(", k_matches, "opaque policy matches (may throw)"); C(rf"^vu::{cls}::describe\(", k_describe, "opaque policy describe"); C(rf"^vu::{cls}::consume\(", k_consume, "opaque policy consume (does not throw, as the documentation demands of side effects)")
    def k_ctl(ex, st, a, name):
        st.emit("count", this(st, a[0], 0)); u = st.copy(); b = z3.Bool("control_throws"); u.assume(b); st.assume(z3.Not(b)); return [("ret", None, st), ex.throw(u, None, None, tag=z3.Int("ctl_exc"))]
    C(r"^vu::Ctl::consume\(\)", k_ctl, "opaque control policy consume (may throw)")
    def k_state(ex, st, a, name): ex.store_raw(st, a[0], vsz, Ghost("control_state", STATE(this(st, a[1], 0)), vsz)); return R(st)
    C(r"^vu::Ctl::state\(\)", k_state, "opaque control policy state")
    def k_fin(ex, st, a, name):
        iscall(st, a[1]); i = this(st, a[0], 0); st.emit("finalize", i); u = st.copy(); b = z3.Bool("finalizer_throws"); u.assume(b); st.assume(z3.Not(b)); st.assume(z3.And(FR(i) >= -(1 << 31), FR(i) <= INT_MAX))
        return [("ret", None if is_void(unit) else FR(i), st), ex.throw(u, None, None, tag=z3.Int("fin_exc"))]
    C(r"^vu::Fin::finalize_call\(", k_fin, "opaque finalizer (may throw)")
    def arg(name):
        b = ex.new_block(st, name, "undef", 4); v = z3.Int(name); st.mem[b] = {0: (4, v)}; return Ptr(b), v
    loc = ex.new_block(st, "loc", "undef", 8); LV = Ptr(Region("location")); st.mem[loc] = {0: (8, LV)}
    c, ci = arg("ctl"); f, fi = arg("fin"); ps = [arg(f"pol{i}") for i in range(n)]; ids = [p[1] for p in ps]
    for v in [ci, fi] + ids: st.assume(z3.And(v >= 0, v <= INT_MAX))
    o = ex.new_block(st, "expectation", "undef"); obj = Ptr(o)
    outs = ex.run(unit.fn(rf"^vu::mk{n}\("), [obj, Ptr(loc), c, f] + [p[0] for p in ps], st)
    cls = r"mimicpp::BasicExpectation<(?:int \(int, char&\)|void \(\)), vu::Ctl, vu::Fin" + "".join(f", vu::Pol{k}" for k in KINDS[n]) + ">"
    lab = f"BasicExpectation<{n} policies>::"
    fn = lambda m: unit.fn("^" + cls + "::" + m + r"\(", pick=lambda g: "'lambda" not in unit.mod.dem[g])
    for k, v, t in outs:
        ex.fstack.append(lab + "constructor"); ex.oblige(t, "constructs", k == "ret" and len(t.trace) == 0, "contract"); ex.fstack.pop()
    live = [t for k, v, t in outs if k == "ret"]
    if len(live) != 1: raise Unsupported("construction forks")
    st = live[0]; st.mem[o] = dict(st.mem[o]); pre = st.copy()
    if kind is not None: return report(unit, ex, st, n, kind, obj, fn, lab, ci, ids, LV, oo)
    # is_satisfied
    check(ex, pre, ex.run(fn("is_satisfied"), [obj], st.copy()), [(True, "ret", z3.And(PS(ci), *[PS(i) for i in ids]), pre)], lab + "is_satisfied")
    # consume
    b = z3.Bool("control_throws"); s1 = pre.copy(); s1.emit("count", ci); s2 = s1.copy()
    for i in ids: s2.emit("consume", i)
    s1.exc = (None, None, z3.Int("ctl_exc")); s1.uncaught = add(s1.uncaught, 1)
    check(ex, pre, ex.run(fn("consume"), [obj, call], st.copy()), [(z3.Not(b), "ret", None, s2), (b, "throw", None, s1)], lab + "consume")
    # finalize_call
    b = z3.Bool("finalizer_throws"); s1 = pre.copy(); s1.emit("finalize", fi); s2 = s1.copy(); s2.exc = (None, None, z3.Int("fin_exc")); s2.uncaught = add(s2.uncaught, 1)
    check(ex, pre, ex.run(fn("finalize_call"), [obj, call], st.copy()), [(z3.Not(b), "ret", None if is_void(unit) else FR(fi), s1), (b, "throw", None, s2)], lab + "finalize_call", exc_eq=lambda x, y: x.exc[2].eq(y.exc[2]))
    # from
    ex.fstack.append(lab + "from")
    for k, v, t in ex.run(fn("from"), [obj], st.copy()):
        ex.oblige(t, "hands out the stored location", k == "ret" and cell_eq(ex, t, ex.load_raw(t, v, 8), t, LV), "contract")
    ex.fstack.pop()
    # matches
    rec = unit.layout.find(r"mimicpp::MatchReport"); er = unit.layout.find(r"mimicpp::MatchReport::Expectation")
    t0 = st.copy(); r = ex.new_block(t0, "report", "undef", rec.size); pre = t0.copy()
    outs = ex.run(fn("matches"), [Ptr(r), obj, call], t0)
    anyt = z3.Or(*[PT(i) for i in ids]) if ids else z3.BoolVal(False)
    ex.fstack.append(lab + "matches"); cover(ex, pre, outs)
    for k, v, t in outs:
        if not ex.smt.feasible(t): continue
        ob = lambda nm, g: ex.oblige(t, nm, g, "contract")
        ob("leaves everything else alone", b_and(*[it[1] if len(it) == 2 else lazy_eq(ex, pre, it) for it in frame_eq(ex, pre, t, pre, ignore=(r,))]))
        ob("no other effects", len(t.trace) == 0)
        if k == "throw": ob("throws only if a policy throws", anyt); ob("the exception is the policy's own", z3.Or(*[z3.And(PT(i), zi(t.exc[2]) == i) for i in ids]) if ids and is_sym(t.exc[2]) else False); continue
        ob("returns a report", k == "ret")
        if k != "ret": continue
        ob("returns only if no policy throws", z3.Not(anyt))
        P = Ptr(r); ob("carries the stored location", cell_eq(ex, t, ex.load_raw(t, ex.padd(P, rec.off("sourceLocation")), 8), t, LV))
        ob("carries the current control state", cell_eq(ex, t, ex.load_raw(t, ex.padd(P, rec.off("controlReport")), vsz), t, Ghost("control_state", STATE(ci), vsz)))
        es = read_vec(ex, t, ex.padd(P, rec.off("expectationReports")), er.size); ob("one entry per policy", len(es) == n)
        if len(es) != n: continue
        for q, i in zip(es, ids):
            ob("verdict of the policy, in order", simp(zb(ex.load(t, ex.padd(q, er.off("isMatching")), ll.INT(1))) == PM(i)))
            od = ex.padd(q, er.off("description")); has = ex.load(t, ex.padd(od, 32), ll.INT(1)); ob("has a description if and only if the policy has one", simp(zb(has) == DH(i)))
            if ex.smt.entails(t, DH(i)): ob("description of the policy, in order", eq_int(strings.get(ex, t, ex.padd(od, oo)), DT(i)))
    ex.fstack.pop()
    return ex
def report(unit, ex, st, n, kind, obj, fn, lab, ci, ids, LV, oo):
    """BasicExpectation::report: the stored location, the text of the current control state, the descriptions of the policies in order, nothing else"""
    import spec_rpp as RX
    C = ex.contract; get, put, it = RX.install_stream(ex); V = "std::variant<mimicpp::state_inapplicable, mimicpp::state_applicable, mimicpp::state_saturated>"; lay = unit.layout.find(r"std::variant<struct mimicpp::state_inapplicable, .*>"); vsz = lay.size
    ix = [o for o, d, m in lay.mem if re.search(r"\b_M_index$", m)]
    if len(ix) != 1: raise Unsupported("layout of std::variant")
    ix = ix[0]; state = Ghost("control_state", STATE(ci), ix)
    def k_state(ex, st, a, name): ex.oblige(st, "state of the own control policy", eq_int(ex.load_raw(st, a[1], 4), ci), "contract"); ex.store_raw(st, a[0], ix, state); ex.store_raw(st, ex.padd(a[0], ix), 1, ALTS[kind]); return R(st)
    C(r"^vu::Ctl::state\(\)", k_state, "opaque control policy state")
    def copy(ex, st, a, name):
        ex.store_raw(st, a[0], ix, ex.load_raw(st, a[1], ix)); ex.store_raw(st, ex.padd(a[0], ix), 1, ex.load_raw(st, ex.padd(a[1], ix), 1)); return R(st)
    c = re.escape(V); C(rf"^{c}::variant\({c} (const&|&&)\)", copy, "control state copy/move (no bad_alloc)"); C(rf"^{c}::~variant\(\)", nop, "control state destructor")
    def printer(ex, st, a, name):
        q, r = it(st, a[1:]); m = re.search(r"mimicpp::state_(\w+) const&\)", ex.dem(name)); g = ex.load_raw(st, r[0], ix)
        ex.oblige(st, "the current control state is printed", isinstance(g, Ghost) and g.sort == "control_state" and m[1].startswith(kind) and simp(zi(g.t) == STATE(ci)), "contract"); put(st, q, RX.CTL(zi(get(st, q)), STATE(ci))); return R(st, [q, 0])
    C(r"^(\S+ )*mimicpp::detail::control_state_printer::operator\(\)<std::ostreambuf_iterator<", printer, "control_state_printer (proved separately for an arbitrary output iterator: C26)", trusted=False)
    rec = unit.layout.find(r"mimicpp::ExpectationReport"); osz = unit.layout.find(r"std::optional<(class )?std::(__cxx11::)?basic_string<char.*>", pick=True).size; loc_v = off_of(ex, unit, "vu::ol_val")
    r = ex.new_block(st, "report", "undef", rec.size); pre = st.copy(); outs = ex.run(fn("report"), [Ptr(r), obj], st); ex.fstack.append(lab + "report"); cover(ex, pre, outs); flag = 32
    for k, v, t in outs:
        if not ex.smt.feasible(t): continue
        ob = lambda nm, g: ex.oblige(t, nm, g, "contract")
        ob("leaves everything else alone", b_and(*[i[1] if len(i) == 2 else lazy_eq(ex, pre, i) for i in frame_eq(ex, pre, t, pre, ignore=(r,))])); ob("no other effects", len(t.trace) == 0); ob("returns", k == "ret")
        if k != "ret": continue
        P = Ptr(r); at = lambda m: ex.padd(P, rec.off(m)); has = lambda p, o: simp(zb(ex.load(t, ex.padd(p, o), ll.INT(1))))
        lo = at("sourceLocation"); ob("has a location", has(lo, 8)); ob("carries the stored location", cell_eq(ex, t, ex.load_raw(t, ex.padd(lo, loc_v), 8), t, LV))
        ob("has no description of the finalizer", b_not(has(at("finalizerDescription"), flag)))
        ts = at("timesDescription"); ob("has a description of the times", has(ts, flag)); ob("it is the text of the current control state", eq_int(strings.get(ex, t, ex.padd(ts, oo)), RX.CTL(z3.IntVal(0), STATE(ci))))
        es = read_vec(ex, t, at("expectationDescriptions"), osz); ob("one entry per policy", len(es) == n)
        if len(es) != n: continue
        for q, i in zip(es, ids):
            ob("has a description if and only if the policy has one", has(q, flag) == DH(i))
            if ex.smt.entails(t, DH(i)): ob("description of the policy, in order", eq_int(strings.get(ex, t, ex.padd(q, oo)), DT(i)))
    ex.fstack.pop(); return ex
