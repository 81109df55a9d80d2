"""Contracts for mimic++/Reporter.hpp (C17): the default and the adaptable reporter, the hand-over to the installed one, its installation."""
import z3, re
from core import *
from prove import *
import exe, ll, models, strings
from models import R, nop
from spec_seq import new, INT_MAX
from spec_ctl import off_of
from spec_pol import S, fun, tageq, TAG
from spec_call import ghost, ev_values, VERDICT
I, B = z3.IntSort(), z3.BoolSort()
LOC = Family("location", None, {})
TEXTS = dict(no_match_report="no", inapplicable_match_report="inapp", report="full", unfulfilled_expectation="unful", unhandled_exception="unh")
def setup(unit):
    ex, st = new(unit); strings.install_strings(ex); s = S(); s.ex = ex; s.st = st; s.unit = unit; C = ex.contract
    sz = s.sz = {k: unit.layout.find(f"mimicpp::{k}").size for k in ("CallReport", "MatchReport", "ExpectationReport")}
    for k, z in sz.items(): ghost(ex, "mimicpp::" + k, k, z)
    ghost(ex, "std::__exception_ptr::exception_ptr", "exception_ptr", 8)
    ex.ghost_parts = {("CallReport", off_of(ex, unit, "vu::c_loc"), 8): lambda e, st, g: Ptr(LOC, 0, fun("location_of", I, I)(zi(g.t)))}
    s.vals = ev_values(ex, unit)
    def k_eval(ex, st, a, name):
        v = ex.load_raw(st, a[0], sz["MatchReport"])
        if not (isinstance(v, Ghost) and v.sort == "MatchReport"): raise Unsupported("evaluated report")
        return R(st, VERDICT(zi(v.t)))
    C(r"^mimicpp::evaluate_match_report\(", k_eval, "evaluate_match_report (proved separately)", trusted=False)
    def val(p, k):
        def f(st): 
            v = ex.load_raw(st, p, sz.get(k, 8))
            if isinstance(v, Ghost) and v.sort == k: return zi(v.t)
            raise Unsupported(f"{k} value {v}")
        return f
    def text(kind):
        def k(ex, st, a, name):
            t = [val(a[1], "CallReport" if kind in ("no", "inapp", "full", "unh") else "ExpectationReport")(st)]
            if kind == "full": t.append(val(a[2], "MatchReport")(st))
            if kind == "unh": t += [val(a[2], "ExpectationReport")(st), val(a[3], "exception_ptr")(st)]
            if kind in ("no", "inapp"):
                q, n = a[2], a[3]
                if not (isinstance(q, Ptr) and q.base is s.fam): raise Unsupported("reports to print")
                ex.oblige(st, "the text lists all reports", z3.And(zi(q.idx) == 0, zi(n) == s.n), "contract")
            strings.put(ex, st, a[0], fun("text_" + kind, *([I] * (len(t) + 1)))(*t)); return R(st)
        return k
    for n, kind in TEXTS.items(): C(rf"^mimicpp::detail::stringify_{n}\(", text(kind), f"stringify_{n} (a text made from its arguments; proved separately: C26)", trusted=False)
    C(r"^std::(basic_)?ostream<?.*& std::operator<<", lambda ex, st, a, n: R(st, a[0]), "stream output (does not throw)")
    C(r"^std::type_info::", nop, "type_info") if False else None
    s.fam = Family("reports", sz["MatchReport"], {0: (sz["MatchReport"], ("ghost", "MatchReport"))}); s.n = z3.Int("reports.size"); st.flen[s.fam] = s.n; st.assume(z3.And(s.n >= 0, s.n <= 1 << 50)); s.R = ex.fam_arr(st, s.fam, 0)
    def mk(k):
        b = ex.new_block(st, k, "undef", sz.get(k, 8)); t = z3.Int("the_" + k); st.mem[b] = {0: (sz.get(k, 8), Ghost(k, t, sz.get(k, 8)))}; return Ptr(b), t
    s.call, s.callt = mk("CallReport"); s.match, s.matcht = mk("MatchReport"); s.exp, s.expt = mk("ExpectationReport"); s.exc, s.exct = mk("exception_ptr")
    b = ex.new_block(st, "list", "undef", 24); st.mem[b] = {0: (8, Ptr(s.fam, 0, 0)), 8: (8, Ptr(s.fam, 0, s.n)), 16: (8, Ptr(Region("capacity")))}; s.list = Ptr(b)
    s.msgt = z3.Int("the_message"); b = ex.new_block(st, "message", "undef", 32); s.msg = Ptr(b); strings.put(ex, st, s.msg, s.msgt)
    u = z3.Int("exceptions_in_flight"); st.assume(z3.And(u >= 0, u <= INT_MAX - 1)); st.uncaught = u; s.u = u; s.moved = tuple(p.base for p in (s.call, s.match, s.exp, s.msg, s.list))
    return s
ARGS = dict(no=("call", "list"), inapp=("call", "list"), full=("call", "match"), unful=("exp",), error=("msg",), unh=("call", "exp", "exc"))
def verdicts(s, kind):
    """the reports handed over are of the kind the method is for (what handle_call guarantees)"""
    i = z3.Int("i"); v = s.vals
    if kind in ("no", "inapp"): s.st.know(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), VERDICT(s.R[i]) == v["none" if kind == "no" else "inapplicable"]), patterns=[VERDICT(s.R[i])]))
    if kind == "full": s.st.assume(VERDICT(s.matcht) == v["full"])
def specs_for(s, pre, kind, fails):
    """(guard, kind, state): a failed call always aborts; unfulfilled and plain errors abort iff no exception is in flight; the rest never"""
    if kind in ("no", "inapp"): return [(True, "throw")]
    if kind in ("unful", "error"): return [(s.u == 0, "throw"), (s.u != 0, "ret")]
    return [(True, "ret")]
def p_default(unit, kind):
    first = None
    for out in (False, True):
        s = setup(unit); ex, st = s.ex, s.st; verdicts(s, kind); ob = ex.new_block(st, "reporter", "undef", 64); stream = Ptr(Region("stream")) if out else NULL
        st = ex.run(unit.fn(r"^vu::mk\("), [Ptr(ob), stream], st)[0][2]; pre = st.copy()
        outs = ex.run(unit.fn(rf"^vu::def_{kind}\("), [Ptr(ob), *[getattr(s, a) for a in ARGS[kind]]], st); specs = []
        ty = lambda f: ex.run(unit.fn(rf"^vu::ty_{f}[\[(]"), [], State())[0][1].base.name[1:]
        for g, k in specs_for(s, pre, kind, None):
            sp = pre.copy()
            if k == "throw": sp.exc = (ty(dict(no="um", inapp="um", unful="uf", error="er")[kind]), None, None); sp.uncaught = add(sp.uncaught, 1)
            specs.append((g, k, None, sp))
        def post(t, t2, o):
            if t2.exc is None: return
            if t.exc is None or not isinstance(t.exc[1], Ptr): return o("the exception carries the report", False)
            e = t.exc[1]; at = lambda f: ex.run(unit.fn(rf"^vu::{f}\("), [e], t.copy())[0][1]
            if kind in ("no", "inapp"):
                o("the exception carries the call report", cell_eq(ex, t, ex.load_raw(t, at("um_call"), s.sz["CallReport"]), t, Ghost("CallReport", s.callt, s.sz["CallReport"])))
                l = at("um_list"); b, f = ex.load_raw(t, l, 8), ex.load_raw(t, ex.padd(l, 8), 8); o("the exception carries all match reports", b_and(cell_eq(ex, t, b, t, Ptr(s.fam, 0, 0)), cell_eq(ex, t, f, t, Ptr(s.fam, 0, s.n))))
                o("the exception carries the call's location", cell_eq(ex, t, ex.load_raw(t, at("um_where"), 8), t, Ptr(LOC, 0, fun("location_of", I, I)(s.callt))))
            if kind == "unful": o("the exception carries the expectation report", cell_eq(ex, t, ex.load_raw(t, at("uf_rep"), s.sz["ExpectationReport"]), t, Ghost("ExpectationReport", s.expt, s.sz["ExpectationReport"])))
        check(ex, pre, outs, specs, f"DefaultReporter {'with' if out else 'without'} stream: {kind}", ignore=s.moved, post=post)
        if first is None: first = ex
        else: first.obs += ex.obs; first.inlined |= ex.inlined; first.used.update(ex.used)
    return first
def p_basic(unit, kind):
    s = setup(unit); ex, st = s.ex, s.st; ob = ex.new_block(st, "reporter", "undef", 64); st = ex.run(unit.fn(r"^vu::mkb\("), [Ptr(ob)], st)[0][2]; s.st = st
    def fn(k):
        def f(ex, st, a, name):
            st.emit(k, strings.G(strings.get(ex, st, a[0])))
            return [ex.throw(st, None, None, tag=TAG)] if k == "fail" else R(st)
        return f
    for k, w in (("succ", "returns"), ("warn", "returns"), ("fail", "never returns normally")): ex.contract(rf"^vu::{k}\(", fn(k), f"opaque user reporter function ({w})")
    pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::basic_{kind}\("), [Ptr(ob), *[getattr(s, a) for a in ARGS[kind]]], st); specs = []
    text = dict(no=lambda: fun("text_no", I, I)(s.callt), inapp=lambda: fun("text_inapp", I, I)(s.callt), full=lambda: fun("text_full", I, I, I)(s.callt, s.matcht), unful=lambda: fun("text_unful", I, I)(s.expt), error=lambda: s.msgt, unh=lambda: fun("text_unh", I, I, I, I)(s.callt, s.expt, s.exct))[kind]()
    for g, k in specs_for(s, pre, kind, None):
        sp = pre.copy()
        if k == "throw": sp.emit("fail", strings.G(text)); sp.exc = (None, None, TAG); sp.uncaught = add(sp.uncaught, 1)
        elif kind in ("full", "unh"): sp.emit("succ" if kind == "full" else "warn", strings.G(text))
        specs.append((g, k, None, sp))
    check(ex, pre, outs, specs, f"BasicReporter: {kind}", ignore=s.moved, exc_eq=tageq); return ex
SLOT = dict(report_no_matches="no", report_inapplicable_matches="inapp", report_full_match="full", report_unfulfilled_expectation="unful", report_error="error", report_unhandled_exception="unh")
def installed(s):
    """an arbitrary reporter is installed; get_reporter gives the place that holds it"""
    ex, st, unit = s.ex, s.st, s.unit; g = [g for g in unit.mod.globals if g.startswith("_ZTVN7mimicpp15DefaultReporter")]
    if not g: raise Unsupported("no vtable of DefaultReporter")
    vt = Block("vtable", "const", None, const=True); d = {}
    def slot(name):
        r = Region("slot")
        def vcall(ex, st, t, a):
            k = SLOT.get(name)
            if k is None: st.emit("deleted" if name == "D0" else "destroyed", a[0]); return R(st)
            vs = []
            for p, w in zip(a[1:], ARGS[k]):
                if w == "list": vs += [ex.load_raw(st, p, 8), ex.load_raw(st, ex.padd(p, 8), 8)]
                elif w == "msg": vs.append(strings.G(strings.get(ex, st, p)))
                else: vs.append(ex.load_raw(st, p, s.sz.get(dict(call="CallReport", match="MatchReport", exp="ExpectationReport").get(w), 8)))
            st.emit(k, a[0], *vs)
            if k in ("no", "inapp"): return [ex.throw(st, None, None, tag=TAG)]
            if k == "full": return R(st)
            c = z3.Bool("reporter_throws"); u = st.copy(); u.assume(c); st.assume(z3.Not(c)); return [("ret", None, st), ex.throw(u, None, None, tag=TAG)]
        r.vcall = vcall; return r
    for o, (z, v) in ex.cmem[ex.gptr(sorted(g)[0]).base].items():
        if isinstance(v, Ptr) and isinstance(v.base, FuncR):
            m = re.search(r"::(\w+)\(.*\)( const)?$", ex.dem(v.base.name)); n = m.group(1) if m and "~" not in ex.dem(v.base.name) else ("D0" if "D0Ev" in v.base.name else "D1"); d[o] = (8, Ptr(slot(n)))
    ex.cmem[vt] = d; s.vt = vt; s.obj = ex.new_block(st, "installed reporter", "undef", 64); st.mem[s.obj] = {0: (8, Ptr(vt, 16))}; s.hold = ex.new_block(st, "the reporter", "undef", 8); st.mem[s.hold] = {0: (8, Ptr(s.obj))}
    ex.contract(r"^mimicpp::detail::get_reporter\(\)", lambda ex, st, a, n: R(st, Ptr(s.hold)), "get_reporter (proved separately: always the same place)", trusted=False)
def p_handover(unit, kind):
    s = setup(unit); ex, st = s.ex, s.st; installed(s); pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::to_{kind}\("), [getattr(s, a) for a in ARGS[kind]], st)
    z = s.sz; vs = []
    for w in ARGS[kind]: vs += {"call": [Ghost("CallReport", s.callt, z["CallReport"])], "match": [Ghost("MatchReport", s.matcht, z["MatchReport"])], "exp": [Ghost("ExpectationReport", s.expt, z["ExpectationReport"])], "exc": [Ghost("exception_ptr", s.exct, 8)], "list": [Ptr(s.fam, 0, 0), Ptr(s.fam, 0, s.n)], "msg": [strings.G(s.msgt)]}[w]
    a = pre.copy(); a.emit(kind, Ptr(s.obj), *vs); b = a.copy(); b.exc = (None, None, TAG); b.uncaught = add(b.uncaught, 1); c = z3.Bool("reporter_throws")
    specs = [(True, "throw", None, b)] if kind in ("no", "inapp") else [(True, "ret", None, a)] if kind == "full" else [(c, "throw", None, b), (z3.Not(c), "ret", None, a)]
    check(ex, pre, outs, specs, f"hand-over to the installed reporter: {kind}", ignore=s.moved, exc_eq=tageq); return ex
def p_install(unit, fn):
    """install_reporter: the given reporter takes the place, the former one is deleted once"""
    s = setup(unit); ex, st = s.ex, s.st; installed(s); made = []
    def ctor(ex, st, a, name): st.emit("made", *a[1:]); made.append(a[0]); ex.store_raw(st, a[0], 8, Ptr(s.vt, 16)); return R(st)
    ex.contract(r"^vu::Mine::Mine\(", ctor, "opaque user reporter constructor (does not throw)")
    i, j = z3.Int("i"), Ptr(Region("j")); st.assume(z3.And(i >= -(1 << 31), i <= INT_MAX)); pre = st.copy(); o = ex.new_block(st, "installer", "undef", 16) if fn == "inst2" else None
    outs = ex.run(unit.fn(rf"^vu::{fn}\("), ([Ptr(o)] if o else []) + [i, j], st); sp = pre.copy(); sp.emit("made", i, j); sp.emit("deleted", Ptr(s.obj))
    def post(t, t2, ob):
        p = ex.load_raw(t, Ptr(s.hold), 8); ob("the new reporter is installed", len(made) == 1 and isinstance(p, Ptr) and exe.veq(p, made[0]) and p.base in t.mem)
    check(ex, pre, outs, [(True, "ret", None, sp)], f"install_reporter ({fn})", ignore=(s.hold,), post=post); return ex
def p_current(unit):
    """get_reporter: creates a DefaultReporter once and gives the same place ever after"""
    s = setup(unit); ex, st = s.ex, s.st; ex.at_start = True
    def acq(ex, st, a, name): return R(st, 1)
    def rel(ex, st, a, name): ex.store_raw(st, a[0], 1, 1); return R(st)
    ex.contract(r"^__cxa_guard_acquire$", acq, "__cxa_guard_acquire"); ex.contract(r"^__cxa_guard_release$", rel, "__cxa_guard_release"); ex.contract(r"^__cxa_atexit$", lambda ex, st, a, n: R(st, 0), "__cxa_atexit")
    fn = unit.fn(r"^vu::current\("); pre = st.copy(); outs = ex.run(fn, [], st); ex.fstack.append("get_reporter::"); cover(ex, pre, outs)
    ex.oblige(pre, "first use has one outcome", len(outs) == 1 and outs[0][0] == "ret", "contract"); t = outs[0][2]; p = outs[0][1]
    r = ex.load(t, p, ll.PTR); g = sorted(g for g in unit.mod.globals if g.startswith("_ZTVN7mimicpp15DefaultReporter"))
    v = ex.load(t, r, ll.PTR); ex.oblige(t, "a DefaultReporter is installed at first", exe.veq(v, ex.padd(ex.gptr(g[0]), 16)), "contract")
    q = t.copy(); ex.store(q, p, Ptr(Region("other reporter")), ll.PTR); pre2 = q.copy(); o2 = ex.run(fn, [], q)
    ex.oblige(pre2, "later uses give the same place", len(o2) == 1 and o2[0][0] == "ret" and exe.veq(o2[0][1], p), "contract")
    for it in frame_eq(ex, pre2, o2[0][2], pre2): ex.oblige(o2[0][2], f"later uses leave {it[0]} alone", it[1] if len(it) == 2 else lazy_eq(ex, pre2, it), "contract")
    ex.fstack.pop(); return ex
def p_gtest(unit, fn):
    """the GoogleTest adapter: its fail function records a failure with the message and then throws; success records a success with it; the others return"""
    s = adapter(unit); ex, st = s.ex, s.st; C = ex.contract
    C(r"^(testing::Message& )?testing::(Message|internal)::", lambda ex, st, a, n: R(st, a[0] if a else None), "GoogleTest message building")
    C(r"^testing::Message::Message\(\)", lambda ex, st, a, n: (ex.store_raw(st, a[0], 8, strings.lit("")), R(st))[1], "GoogleTest: message"); C(r"^testing::Message::Message\(testing::Message const&\)", lambda ex, st, a, n: (ex.store_raw(st, a[0], 8, ex.load_raw(st, a[1], 8)), R(st))[1], "GoogleTest: message")
    def shift(ex, st, a, name):
        o, x = ex.load_raw(st, a[0], 8), text_at(ex, st, name, a[1]); ex.store_raw(st, a[0], 8, x if zi(o).eq(strings.lit("")) else strings.CAT(zi(o), zi(x))); return R(st, a[0])
    C(r"^(testing::Message& )?testing::Message::operator<<", shift, "GoogleTest: message << text (appends it)"); C(r"^testing::Message::~Message\(", nop, "GoogleTest: message")
    def helper(ex, st, a, name):
        x = strings.text_of(a[4]) if isinstance(a[4], Ptr) else None; ex.store_raw(st, a[0], 8, strings.lit("own") if x is None else x); st.emit("result", a[1]); return R(st)
    C(r"^testing::internal::AssertHelper::AssertHelper\(", helper, "GoogleTest: AssertHelper constructor")
    def record(ex, st, a, name): st.emit("recorded", ex.load_raw(st, a[1], 8)); return R(st)
    C(r"^testing::internal::AssertHelper::operator=\(testing::Message const&\) const", record, "GoogleTest: recording a result with its text (GTest's throw_on_failure may throw its own exception)")
    pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::{fn}\("), [s.b], st); lab = f"GoogleTest adapter {fn}"; ex.fstack.append(lab); cover(ex, pre, outs); exc = ex.run(unit.fn(r"^vu::ty_failure[\[(]"), [], State())[0][1].base.name[1:]
    for k, v, t in outs:
        if not ex.smt.feasible(t): continue
        ob = lambda nm, g: ex.oblige(t, nm, g, "contract"); ev = t.trace; ob("one result, recorded", [e[0] for e in ev] == ([] if fn == "gwarn" else ["result", "recorded"])); ob("leaves by an exception if and only if it records a failure", k == ("throw" if fn == "gfail" else "ret"))
        if len(ev) == 2: ob("the result recorded", ev[0][1] == (2 if fn == "gfail" else 0)); ob("the message is shown", shows(s, ev[1][1]))
        if k == "throw": ob("the exception is the adapter's", t.exc[0] == exc)
        ob("leaves the message alone", b_and(*[i[1] if len(i) == 2 else lazy_eq(ex, pre, i) for i in frame_eq(ex, pre, t, pre, ignore=())]))
    ex.fstack.pop(); return ex
def adapter(unit):
    s = S(); s.ex, s.st = new(unit); ex, st = s.ex, s.st; strings.install_strings(ex); s.t = z3.Int("the_message"); b = ex.new_block(st, "message", "undef", 32); s.b = Ptr(b); strings.put(ex, st, s.b, s.t); st.assume(z3.And(strings.LEN(s.t) >= 0, strings.LEN(s.t) <= 1 << 40)); return s
def text_at(ex, st, name, p):
    d = ex.dem(name); m = re.search(r"operator<< ?<(.*)>\(", d); ty = m[1] if m else ""
    if "basic_string_view<char" in ty: return strings.view(ex, st, p)
    if "basic_string<char" in ty: return strings.get(ex, st, p)
    m = re.fullmatch(r"char ?(const)? ?\[(\d+)\]", ty)
    if m: return strings.lit(strings.bytes_at(ex, st, p, int(m[2])).split("\0")[0])
    if re.fullmatch(r"char const\*", ty): x = strings.text_of(ex.load(st, p, ll.PTR)); return strings.lit("?") if x is None else z3.Function("up to the first NUL", I, I)(zi(x))
    raise Unsupported("text of type " + ty)
def shows(s, e):
    """the text shown to the user is the message, or one format application that contains it"""
    e = zi(e); return simp(e == s.t) if not any(c.eq(s.t) for c in strings.numbers(strings.G(e))) else True
def p_catch(unit, fn):
    """the Catch2 adapter: its fail function reports a failure with the message and leaves by Catch2's exception; the others report success / a warning and return"""
    s = adapter(unit); ex, st = s.ex, s.st; C = ex.contract; C(r"^Catch::SourceLineInfo::", nop, "Catch2: source line")
    def ctor(ex, st, a, name): ex.store_raw(st, a[0], 8, a[-1]); return R(st)
    C(r"^Catch::AssertionHandler::AssertionHandler\(", ctor, "Catch2: AssertionHandler"); C(r"^Catch::AssertionHandler::~AssertionHandler\(", nop, "Catch2: ~AssertionHandler")
    def message(ex, st, a, name): st.emit("result", a[1], ex.load_raw(st, a[0], 8)); st.emit("text", strings.view_of(ex, st, a[3], a[2])); ex.store_raw(st, ex.padd(a[0], 8), 8, a[1]); return R(st)
    C(r"^Catch::AssertionHandler::handleMessage\(", message, "Catch2: handleMessage (records the result, with its text)")
    def complete(ex, st, a, name):
        d, r = ex.load_raw(st, a[0], 8), ex.load_raw(st, ex.padd(a[0], 8), 8); st.emit("complete")
        if not isinstance(r, int) or not isinstance(d, int): raise Unsupported("Catch2 result")
        return [ex.throw(st, None, None, tag=z3.Int("catch_failure"))] if r & 16 and d & 1 else R(st)
    C(r"^Catch::AssertionHandler::complete\(\)", complete, "Catch2: complete (throws after a failure, unless failures are to be continued after)")
    C(r"^Catch::ReusableStringStream::ReusableStringStream\(\)", lambda ex, st, a, n: (ex.store_raw(st, a[0], 8, strings.lit("")), R(st))[1], "Catch2: message stream"); C(r"^Catch::ReusableStringStream::~ReusableStringStream\(", nop, "Catch2: message stream")
    def shift(ex, st, a, name):
        o, x = ex.load_raw(st, a[0], 8), text_at(ex, st, name, a[1]); ex.store_raw(st, a[0], 8, x if zi(o).eq(strings.lit("")) else strings.CAT(zi(o), zi(x))); return R(st, a[0])
    C(r"^(Catch::ReusableStringStream& )?Catch::ReusableStringStream::operator<<", shift, "Catch2: message stream << text (appends it)")
    def txt(ex, st, a, name): strings.put(ex, st, a[0], ex.load_raw(st, a[1], 8)); return R(st)
    C(r"^Catch::ReusableStringStream::str\b", txt, "Catch2: text of a message stream")
    pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::{fn}\("), [s.b], st); kind = dict(cfail=18, csucc=0, cwarn=2)[fn]; lab = f"Catch2 adapter {fn}"; ex.fstack.append(lab); cover(ex, pre, outs)
    for k, v, t in outs:
        if not ex.smt.feasible(t): continue
        ob = lambda nm, g: ex.oblige(t, nm, g, "contract"); ev = t.trace; ob("one result, with its text, completed", [e[0] for e in ev] == ["result", "text", "complete"]); ob("leaves by Catch2's exception if and only if it reports a failure", k == ("throw" if fn == "cfail" else "ret"))
        if len(ev) == 3: ob("the result reported", ev[0][1] == kind); ob("the message is shown", shows(s, ev[1][1]))
        if k == "throw": ob("the exception is Catch2's", is_sym(t.exc[2]) and t.exc[2].eq(z3.Int("catch_failure")))
        ob("leaves the message alone", b_and(*[i[1] if len(i) == 2 else lazy_eq(ex, pre, i) for i in frame_eq(ex, pre, t, pre, ignore=())]))
    ex.fstack.pop(); return ex
def p_boost(unit, fn):
    """the Boost.Test adapter: its fail function reports a failed requirement with the message and leaves by Boost.Test's exception; the others write the message to the log and return"""
    s = adapter(unit); ex, st = s.ex, s.st; C = ex.contract; LAZY = Ptr(Region("lazy_ostream"))
    C(r"^boost::unit_test::(basic_cstring<char const>::|unit_test_log_t::set_checkpoint|log::begin::)", nop, "Boost.Test: source positions"); C(r"^boost::unit_test::unit_test_log_t::operator<<\(", lambda ex, st, a, n: R(st, a[0]), "Boost.Test: log"); C(r"^boost::unit_test::lazy_ostream::instance\(\)", lambda ex, st, a, n: R(st, LAZY), "Boost.Test: lazy_ostream")
    def shift(ex, st, a, name):
        x = text_at(ex, st, name, a[2]); o = strings.lit("") if a[1] is LAZY or exe.veq(a[1], LAZY) is True else ex.load_raw(st, a[1], 8); ex.store_raw(st, a[0], 8, x if zi(o).eq(strings.lit("")) else strings.CAT(zi(o), zi(x))); return R(st)
    C(r"^boost::unit_test::lazy_ostream_impl<.*> boost::unit_test::operator<<", shift, "Boost.Test: lazy_ostream << text (shows it when evaluated)"); C(r"^boost::unit_test::lazy_ostream_impl<.*::~lazy_ostream_impl\(", nop, "Boost.Test: ~lazy_ostream_impl")
    C(r"^boost::test_tools::assertion_result::assertion_result\(bool\)", lambda ex, st, a, n: (ex.store_raw(st, a[0], 8, a[1]), R(st))[1], "Boost.Test: assertion_result"); C(r"^boost::test_tools::assertion_result::~assertion_result", nop, "Boost.Test: ~assertion_result")
    def report(ex, st, a, name):
        r = ex.load_raw(st, a[0], 8); tl = a[4]; st.emit("assertion", zb(r) if not isinstance(r, int) else bool(r), tl); st.emit("text", ex.load_raw(st, a[1], 8))
        if not isinstance(tl, int): raise Unsupported("Boost.Test tool level")
        u = st.copy(); ok = zb(r) if not isinstance(r, int) else z3.BoolVal(bool(r)); st.assume(ok); u.assume(z3.Not(ok)); return [("ret", True, st), ex.throw(u, None, None, tag=z3.Int("boost_failure")) if tl == 2 else ("ret", tl == 0, u)]
    C(r"^boost::test_tools::tt_detail::report_assertion\(", report, "Boost.Test: report_assertion (a failed requirement throws)")
    def level(ex, st, a, name): ex.store_raw(st, a[0], 1, 0); st.emit("log", a[2]); return R(st)
    C(r"^boost::unit_test::unit_test_log_t::operator\(\)\(boost::unit_test::log_level\)", level, "Boost.Test: log level"); C(r"^boost::unit_test::ut_detail::entry_value_collector::~", nop, "Boost.Test: entry_value_collector")
    def entry(ex, st, a, name): st.emit("text", ex.load_raw(st, a[1], 8)); return R(st, a[0])
    C(r"^boost::unit_test::ut_detail::entry_value_collector::operator<<\(boost::unit_test::lazy_ostream const&\)", entry, "Boost.Test: log entry")
    pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::{fn}\("), [s.b], st); lab = f"Boost.Test adapter {fn}"; ex.fstack.append(lab); cover(ex, pre, outs)
    for k, v, t in outs:
        if not ex.smt.feasible(t): continue
        ob = lambda nm, g: ex.oblige(t, nm, g, "contract"); ev = t.trace; ob("one entry, with its text", [e[0] for e in ev] == ["assertion" if fn == "bfail" else "log", "text"]); ob("leaves by Boost.Test's exception if and only if it reports a failure", k == ("throw" if fn == "bfail" else "ret"))
        if len(ev) == 2:
            ob("the message is shown", shows(s, ev[1][1]))
            if fn == "bfail": ob("a failed requirement", b_and(b_not(ev[0][1]), ev[0][2] == 2))
            else: ob("a log message", ev[0][1] == 2)
        if k == "throw": ob("the exception is Boost.Test's", is_sym(t.exc[2]) and t.exc[2].eq(z3.Int("boost_failure")))
        ob("leaves the message alone", b_and(*[i[1] if len(i) == 2 else lazy_eq(ex, pre, i) for i in frame_eq(ex, pre, t, pre, ignore=())]))
    ex.fstack.pop(); return ex
def p_catch_matcher(unit, w):
    """a Catch2 matcher used as a matcher: its verdict on this very value"""
    s = adapter(unit); ex, st = s.ex, s.st; V = z3.Function("catch2_verdict", I, B); mb, vb = ex.new_block(st, "matcher", "sym", 64), ex.new_block(st, "value", "undef", 4); x = z3.Int("the_value"); st.assume(z3.And(x >= -(1 << 31), x <= INT_MAX)); st.mem[vb] = {0: (4, x)}
    def match(ex, st, a, name):
        ex.oblige(st, "the matcher given decides", ex.peq(a[0], Ptr(mb)), "contract"); ex.oblige(st, "about the very value", ex.peq(a[1], Ptr(vb)), "contract"); u = st.copy(); b = z3.Bool("matcher_throws"); u.assume(b); st.assume(z3.Not(b)); return [("ret", V(zi(ex.load_raw(st, a[1], 4))), st), ex.throw(u, None, None, tag=z3.Int("matcher_exc"))]
    ex.contract(r"^vu::C(New|Old)::match\(", match, "opaque Catch2 matcher (may throw)")
    pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::cm_{w}\("), [Ptr(mb), Ptr(vb)], st); b = z3.Bool("matcher_throws"); sp = pre.copy(); sp.exc = (None, None, z3.Int("matcher_exc")); sp.uncaught = add(sp.uncaught, 1)
    check(ex, pre, outs, [(z3.Not(b), "ret", V(x), pre), (b, "throw", None, sp)], f"Catch2 matcher ({w})", exc_eq=lambda x, y: x.exc[2].eq(y.exc[2])); return ex
