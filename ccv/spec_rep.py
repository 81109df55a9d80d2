"""Contracts for mimic++/Reports.hpp (C16): equality of reports, construction of call reports."""
import z3, re
from core import *
from prove import *
import exe, ll, strings
from models import R, nop
from spec_seq import new, INT_MAX
from spec_ctl import off_of
from spec_pol import opaque, ident, obj, S, fun
from spec_best import vindex
I, B = z3.IntSort(), z3.BoolSort()
MAXN = 1 << 50
TYPES = Family("type_info", None, {})
SAME = z3.Function("type", I, I)
def setup(unit):
    ex, st = new(unit); strings.install_strings(ex); s = S(); s.ex = ex; s.st = st; s.unit = unit; s.n = 0
    def tid(p):
        if isinstance(p, Ptr) and p.base is TYPES: return SAME(zi(p.idx))
        raise Unsupported("type_info " + repr(p))
    ex.contract(r"^std::type_info::operator==\(std::type_info const&\) const", lambda ex, st, a, n: R(st, simp(tid(a[0]) == tid(a[1]))), "std::type_info::operator== (an equivalence on types)")
    def smem(ex, st, a, name):
        """memcmp of two integer arrays"""
        p, q, n = a
        if all(isinstance(x, Ptr) and isinstance(x.base, Family) and x.base.stride == 8 for x in (p, q)):
            m = div_exact(n, 8)
            if m is None: raise Unsupported("memcmp of part of an element")
            for x in (p, q): ex.oblige(st, "memcmp stays inside the array", z3.Or(zi(m) == 0, z3.And(zi(m) >= 0, zi(x.idx) >= 0, zi(add(x.idx, m)) <= zi(st.flen[x.base]))))
            i = z3.Int("i_cmp"); A, C = ex.fam_arr(st, p.base, 0), ex.fam_arr(st, q.base, 0); u = st.copy(); w = ex.fresh("differs_at"); r = ex.fresh("memcmp")
            st.know(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(m)), A[zi(p.idx) + i] == C[zi(q.idx) + i])))
            u.assume(z3.And(w >= 0, w < zi(m), r != 0, r >= -(1 << 31), r < (1 << 31))); u.know(A[zi(p.idx) + w] != C[zi(q.idx) + w])
            return [("ret", 0, st), ("ret", r, u)]
        return strings.k_memcmp(ex, st, a, name)
    ex.contract(r"^memcmp$", smem, "memcmp (0 iff all bytes are equal)")
    return s
def qeq(n, m, *cols):
    i = z3.Int("i")
    return z3.And(n == m, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(*[c(i) for c in cols]))))
class Side:
    """one symbolic report; the same call on both sides gives comparable parts"""
    def __init__(s, c, name): s.c = c; s.ex = c.ex; s.st = c.st; s.n = name; s.d = {}
    def int(s, o, nm, lo=-(1 << 31), hi=INT_MAX, size=4): v = z3.Int(f"{s.n}.{nm}"); s.st.assume(z3.And(v >= lo, v <= hi)); s.d[o] = (size, v); return v
    def text(s, nm): t = z3.Int(f"{s.n}.{nm}"); s.st.assume(z3.And(strings.LEN(t) >= 0, strings.LEN(t) <= 1 << 40)); return t
    def loc_at(s, o, which):
        """a source location: set, or default constructed"""
        if which == "default": s.d[o] = (8, NULL); return None
        b = s.ex.new_block(s.st, f"{s.n}.location", "undef", 24); f, g = s.text("file"), s.text("function"); l, c = z3.Ints(f"{s.n}.line {s.n}.column")
        for x in (l, c): s.st.assume(z3.And(x >= -(1 << 31), x <= INT_MAX))
        s.st.mem[b] = {0: (8, strings.text_ptr(f)), 8: (8, strings.text_ptr(g)), 16: (4, l), 20: (4, c)}; s.d[o] = (8, Ptr(b)); return (f, g, l, c)
    def opt_text(s, o, nm):
        ov, oh = s.c.os; h = z3.Bool(f"{s.n}.{nm}.set"); t = z3.Int(f"{s.n}.{nm}"); s.d[o + ov] = (32, strings.G(t)); s.d[o + oh] = (1, h); return (h, t)
    def vec(s, o, nm, stride, fields):
        f = Family(f"{s.n}.{nm}", stride, fields); n = z3.Int(f"{s.n}.{nm}.size"); s.st.assume(z3.And(n >= 0, n <= MAXN)); s.st.flen[f] = n
        for k, (_, kd) in fields.items():
            if not (isinstance(kd, tuple) and kd[0] == "const"): s.ex.fam_arr(s.st, f, k)
        s.d[o] = (8, Ptr(f, 0, 0)); s.d[o + 8] = (8, Ptr(f, 0, n)); s.d[o + 16] = (8, Ptr(Region("capacity"))); return f, n
def EQT(x, y): return x == y            # equal terms are equal texts (std::string == is trusted)
def same_text(s, x, y):
    i = z3.Int("ch"); return z3.And(strings.LEN(x) == strings.LEN(y), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < strings.LEN(x)), strings.CH(x, i) == strings.CH(y, i))))
def empty(x): return strings.LEN(x) == 0
def loc_eq(s, a, b):
    if a is None and b is None: return True
    if a is None: a, b = b, a
    if b is None: return z3.And(empty(a[0]), empty(a[1]), a[2] == 0, a[3] == 0)
    return z3.And(same_text(s, a[0], b[0]), same_text(s, a[1], b[1]), a[2] == b[2], a[3] == b[3])
def opt_eq(a, b): return z3.And(a[0] == b[0], z3.Implies(a[0], a[1] == b[1]))
def merge(first, ex):
    if first is None: return ex
    first.obs += ex.obs; first.inlined |= ex.inlined; first.used.update(ex.used); first.loops_done += ex.loops_done if isinstance(ex.loops_done, list) else []
    return first
def layout(s):
    ex, unit = s.ex, s.unit; ov = off_of(ex, unit, "vu::os_val")
    s.os = (ov, 32 if ov == 0 else 0); s.osz = ex.run(unit.fn(r"^vu::os_size[\[(]"), [], State())[0][1]; s.O = lambda f: off_of(ex, unit, "vu::" + f)
def run(s, fn, a, b, eq, lab):
    """== answers eq, != the opposite; nothing is changed"""
    ex = s.ex; st = s.st
    for f, v in (("eq", eq), ("ne", b_not(eq))):
        if f == "ne" and fn == "ctl": continue
        pre = st.copy(); check(ex, pre, ex.run(s.unit.fn(rf"^vu::{f}_{fn}\("), [Ptr(a), Ptr(b)], st.copy()), [(True, "ret", v, pre)], f"{lab} ({'==' if f == 'eq' else '!='})")
def blk(s, x, cls): r = s.unit.layout.find(cls); b = s.ex.new_block(s.st, x.n, "undef", r.size); s.st.mem[b] = x.d; return b
def p_eq_call(unit):
    first = None
    for la in ("set", "default"):
        for lb in ("set", "default"):
            s = setup(unit); layout(s); O = s.O; P = []
            for nm, l in (("lhs", la), ("rhs", lb)):
                x = Side(s, nm); h = z3.Int(f"{nm}.return_type"); x.d[O("c_ret")] = (8, Ptr(TYPES, 0, h)); ar = s.unit.layout.find(r"mimicpp::CallReport::Arg")
                f, n = x.vec(O("c_args"), "args", ar.size, {O("a_type"): (8, ("ptr", TYPES)), O("a_text"): (32, ("ghost", "string"))})
                loc = x.loc_at(O("c_loc"), l); P.append((x, h, f, n, loc, [x.int(O(c), c, 0, 255 if z == 1 else INT_MAX, z) for c, z in (("c_cat", enum_size(unit, "fromCategory")), ("c_const", enum_size(unit, "fromConstness")))]))
            (x, h, f, n, loc, e), (y, h2, f2, n2, loc2, e2) = P; arr = lambda f, o: s.ex.fam_arr(s.st, f, O(o))
            T, T2, X, X2 = arr(f, "a_type"), arr(f2, "a_type"), arr(f, "a_text"), arr(f2, "a_text")
            eq = z3.And(SAME(h) == SAME(h2), qeq(n, n2, lambda i: SAME(T[i]) == SAME(T2[i]), lambda i: X[i] == X2[i]), zb(loc_eq(s, loc, loc2)), *[p == q for p, q in zip(e, e2)])
            run(s, "call", blk(s, x, r"mimicpp::CallReport"), blk(s, y, r"mimicpp::CallReport"), eq, f"CallReport, locations {la}/{lb}"); first = merge(first, s.ex)
    return first
def p_eq_info(unit, n):
    """call infos are equal if and only if category, constness and location are equal and every argument is the very same object"""
    first = None; nargs = n; cls = unit.layout.find({3: r"mimicpp::call::Info<(struct |class )?vu::A, .*>", 6: r"mimicpp::call::Info<(struct |class )?vu::B, .*>", 0: r"mimicpp::call::Info<void>"}[n])
    for la in ("set", "default"):
        for lb in ("set", "default"):
            s = setup(unit); layout(s); O = s.O; P = []; fams = [Family(f"arguments{k}", None, {}) for k in range(nargs)]; sz = lambda m, nx: min(4, nx - m)
            for nm, l in (("lhs", la), ("rhs", lb)):
                x = Side(s, nm); loc = x.loc_at(O(f"i{n}_loc"), l); cat, con = O(f"i{n}_cat"), O(f"i{n}_const"); w = min(4, abs(con - cat)); e = [x.int(o, c, 0, 255 if w == 1 else INT_MAX, w) for c, o in (("cat", cat), ("const", con))]; ids = []
                for k, f in enumerate(fams): h = z3.Int(f"{nm}.argument{k}"); x.d[O(f"i{n}_{k}")] = (8, Ptr(f, 0, h)); ids.append(h)
                b = s.ex.new_block(s.st, nm, "undef", cls.size); s.st.mem[b] = x.d; P.append((b, loc, e, ids))
            (a, l1, e1, i1), (b, l2, e2, i2) = P; run(s, f"info{n}", a, b, z3.And(zb(loc_eq(s, l1, l2)), *[p == q for p, q in zip(e1 + i1, e2 + i2)]), f"call info with {nargs} arguments, locations {la}/{lb}"); first = merge(first, s.ex)
    return first
def enum_size(unit, m):
    """the report's enumerators are ints unless the layout says otherwise"""
    r = unit.layout.find(r"mimicpp::CallReport"); ms = sorted(r.members()); o = r.off(m); nxt = [x for x, _ in ms if x > o]
    return min(4, (nxt[0] if nxt else r.size) - o)
def opt_loc(x, o, which):
    ov = off_of(x.ex, x.c.unit, "vu::ol_val"); oh = 8 if ov == 0 else 0; x.d[o + oh] = (1, which != "none")
    if which == "none": return "none"
    return x.loc_at(o + ov, which)
LOCS = ("none", "set", "default")
def oloc_eq(s, a, b):
    if a == "none" or b == "none": return a == b if isinstance(a, str) and isinstance(b, str) else False
    return loc_eq(s, a, b)
def p_eq_exp(unit):
    first = None
    for la in LOCS:
        for lb in LOCS:
            s = setup(unit); layout(s); O = s.O; P = []
            for nm, l in (("lhs", la), ("rhs", lb)):
                x = Side(s, nm); loc = opt_loc(x, O("e_loc"), l); a, b = x.opt_text(O("e_fin"), "finalizer"), x.opt_text(O("e_times"), "times")
                f, n = x.vec(O("e_desc"), "descriptions", s.osz, {s.os[0]: (32, ("ghost", "string")), s.os[1]: (1, "bool")}); P.append((x, loc, a, b, f, n))
            (x, l1, a1, b1, f1, n1), (y, l2, a2, b2, f2, n2) = P; H, H2, X, X2 = [s.ex.fam_arr(s.st, f, o) for o in (s.os[1], s.os[0]) for f in (f1, f2)]
            eq = z3.And(zb(oloc_eq(s, l1, l2)), opt_eq(a1, a2), opt_eq(b1, b2), qeq(n1, n2, lambda i: H[i] == H2[i], lambda i: z3.Implies(H[i], X[i] == X2[i])))
            run(s, "exp", blk(s, x, r"mimicpp::ExpectationReport"), blk(s, y, r"mimicpp::ExpectationReport"), eq, f"ExpectationReport, locations {la}/{lb}"); first = merge(first, s.ex)
    return first
STATES = dict(app=("state_applicable", "r"), ina=("state_inapplicable", "rt"), sat=("state_saturated", "t"))
def control(s, x, o, kind):
    """a control state; returns (kind, numbers, ratings, tags)"""
    O = s.O; cls, parts = STATES[kind]; oi, ix = vindex(s.unit, cls); x.d[o + oi] = (1, ix); nums = [x.int(o + O(f"{kind}_{m}"), f"{kind}.{m}") for m in ("min", "max", "count")]; vs = []
    rr = s.unit.layout.find(r"mimicpp::sequence::rating"); op, ot = rr.off("priority"), rr.off("tag")
    for p in parts:
        vs.append((*x.vec(o + O(f"{kind}_{p}"), f"{kind}.{'ratings' if p == 'r' else 'tags'}", rr.size if p == "r" else 8, {op: (4, "i32"), ot: (8, "i64")} if p == "r" else {0: (8, "i64")}), (op, ot) if p == "r" else (0,)))
    return kind, nums, vs
def ctl_eq(s, a, b):
    if a[0] != b[0]: return False
    cs = [p == q for p, q in zip(a[1], b[1])]
    for (f, n, os), (g, m, _) in zip(a[2], b[2]): cs.append(qeq(n, m, *[(lambda i, o=o: s.ex.fam_arr(s.st, f, o)[i] == s.ex.fam_arr(s.st, g, o)[i]) for o in os]))
    return z3.And(*cs)
def p_eq_ctl(unit):
    first = None
    for ka in STATES:
        for kb in STATES:
            s = setup(unit); layout(s); x, y = Side(s, "lhs"), Side(s, "rhs"); a, b = control(s, x, 0, ka), control(s, y, 0, kb); bs = []
            for z in (x, y): bb = s.ex.new_block(s.st, z.n, "undef", None); s.st.mem[bb] = z.d; bs.append(bb)
            run(s, "ctl", *bs, ctl_eq(s, a, b), f"control state {ka}/{kb}"); first = merge(first, s.ex)
    return first
def p_eq_match(unit):
    first = None
    cases = [(la, lb, "app", "app") for la in LOCS for lb in LOCS] + [("set", "set", ka, kb) for ka in STATES for kb in STATES if (ka, kb) != ("app", "app")]
    for la, lb, ka, kb in cases:
        s = setup(unit); layout(s); O = s.O; P = []; er = s.unit.layout.find(r"mimicpp::MatchReport::Expectation"); ox, om = O("x_desc"), O("x_match")
        for nm, l, k in (("lhs", la, ka), ("rhs", lb, kb)):
            x = Side(s, nm); loc = opt_loc(x, O("m_loc"), l); a = x.opt_text(O("m_fin"), "finalizer"); c = control(s, x, O("m_ctl"), k)
            f, n = x.vec(O("m_exp"), "expectations", er.size, {om: (1, "bool"), ox + s.os[0]: (32, ("ghost", "string")), ox + s.os[1]: (1, "bool")}); P.append((x, loc, a, c, f, n))
        (x, l1, a1, c1, f1, n1), (y, l2, a2, c2, f2, n2) = P; M, M2, H, H2, X, X2 = [s.ex.fam_arr(s.st, f, o) for o in (om, ox + s.os[1], ox + s.os[0]) for f in (f1, f2)]
        eq = z3.And(zb(oloc_eq(s, l1, l2)), opt_eq(a1, a2), zb(ctl_eq(s, c1, c2)), qeq(n1, n2, lambda i: M[i] == M2[i], lambda i: H[i] == H2[i], lambda i: z3.Implies(H[i], X[i] == X2[i])))
        run(s, "match", blk(s, x, r"mimicpp::MatchReport"), blk(s, y, r"mimicpp::MatchReport"), eq, f"MatchReport, locations {la}/{lb}, states {ka}/{kb}"); first = merge(first, s.ex)
    return first
def report_of(s, x, cls, loc, state):
    """a symbolic report; returns its block and the parts [(offset, size, under which flag)]"""
    O = s.O; ov, oh = s.os; opts = []
    if cls == "call":
        h = z3.Int(f"{x.n}.return_type"); x.d[O("c_ret")] = (8, Ptr(TYPES, 0, h)); ar = s.unit.layout.find(r"mimicpp::CallReport::Arg")
        x.vec(O("c_args"), "args", ar.size, {O("a_type"): (8, ("ptr", TYPES)), O("a_text"): (32, ("ghost", "string"))}); x.loc_at(O("c_loc"), "set")
        for c, z in (("c_cat", enum_size(s.unit, "fromCategory")), ("c_const", enum_size(s.unit, "fromConstness"))): x.int(O(c), c, 0, 255 if z == 1 else INT_MAX, z)
        return blk(s, x, r"mimicpp::CallReport"), opts
    if cls == "exp":
        opt_loc(x, O("e_loc"), loc)
        for m in ("e_fin", "e_times"): x.opt_text(O(m), m); opts.append(O(m))
        x.vec(O("e_desc"), "descriptions", s.osz, {ov: (32, ("ghost", "string")), oh: (1, "bool")}); return blk(s, x, r"mimicpp::ExpectationReport"), opts
    er = s.unit.layout.find(r"mimicpp::MatchReport::Expectation"); ox, om = O("x_desc"), O("x_match"); opt_loc(x, O("m_loc"), loc); x.opt_text(O("m_fin"), "finalizer"); opts.append(O("m_fin")); control(s, x, O("m_ctl"), state)
    x.vec(O("m_exp"), "expectations", er.size, {om: (1, "bool"), ox + ov: (32, ("ghost", "string")), ox + oh: (1, "bool")}); return blk(s, x, r"mimicpp::MatchReport"), opts
def p_move(unit, cls, how):
    """a report made from another one by move has all its parts, and the old one can still be destroyed"""
    first = None; cases = [("set", "app")] if cls == "call" else [(l, "app") for l in ("none", "set")] + ([("set", k) for k in ("ina", "sat")] if cls == "match" else [])
    for loc, state in cases:
        s = setup(unit); layout(s); ex, st = s.ex, s.st; x = Side(s, "source"); b, opts = report_of(s, x, cls, loc, state); parts = dict(x.d); ov, oh = s.os; texts = {o + ov: o + oh for o in opts}
        o = ex.new_block(st, "target", "undef", unit.layout.find(dict(call=r"mimicpp::CallReport", exp=r"mimicpp::ExpectationReport", match=r"mimicpp::MatchReport")[cls]).size); pre = st.copy()
        outs = ex.run(unit.fn(rf"^vu::{how}_{cls}\("), [Ptr(o), Ptr(b)], st); ex.fstack.append(f"{cls} report {'move' if how == 'mv' else 'copy'}, location {loc}, state {state}"); cover(ex, pre, outs)
        for k, v, t in outs:
            if not ex.smt.feasible(t): continue
            ob = lambda n, g: ex.oblige(t, n, g, "contract"); ob("returns", k == "ret"); ob("no other effects", len(t.trace) == len(pre.trace))
            for off, (sz, val) in sorted(parts.items()):
                if off in texts:
                    if ex.smt.entails(t, zb(parts[texts[off]][1])): ob(f"part at {off}", eq_int(strings.get(ex, t, Ptr(o, off)), val.t))
                    continue
                if isinstance(val, Ptr) and isinstance(val.base, Region) and val.base.name == "capacity": continue
                got = ex.load_raw(t, Ptr(o, off), sz) if not isbool(val) else ex.load(t, Ptr(o, off), ll.INT(1))
                ob(f"part at {off}", cell_eq(ex, t, got, t, val))
            for what, z in (("what is left of the source", b), ("the new report", o)):
                for k2, v2, t2 in ex.run(unit.fn(rf"^vu::kill_{cls}\("), [Ptr(z)], t.copy()): ex.oblige(t2, what + " can be destroyed", k2 == "ret", "contract")
        ex.fstack.pop(); first = merge(first, ex)
    return first
MAKES = dict(none=("void", ()), one=("int", (("A", "vu::A"),)), two=("void", (("B", "vu::B"), ("A", "vu::A"))), three=("A", (("A", "vu::A"), ("B", "vu::B"), ("A", "vu::A"))), six=("B", tuple((x, "vu::" + x) for x in "ABAABA")))
def p_make(unit, name):
    """make_call_report: every argument's type and printed state in order, and the call's circumstances"""
    s = setup(unit); ex, st = s.ex, s.st; layout(s); O = s.O; ex.force_unroll = True; ret, ps = MAKES[name]; args = []
    for c in ("A", "B"): opaque(ex, c)
    def prt(ex, st, a, n):
        m = re.search(r"operator\(\)<(vu::[AB]( const)?&?)>", ex.dem(n))
        if not m: raise Unsupported("printed type " + ex.dem(n)[:100])
        st.emit("print", a[2]); strings.put(ex, st, a[0], fun("printed", I, I)(ident(ex, st, a[2]))); return R(st)
    ex.contract(r"^std::__cxx11::basic_string<.*> mimicpp::detail::PrintFn::operator\(\)<", prt, "PrintFn (text is a function of the printed value; see C25)")
    refs = [obj(s, f"arg{i}") for i in range(len(ps))]; ib = ex.new_block(st, "info", "undef"); loc = Ptr(ex.new_block(st, "location", "undef", 24)); cat, con = z3.Ints("category constness")
    for x in (cat, con): st.assume(z3.And(x >= 0, x <= 127))
    st = ex.run(unit.fn(rf"^vu::{name}_info\("), [Ptr(ib), *[r[0] for r in refs], PInt(loc), cat, con], st)[0][2]; s.st = st
    out = ex.new_block(st, "report", "undef", unit.layout.find(r"mimicpp::CallReport").size); pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::{name}_make\("), [Ptr(out), Ptr(ib)], st)
    ty = lambda t: ex.run(unit.fn(rf"^vu::ty_{t}[\[(]"), [], State())[0][1]
    sp = pre.copy()
    def post(t, t2, ob):
        g = lambda o, w=ll.PTR: ex.load(t, Ptr(out, O(o)), w)
        ob("return type", cell_eq(ex, t, g("c_ret"), t, ty(ret))); ob("source location", cell_eq(ex, t, g("c_loc"), t, loc)); z = ll.INT(8 * enum_size(unit, "fromCategory"))
        ob("value category", cell_eq(ex, t, g("c_cat", z), t, cat)); ob("constness", cell_eq(ex, t, g("c_const", z), t, con))
        b = g("c_args"); e = ex.load(t, ex.padd(Ptr(out, O("c_args")), 8), ll.PTR); ar = unit.layout.find(r"mimicpp::CallReport::Arg")
        if not ps: ob("no arguments", cell_eq(ex, t, b, t, e)); return
        ob("as many arguments as the call has", isinstance(b, Ptr) and isinstance(e, Ptr) and b.base is e.base and isinstance(e.off, int) and e.off - b.off == ar.size * len(ps))
        for i, (p, _) in enumerate(ps):
            at = ex.padd(b, i * ar.size); ob(f"type of argument {i}", cell_eq(ex, t, ex.load(t, ex.padd(at, O("a_type")), ll.PTR), t, ty(p)))
            ob(f"state of argument {i}", eq_int(strings.get(ex, t, ex.padd(at, O("a_text"))), fun("printed", I, I)(refs[i][1])))
        for it in frame_eq(ex, pre, t, pre, ignore=(out, ib)): ob(f"the call's arguments are left as they were ({it[0]})", it[1] if len(it) == 2 else lazy_eq(ex, pre, it))
        pr = [x[1] for x in t.trace[len(pre.trace):]]; ob("every argument is printed once", len(pr) == len(ps))
    ex.fstack.append(f"make_call_report({name})"); cover(ex, pre, outs)
    for k, v, t in outs:
        if not ex.smt.feasible(t): continue
        ob = lambda n, g: ex.oblige(t, n, g, "contract"); ob("returns", k == "ret");
        if k == "ret": post(t, sp, ob)
        for it in frame_eq(ex, pre, t, sp, ignore=(out,)): ob(f"leaves {it[0]} alone", it[1] if len(it) == 2 else lazy_eq(ex, pre, it))
    ex.fstack.pop(); return ex
