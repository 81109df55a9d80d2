"""Contracts for the texts of reports (C26): mimic++/Reports.hpp printers, Reporter.hpp stringify_*.

A text is a term: every primitive output W appends to the text so far, so that the
final text determines every output, its place and the recorded values shown."""
import z3, re
from core import *
from prove import *
import exe, ll, models, strings
from models import R, nop
from spec_ctl import off_of
from spec_pol import fun
import spec_rep as RP
from spec_rep import Side, layout, control, blk, opt_loc, merge, STATES, TYPES
from spec_prt import targs, value, bare, W, FIELD, Fold, rng, literal
from spec_best import vindex
I, B = z3.IntSort(), z3.BoolSort()
MAXN = (1 << 31) - 1
TYNAME = z3.Function("type_name", I, I)
LOC = z3.Function("location", I, I, I)
def setup(unit):
    s = RP.setup(unit); layout(s); ex = s.ex; C = ex.contract; s.top = True
    def fmt(ex, st, a, name):
        ts = targs(ex.dem(name), r"std::format_to<")[1:]; t, n, q, vals = a[0], a[1], a[2], a[3:]
        if isinstance(n, Ptr): raise Unsupported("format string by address")
        ex.oblige(st, "as many values as arguments", len(ts) == len(vals), "contract")
        return R(st, rng(st, W(strings.bytes_at(ex, st, q, n), t, *[val(ex, st, x, v) for x, v in zip(ts, vals)])))
    C(r"(^| )std::format_to<vu::Out", fmt, "std::format_to (text is a function of format string and arguments, appended at the output position; no exception)")
    def nested(ex, st, a, name):
        ty = bare(targs(ex.dem(name), r"::operator\(\)<")[1])
        if ty == "std::source_location": return R(st, rng(st, LOC(a[1], locid(ex, st, a[2]))))
        return ex.run(name, a, st, contract=False)
    C(r"^(vu::Out )?mimicpp::detail::PrintFn::operator\(\)<vu::Out, ", nested, "print of a source location (proved separately: C25)", trusted=False)
    def tname(ex, st, a, name):
        p = ex.load(st, a[0], ll.PTR)
        if not (isinstance(p, Ptr) and p.base is TYPES): raise Unsupported("type_index")
        t = TYNAME(RP.SAME(zi(p.idx))); return R(st, strings.text_ptr(t))
    C(r"^std::type_index::name\(\) const", tname, "std::type_index::name (a function of the type)")
    s.out = z3.Int("text_so_far"); return s
def val(ex, st, ty, v):
    x = value(ex, st, ty, v)
    if isinstance(x, Ptr): raise Unsupported("formatted object " + ty)
    return x
def locid(ex, st, p):
    q = ex.load(st, p, ll.PTR)
    if q is NULL or exe.veq(q, NULL): return z3.Int("location:default")
    if isinstance(q, Ptr) and isinstance(q.base, Block): return z3.Int("location:" + q.base.name)
    raise Unsupported("location")
def times(t, c, lo, hi):
    verb = lambda t, v: z3.If(v == 0, W("never", t), z3.If(v == 1, W("once", t), z3.If(v == 2, W("twice", t), W("{} times", t, v))))
    exact = verb(W("exactly ", W(" - ", verb(W("matched ", t), c))), hi); between = W("between {} and {} times", W(" - ", verb(W("matched ", t), c)), lo, hi)
    return z3.If(c == hi, W(")", verb(W("already saturated (matched ", t), c)), z3.If(lo <= c, W("accepts further matches (matched {} out of {} times)", t, c, hi), W(" is expected", z3.If(lo < hi, between, exact))))
def p_times(unit):
    s = setup(unit); ex, st = s.ex, s.st; ns = z3.Ints("current min max")
    for x in ns: st.assume(z3.And(x >= 0, x < 1 << 62))
    pre = st.copy(); outs = ex.run(unit.fn(r"^vu::times_text\("), [s.out, *ns], st); c, lo, hi = ns
    check(ex, pre, outs, [(True, "ret", times(s.out, c, lo, hi), pre)], "print_times_state"); return ex
def state_text(t, c):
    kind, (lo, hi, n), vs = c; r = times(t, n, lo, hi); m = [v[1] for v in vs]
    if kind == "app": return z3.If(m[0] > 0, W(",\n\tand is the current element of {} sequence(s).", r, m[0]), r)
    if kind == "sat": return z3.If(m[0] > 0, W(",\n\tand is part of {} sequence(s).", r, m[0]), r)
    return W(",\n\tbut is not the current element of {} sequence(s) ({} total).", r, m[1], m[0] + m[1])
def p_state(unit, kind):
    s = setup(unit); ex, st = s.ex, s.st; x = Side(s, "state"); c = control(s, x, 0, kind); cls = STATES[kind][0]
    for v in c[1]: st.assume(v >= 0)
    b = blk(s, x, rf"mimicpp::{cls}"); st.mem[b] = {o: v for o, v in x.d.items() if o != vindex(unit, cls)[0] or not isinstance(v[1], int)}
    pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::{kind}_text\("), [s.out, Ptr(b)], st)
    check(ex, pre, outs, [(True, "ret", state_text(s.out, c), pre)], f"control_state_printer({kind})"); return ex
def p_call(unit):
    first = None
    for l in ("set", "default"):
        s = setup(unit); O = s.O; ex, st = s.ex, s.st; x = Side(s, "report"); h = z3.Int("return_type"); x.d[O("c_ret")] = (8, Ptr(TYPES, 0, h)); ar = unit.layout.find(r"mimicpp::CallReport::Arg")
        f, n = x.vec(O("c_args"), "args", ar.size, {O("a_type"): (8, ("ptr", TYPES)), O("a_text"): (32, ("ghost", "string"))}); st.assume(n <= MAXN); x.loc_at(O("c_loc"), l); cat, con = [x.int(O(c), c, 0, 255 if z == 1 else (1 << 31) - 1, z) for c, z in (("c_cat", RP.enum_size(unit, "fromCategory")), ("c_const", RP.enum_size(unit, "fromConstness")))]
        T, X = ex.fam_arr(st, f, O("a_type")), ex.fam_arr(st, f, O("a_text")); b = blk(s, x, r"mimicpp::CallReport")
        head = W("constness: {}\nvalue category: {}\nreturn type: {}\n", W("\n", LOC(W("call from ", s.out), locid(ex, st, Ptr(b, O("c_loc"))))), con, cat, TYNAME(RP.SAME(h)))
        F = Fold(s, "args_text", W("args:\n", head), lambda t, j: W("\targ[{}]: {{\n\t\ttype: {},\n\t\tvalue: {}\n\t}},\n", t, j, TYNAME(RP.SAME(T[j])), X[j]))
        pre = st.copy(); outs = ex.run(unit.fn(r"^vu::call_text\("), [s.out, Ptr(b)], st); check(ex, pre, outs, [(n == 0, "ret", head, pre), (n > 0, "ret", F(n), pre)], f"text of a call report, location {l}"); first = merge(first, ex)
    return first
def install_filter(s, fam):
    """std::views::filter: its elements are exactly those of the viewed vector the predicate keeps, in order (trusted).
    The real predicate is executed on an arbitrary element."""
    ex = s.ex; C = ex.contract; s.kept = {}; FV = r"std::ranges::filter_view<std::ranges::ref_view<std::vector<.*"
    def begin(ex, st, a, name):
        v = a[-1]; q = ex.load(st, v, ll.PTR); vec = q if isinstance(q.base, Block) else None
        if vec is None: raise Unsupported("viewed range")
        b, e = ex.load(st, vec, ll.PTR), ex.load_raw(st, ex.padd(vec, 8), 8)
        if not (isinstance(b, Ptr) and isinstance(b.base, Family) and exe.veq(b.idx, 0) and isinstance(e, Ptr) and e.base is b.base): raise Unsupported("viewed range")
        view(st, b.base, e.idx, name); F = s.kept[b.base]; return R(st, result(ex, st, a, F, 0))
    def result(ex, st, a, F, k):
        p = Ptr(F.fam, 0, k)
        if len(a) > 1: ex.store_raw(st, a[0], 8, p); ex.store_raw(st, ex.padd(a[0], 8), 8, a[-1]); return None
        return [p, a[-1]]
    def view(st, f, n, name):
        i = z3.Int("at"); pr = pred(name); u = st.copy(); u.assume(z3.And(i >= 0, i < zi(n))); o = ex.run(pr, [Ptr(Region("closure")), Ptr(f, 0, i)], u)
        if len(o) != 1 or o[0][0] != "ret": raise Unsupported("predicate of the filter")
        keep = zb(o[0][1] if isbool(o[0][1]) else b_not(eq_int(o[0][1], 0))); new = f not in s.kept; K = s.kept.setdefault(f, models_obj())
        if new: K.fam = Family(f.name + " kept", 8, {}); K.of = f; K.n = z3.Int(f.name + ".kept"); K.at = z3.Function(f.name + ".kept_at", I, I); K.inv = z3.Function(f.name + ".kept_as", I, I)
        K.keep = lambda j: z3.substitute(keep, (i, zi(j))); m = K.n; j = z3.Int("j"); l = z3.Int("l")
        st.assume(z3.And(m >= 0, m <= zi(n))); st.know(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(K.at(j) >= 0, K.at(j) < zi(n), K.keep(K.at(j)))), patterns=[K.at(j)])); st.know(z3.ForAll([j, l], z3.Implies(z3.And(0 <= j, j < l, l < m), K.at(j) < K.at(l)), patterns=[z3.MultiPattern(K.at(j), K.at(l))]))
        st.know(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(n), K.keep(j)), z3.And(K.inv(j) >= 0, K.inv(j) < m, K.at(K.inv(j)) == j)), patterns=[K.inv(j)])); st.flen[K.fam] = m; s.on_view(st, K)
    def pred(name):
        d = ex.dem(name); c = []
        for f in s.unit.mod.funcs:
            g = ex.dem(f); i = g.find("::operator()<std::optional<std::__cxx11::basic_string")
            if i > 0 and "vu::Out mimicpp::detail::Printer<mimicpp::ExpectationReport>::print<vu::Out>" in g[:i] and "'lambda" in g[:i] and not re.search(r"std::(ranges|__)|reference_wrapper", g[:i].split("Printer<mimicpp::ExpectationReport>")[0]):
                j = g.find("vu::Out mimicpp::"); k = g[j:i]
                if k in d: c.append(f)
        if len(c) != 1: raise Unsupported(f"predicate of the filter ({len(c)} candidates)")
        return c[0]
    def end(ex, st, a, name):
        f = next((k for k in s.kept.values()), None)
        if f is None: raise Unsupported("end of a filter")
        return R(st, result(ex, st, a, f, f.n))
    def deref(ex, st, a, name):
        p = ex.load(st, a[0], ll.PTR); K = next((k for k in s.kept.values() if k.fam is p.base), None)
        if K is None: raise Unsupported("iterator of a filter")
        ex.oblige(st, "element of the filtered range", z3.And(zi(p.idx) >= 0, zi(p.idx) < K.n)); i = K.at(zi(p.idx)); return R(st, Ptr(K.of, 0, i))
    def inc(ex, st, a, name): p = ex.load(st, a[0], ll.PTR); ex.store_raw(st, a[0], 8, Ptr(p.base, 0, simp(zi(p.idx) + 1))); return R(st, a[0])
    def eq(ex, st, a, name): p, q = ex.load(st, a[0], ll.PTR), ex.load(st, a[1], ll.PTR); return R(st, ex.peq(p, q))
    T = "std::views::filter (the elements the predicate keeps, in order)"
    C(rf"^{FV}>::begin\(\)", begin, T); C(rf"^{FV}>::end\(\)", end, T); C(rf"^{FV}>::_Iterator::operator\*\(\)", deref, T); C(rf"^{FV}>::_Iterator::operator\+\+\(\)", inc, T); C(r"^(bool )?std::ranges::operator==\(std::ranges::filter_view<.*::_Iterator const&", eq, T)
class models_obj: pass
def opt_locs(s, x, o, l, head, tail_of):
    """text of an optional location"""
    return None
def p_exp(unit):
    first = None
    for l in ("none", "set", "default"):
        s = setup(unit); O = s.O; ex, st = s.ex, s.st; x = Side(s, "report"); opt_loc(x, O("e_loc"), l); hf, tf = x.opt_text(O("e_fin"), "finalizer"); ht, tt = x.opt_text(O("e_times"), "times"); f, n = x.vec(O("e_desc"), "descriptions", s.osz, {s.os[0]: (32, ("ghost", "string")), s.os[1]: (1, "bool")})
        H, X = ex.fam_arr(st, f, s.os[1]), ex.fam_arr(st, f, s.os[0]); b = blk(s, x, r"mimicpp::ExpectationReport"); install_filter(s, f); t = W("Expectation report:\n", s.out); i, j = z3.Ints("at j")
        if l != "none": t = W("\n", LOC(W("from: ", t), locid(ex, st, Ptr(b, O("e_loc") + off_of(ex, unit, "vu::ol_val")))))
        t1 = z3.If(ht, W("times: {}\n", t, tt), t); F = Fold(s, "descriptions_text", W("expects:\n", t1), lambda t, j: z3.If(H[j], W("\t{},\n", t, X[j]), t))
        def on_view(st, k, j=j):
            # between two kept elements nothing is shown: F does not change (induction over the elements in between)
            u = st.copy(); q, lo, t0 = z3.Ints("kept_q from_i from"); u.assume(z3.And(q >= -1, q < k.n)); A = z3.If(q == -1, 0, k.at(q) + 1); Z = z3.If(q + 1 == k.n, zi(n), k.at(q + 1)); u.assume(z3.And(A <= lo, lo < Z, F(lo, t0) == F(A, t0))); u.know(k.inv(lo) == k.inv(lo))
            ex.oblige(u, "texts of left out elements", F(lo + 1, t0) == F(A, t0), "contract")
            st.know(k.at(k.n) == zi(n)); st.know(z3.ForAll([t0], F(k.at(0), t0) == F(0, t0), patterns=[F(k.at(0), t0)])); st.know(z3.ForAll([t0, j], z3.Implies(z3.And(j >= 0, j < k.n), F(k.at(j + 1), t0) == F(k.at(j) + 1, t0)), patterns=[F(k.at(j), t0)]))
            ex.candidates.append(lambda ex, st, acc, q, loc: [acc.term(q) == F(k.at(zi(q)), acc.raw(acc.v0))] if acc.kind == "int" else [])
        s.on_view = on_view
        some = z3.Exists([i], z3.And(i >= 0, i < n, H[i])); end = lambda t: z3.If(hf, W("finally: {}\n", t, tf), t)
        pre = st.copy(); outs = ex.run(unit.fn(r"^vu::exp_text\("), [s.out, Ptr(b)], st); check(ex, pre, outs, [(z3.Not(some), "ret", end(t1), pre), (some, "ret", end(F(n)), pre)], f"text of an expectation report, location {l}"); first = merge(first, ex)
    return first
CTL = z3.Function("control_state", I, I, I)
def string_lists(s):
    """local std::vector<std::string>: growable storage, growth never fails"""
    ex = s.ex; ex.partial = True            # the candidates say all there is to know about the lists
    def dflt(ex, st, a, name):
        f = Family("list" + str(len(st.fam)), 32, {0: (32, ("ghost", "string"))}); f.tag = "strings"; f.local = True; ex.fam_arr(st, f, 0)
        for o in (0, 8): ex.store_raw(st, ex.padd(a[0], o), 8, Ptr(f, 0, 0))
        ex.store_raw(st, ex.padd(a[0], 16), 8, Ptr(Region("cap"))); return R(st)
    ex.contract(r"^std::_Vector_base<std::__cxx11::basic_string<char, .*>::_Vector_impl_data::_Vector_impl_data\(\)", dflt, "std::vector storage: capacity unbounded, growth never fails"); ex.contract(r"^std::vector<std::__cxx11::basic_string<char, .*>::reserve\(", nop, "std::vector storage: capacity unbounded, growth never fails")
class Listed:
    """the descriptions of the policies that satisfy take, in order: how many among the first j (C), the i-th of them (E), and their text below a heading"""
    def __init__(l, s, name, n, take, X):
        l.s = s; l.n = n; l.take = take; l.X = X; l.C, l.E, l.name = z3.Function(name + "_count", I, I), z3.Function(name + "_nth", I, I), name; j, i = z3.Ints("j i"); st = s.st; C, E = l.C, l.E
        st.know(C(0) == 0); st.know(z3.ForAll([j], z3.Implies(j >= 0, C(j + 1) == C(j) + z3.If(take(j), 1, 0)), patterns=[C(j + 1)])); st.know(z3.ForAll([j], z3.Implies(j >= 0, z3.And(C(j) >= 0, C(j) <= j)), patterns=[C(j)]))
        st.know(z3.ForAll([j], z3.Implies(z3.And(j >= 0, take(j)), E(C(j)) == X[j]), patterns=[C(j)]))
        def cand(ex, st, acc, k, loc):
            if isinstance(acc.kind, tuple) and acc.kind[0] == "ptr" and getattr(acc.kind[1], "tag", "") == "strings":
                v0 = acc.raw(acc.v0); return [] if v0 is None else [acc.term(k) == v0 + C(k), acc.term(k) >= v0]
            if acc.kind == "arr" and loc[0] == "f" and getattr(loc[1], "tag", "") == "strings": i = z3.Int("i"); return [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < C(k)), acc.term(k)[i] == E(i)))]
            return []
        s.ex.candidates.append(cand)
    def text(l, heading, t, line):
        """t, followed by heading and one line for each (nothing if there is none)"""
        s = l.s; ex = s.ex; t = zi(t); t1 = W(heading, t); FL = Fold(s, l.name + "_listed", t1, lambda x, j: W(line, x, l.E(j))); G = Fold(s, l.name + "_text", t1, lambda x, j: z3.If(l.take(j), W(line, x, l.X[j]), x)); u = s.st.copy(); q, t0 = z3.Ints("upto from"); u.assume(z3.And(q >= 0, q < l.n, FL(l.C(q), t0) == G(q, t0)))
        ex.oblige(u, "text of a list (induction)", FL(l.C(q + 1), t0) == G(q + 1, t0), "contract"); s.st.know(z3.ForAll([t0], FL(l.C(l.n), t0) == G(l.n, t0), patterns=[FL(l.C(l.n), t0)])); return z3.If(l.C(l.n) == 0, t, G(l.n))
def p_match(unit, kind):
    first = None; er = unit.layout.find(r"mimicpp::MatchReport::Expectation"); om, ox = er.off("isMatching"), er.off("description")
    for l in ("none", "set", "default"):
        s = setup(unit); O = s.O; ex, st = s.ex, s.st; x = Side(s, "report"); opt_loc(x, O("m_loc"), l); x.opt_text(O("m_fin"), "finalizer"); c = control(s, x, O("m_ctl"), kind); f, n = x.vec(O("m_exp"), "expectations", er.size, {om: (1, "bool"), ox + s.os[0]: (32, ("ghost", "string")), ox + s.os[1]: (1, "bool")})
        M, H, X = [ex.fam_arr(st, f, o) for o in (om, ox + s.os[1], ox + s.os[0])]; b = blk(s, x, r"mimicpp::MatchReport"); string_lists(s); cls = STATES[kind][0]; i = z3.Int("at")
        def state(ex, st, a, name):
            if not re.search(rf"mimicpp::{cls} const&", ex.dem(name)): raise Unsupported("printed control state")
            ex.oblige(st, "the report's control state is printed", ex.peq(a[2], Ptr(b, O("m_ctl"))), "contract"); return R(st, rng(st, CTL(zi(a[1]), z3.Int("report.control"))))
        ex.contract(r"^vu::Out mimicpp::detail::control_state_printer::operator\(\)<vu::Out>", state, "control_state_printer (proved separately)", trusted=False)
        mat, unm = [Listed(s, nm, n, tk, X) for nm, tk in (("passed", lambda j: z3.And(H[j], M[j])), ("failed", lambda j: z3.And(H[j], z3.Not(M[j]))))]
        def body(t):
            if l != "none": t = W("\n", LOC(W("from: ", t), locid(ex, st, Ptr(b, O("m_loc") + off_of(ex, unit, "vu::ol_val")))))
            return t
        all_ = z3.Not(z3.Exists([i], z3.And(i >= 0, i < n, z3.Not(M[i]))))
        hd = z3.If(all_, W("Matched expectation: {{\n", s.out) if kind == "app" else W("\n", CTL(W("Inapplicable, but otherwise matched expectation: {{\nreason: ", s.out), z3.Int("report.control"))), W("Unmatched expectation: {{\n", s.out))
        t = unm.text("failed:\n", body(hd), "\t{},\n"); t = mat.text("passed:\n", t, "\t{},\n")
        pre = st.copy(); outs = ex.run(unit.fn(r"^vu::match_text\("), [s.out, Ptr(b)], st); check(ex, pre, outs, [(True, "ret", W("}}\n", t), pre)], f"text of a match report, {kind}, location {l}"); first = merge(first, ex)
    return first
def install_stream(ex):
    """std::ostringstream: its text so far; everything written is appended to it"""
    C = ex.contract
    def get(st, q):
        g = ex.load_raw(st, q, 8)
        if not (isinstance(q.base, Block) and getattr(q.base, "stream", False)) or not isnum(g): raise Unsupported("stream")
        return g
    def ctor(ex, st, a, name):
        a[0].base.stream = True; ex.store_raw(st, a[0], 8, 0); return R(st)
    def put(st, q, t): ex.store_raw(st, q, 8, rng(st, t))
    C(r"^std::__cxx11::basic_ostringstream<.*>::basic_ostringstream\(\)", ctor, "std::ostringstream()"); C(r"^std::__cxx11::basic_ostringstream<.*>::~basic_ostringstream\(\)", nop, "std::ostringstream destructor")
    C(r"^std::ostreambuf_iterator<.*>::ostreambuf_iterator\((std::basic_ostream|std::ostream)", lambda ex, st, a, n: (ex.store_raw(st, a[0], 8, a[1]), ex.store_raw(st, ex.padd(a[0], 8), 1, 0), R(st))[2], "std::ostreambuf_iterator(stream)")
    def shift(ex, st, a, name):
        x = strings.text_of(a[1]); t = get(st, a[0]); put(st, a[0], W(literal(ex, st, a[1]).replace("{", "{{").replace("}", "}}"), t) if x is None else FIELD(zi(t), zi(x))); return R(st, a[0])
    C(r"^std::basic_ostream<char, .*>& std::operator<<<std::char_traits<char>>\(std::basic_ostream<.*>&, char const\*\)", shift, "std::ostream << text (appends it; no exception)")
    def it(st, a):
        if isinstance(a[0], Ptr) and getattr(a[0].base, "stream", False): return a[0], list(a[2:])
        q = ex.load(st, a[0], ll.PTR); return q, list(a[1:])
    def fmt(ex, st, a, name):
        ts = targs(ex.dem(name), r"std::format_to<")[1:]; q, r = it(st, a); n, f, vals = r[0], r[1], r[2:]
        ex.oblige(st, "as many values as arguments", len(ts) == len(vals), "contract"); put(st, q, W(strings.bytes_at(ex, st, f, n), get(st, q), *[val(ex, st, x, v) for x, v in zip(ts, vals)])); return R(st, [q, 0])
    C(r"(^| )std::format_to<std::ostreambuf_iterator<", fmt, "std::format_to (text is a function of format string and arguments, appended to the stream; no exception)")
    def text(ex, st, a, name): strings.put(ex, st, a[0], get(st, a[1])); return R(st)
    C(r"^std::__cxx11::basic_ostringstream<.*>::str\(\)", text, "std::ostringstream::str"); return get, put, it
REP = {k: z3.Function(f"text of a {k}", I, I, I) for k in ("CallReport", "ExpectationReport", "MatchReport")}
def p_msg(unit, which):
    """the message of a failure: a fresh stream, the parts in order, the text of that stream"""
    s = setup(unit); ex, st = s.ex, s.st; C = ex.contract; ids = {}
    get, put, it = install_stream(ex)
    def nested(ex, st, a, name):
        ty = bare(targs(ex.dem(name), r"::operator\(\)<")[1]).replace("mimicpp::", ""); q, r = it(st, a[1:])
        if ty not in REP: raise Unsupported("printed " + ty)
        put(st, q, REP[ty](zi(get(st, q)), rid(ex, st, r[0]))); return R(st, [q, 0])
    def rid(ex, st, p):
        if p.base in ids: return ids[p.base]
        if isinstance(p.base, Family) and p.base is fam: ex.oblige(st, "an element of the given reports", z3.And(zi(p.idx) >= 0, zi(p.idx) < n), "contract"); return ELEM(zi(p.idx))
        raise Unsupported("printed report")
    C(r"^(\S+ )*mimicpp::detail::PrintFn::operator\(\)<std::ostreambuf_iterator<", nested, "print of a report (proved separately for an arbitrary output iterator)", trusted=False)
    def rep(nm, cls): b = ex.new_block(st, nm, "sym", unit.layout.find(rf"mimicpp::{cls}").size); ids[b] = z3.Int(nm); return Ptr(b), z3.Int(nm)
    call, cid = rep("call", "CallReport"); exp, eid = rep("expectation", "ExpectationReport"); one, oid = rep("match", "MatchReport"); sz = unit.layout.find(r"mimicpp::MatchReport").size; fam = Family("reports", sz, {}); n = z3.Int("reports.size"); st.flen[fam] = n; st.assume(z3.And(n >= 0, n <= MAXN)); ELEM = z3.Function("report", I, I); E0 = z3.IntVal(0); X = REP
    def ending(t): return W("\n", t)
    if which in ("no", "inapp"):
        head = {"no": "No match for ", "inapp": "No applicable match for "}[which]; t = W("\n", X["CallReport"](W(head, E0), cid)); step = lambda t, j: W("\n", X["MatchReport"](t, ELEM(j)))
        if which == "no": F = Fold(s, "reports_text", W("{} available expectation(s):\n", t, n), step); want = [(n == 0, W("No expectations available.\n", t)), (n > 0, F(n))]
        else: F = Fold(s, "reports_text", W("Tested expectations:\n", t), step); want = [(n == 0, F(0)), (n > 0, F(n))]
        args = [call, Ptr(fam, 0, 0), n]
    elif which == "full": want = [(True, W("\n", X["MatchReport"](W("\n", X["CallReport"](W("Found match for ", E0), cid)), oid)))]; args = [call, one]
    elif which == "unful": want = [(True, W("\n", X["ExpectationReport"](W("Unfulfilled expectation:\n", E0), eid)))]; args = [exp]
    else:
        std = z3.Bool("exception_is_a_std_exception"); what = z3.Int("what"); xp = Ptr(ex.new_block(st, "exception_ptr", "undef", 8)); held = Ptr(Region("held exception")); st.mem[xp.base] = {0: (8, held)}; vt = Region("vtable of the exception"); xb = ex.new_block(st, "exception object", "undef", 16)
        slot = Region("virtual function"); slot.vcall = lambda ex, st, t, a: (ex.oblige(st, "what() of the exception thrown", ex.peq(a[0], Ptr(xb)), "contract"), R(st, strings.text_ptr(what)))[1]
        off = ll_vslot(unit); vb = ex.new_block(st, "vtable", "undef", 40); st.mem[vb] = {o: (8, Ptr(slot) if o == off else Ptr(Region("other virtual function"))) for o in (0, 8, 16)}; st.mem[xb] = {0: (8, Ptr(vb))}
        def rethrow(ex, st, a, name):
            ex.oblige(st, "the exception given is rethrown", ex.peq(ex.load(st, a[0], ll.PTR), held), "contract"); u = st.copy(); u.assume(std); st.assume(z3.Not(std)); return [ex.throw(u, "_ZTISt9exception", Ptr(xb)), ex.throw(st, "_ZTIi", None)]
        C(r"^std::rethrow_exception\(", rethrow, "std::rethrow_exception (throws the exception held)")
        C(r"^std::__exception_ptr::exception_ptr::_M_(addref|release)\(\)", nop, "reference count of an exception_ptr")
        t = W("Unhandled exception: ", E0); rest = lambda t: W("\n", X["CallReport"](W("For ", W("\n", X["ExpectationReport"](W("while checking expectation:\n", t), eid))), cid))
        want = [(std, rest(W("what: {}\n", t, what))), (z3.Not(std), rest(W("Unknown exception type.\n", t)))]; args = [call, exp, xp]
    b = ex.new_block(st, "result", "undef", 32); pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::s_{which}(\(|\[)"), [Ptr(b), *args], st)
    def post(t, t2, ob):
        for g, w in want: ob("the message is the text specified", z3.Implies(zb(g), zi(strings.get(ex, t, Ptr(b))) == w))
    check(ex, pre, outs, [(True, "ret", None, pre)], f"stringify {which}", ignore=(b,), post=post); return ex
def ll_vslot(unit): return 16           # Itanium ABI: two destructors, then what()
