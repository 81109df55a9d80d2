"""Contracts for the comparison matchers of mimic++/Matcher.hpp (C15) over opaque values."""
import z3, re
from core import *
from prove import *
import exe, ll, models, strings
from models import R, nop
from spec_seq import new, INT_MAX
from spec_pol import opaque, ident, fun, obj, tageq, TAG, S, make as mk_policy
I, B = z3.IntSort(), z3.BoolSort()
OPS = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
DUAL = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}
def REL(op): return fun("rel" + op, I, I, B)
def THR(op): return fun("throws" + op, I, I, B)
def k_vformat(ex, st, a, name):
    """std::vformat: the text is a function of the format text and the arguments' texts"""
    out, n, p, packed, store = a
    f = strings.view_of(ex, st, n, p); cnt = packed & 15; ts = []
    if isinstance(store, PInt): store = store.p
    for i in range(cnt):
        if (packed >> (4 + 5 * i)) & 31 != 11: raise Unsupported("std::vformat argument kind")
        ts.append(zi(strings.view(ex, st, ex.padd(store, 16 * i))))
    strings.put(ex, st, out, fun(f"vformat{cnt}", *([I] * (cnt + 2)))(zi(f), *ts)); return R(st)
def printed(ex, st, p, d):
    """the value PrintFn gets"""
    i = j = d.index("operator()<") + 11; dep = 1
    while dep: dep += {"<": 1, ">": -1}.get(d[j], 0); j += 1
    ty = strings.tmpl_args(d[i:j-1])[0]; ty = re.sub(r"( const)?&*$", "", ty)
    if ty in ("double", "float"): return exe.fpt(ex.load(st, p, ll.Ty(ty)))
    if ty == "unsigned int": return zi(ex.load(st, p, ll.INT(32)))
    if ty == "int": return zi(ex.load(st, p, ll.INT(32)))
    if ty == "vu::V": return ident(ex, st, p)
    if ty.startswith("std::__cxx11::basic_string<"): return zi(strings.get(ex, st, p))
    if ty.startswith("std::basic_string_view<"): return zi(strings.view(ex, st, p))
    if ty == "char const*":
        t = strings.text_of(ex.load(st, p, ll.PTR))
        if t is not None: return zi(t)
    return z3.Int("print_of_" + ty)
def setup(unit):
    ex, st = new(unit); strings.install_strings(ex); s = S(); s.ex = ex; s.st = st; s.unit = unit
    for c in ("V", "Pred", "PredM"): opaque(ex, c)
    for n, op in OPS.items():
        def rel(ex, st, a, name, op=op):
            x, r = ident(ex, st, a[0]), ident(ex, st, a[1]); t = THR(op)(x, r); u = st.copy(); u.assume(t); st.assume(z3.Not(t))
            return [("ret", REL(op)(x, r), st), ex.throw(u, None, None, tag=TAG)]
        ex.contract(rf"^vu::operator{re.escape(op)}\(vu::U const&, vu::V const&\)", rel, f"opaque user operator {op} (may throw)")
    def pred(ex, st, a, name):
        i, x = ident(ex, st, a[0]), ident(ex, st, a[1]); t = THR("predicate")(x, i); u = st.copy(); u.assume(t); st.assume(z3.Not(t)); st.emit("predicate", a[1])
        u.emit("predicate", a[1]); return [("ret", REL("predicate")(x, i), st), ex.throw(u, None, None, tag=TAG)]
    ex.contract(r"^vu::Pred(M)?::operator\(\)\(", pred, "opaque user predicate (may throw)")
    def prt(ex, st, a, name):
        d = ex.dem(name)
        v = printed(ex, st, a[2], d)
        strings.put(ex, st, a[0], fun("printed", I, I)(v)); return R(st)
    ex.contract(r"^std::__cxx11::basic_string<.*> mimicpp::detail::PrintFn::operator\(\)<", prt, "PrintFn (text is a function of the printed value)")
    ex.contract(r"^std::vformat\(", k_vformat, "std::vformat (text is a function of format text and arguments, no exception)")
    return s
def step(s, fn, dst, src, lab):
    ex = s.ex; pre = s.st.copy(); outs = ex.run(s.unit.fn(fn), [dst, src], s.st)
    ex.fstack.append(lab); cover(ex, pre, outs); live = [t for k, v, t in outs if ex.smt.feasible(t)]
    for k, v, t in outs: ex.oblige(t, "negation returns and calls no user function", k == "ret" and len(t.trace) == len(pre.trace), "contract")
    ex.fstack.pop()
    if len(live) != 1: raise Unsupported("construction forks")
    s.st = live[0]; s.steppre = pre
def desc(s, fn, m, lab):
    ex = s.ex; t0 = s.st.copy(); o = ex.new_block(t0, "text", "undef", 32); pre = t0.copy(); outs = ex.run(s.unit.fn(fn), [Ptr(o), m], t0)
    if len(outs) != 1 or outs[0][0] != "ret": raise Unsupported("describe forks")
    ex.fstack.append(lab)
    for it in frame_eq(ex, pre, outs[0][2], pre, ignore=(o,)): ex.oblige(outs[0][2], f"leaves {it[0]} alone", it[1] if len(it) == 2 else lazy_eq(ex, pre, it), "contract")
    ex.fstack.pop()
    return strings.get(ex, outs[0][2], Ptr(o))
def run_family(s, name, target, verdict, thr, trace=None, lv=False):
    """matches of the matcher, its negation (both ways) and double negation (both ways); returns the descriptions"""
    ex, unit = s.ex, s.unit; lab = f"{name}::"; d = {}
    def chk(fn, m, neg, what):
        pre = s.st.copy(); r = b_not(verdict) if neg else verdict; sp = pre.copy(); u = pre.copy()
        if trace: sp.emit(*trace); u.emit(*trace)
        u.exc = (None, None, TAG); u.uncaught = add(u.uncaught, 1)
        specs = [(True if thr is None else z3.Not(thr), "ret", r, sp)] + ([(thr, "throw", None, u)] if thr is not None else [])
        check(ex, pre, ex.run(unit.fn(rf"^vu::{name}_{fn}\("), [m, target], s.st.copy()), specs, lab + what, exc_eq=tageq)
    m = s.pol; chk("matches", m, False, "matches"); d["m"] = desc(s, rf"^vu::{name}_describe[\[(]", m, lab + "describe")
    for mv in ("", "m"):
        for mv2 in ("", "m"):
            s2 = S(); s2.__dict__.update(s.__dict__); s2.st = s.st.copy(); s_, st0 = s, s.st
            n = Ptr(ex.new_block(s2.st, "negated", "undef")); step(s2, rf"^vu::{name}_not{mv}\(", n, m, lab + f"operator!{'&&' if mv else ''}")
            if not mv:
                for it in frame_eq(ex, s2.steppre, s2.st, s2.steppre, ignore=(n.base,)): ex.oblige(s2.st, f"negation leaves {it[0]} alone", it[1] if len(it) == 2 else lazy_eq(ex, s2.steppre, it), "contract")
            s.st = s2.st; chk("nmatches", n, True, f"negated{mv} matches"); d.setdefault("n", desc(s, rf"^vu::{name}_ndescribe[\[(]", n, lab)); dn = desc(s, rf"^vu::{name}_ndescribe[\[(]", n, lab); ex.fstack.append(lab); ex.oblige(s.st, "description of the negation does not depend on how it was made", dn.eq(d["n"]), "contract"); ex.fstack.pop()
            q = Ptr(ex.new_block(s2.st, "twice", "undef")); s.st = st0; step(s2, rf"^vu::{name}_notnot{mv2}\(", q, n, lab + "operator! twice")
            s.st = s2.st; chk("nnmatches", q, False, f"negated twice{mv}{mv2} matches"); dq = desc(s, rf"^vu::{name}_nndescribe[\[(]", q, lab); s.st = st0
            ex.fstack.append(lab); ex.oblige(s2.st, "negating twice restores the description", dq.eq(d["m"]), "contract"); ex.fstack.pop()
    return d
def fmt_of(t): return t.children()[0]
def p_rel(unit, suffix="", prefix=""):
    suffix = "" if suffix == "-" else suffix; prefix = "" if prefix == "-" else prefix
    first = None; D = {}
    for n, op in OPS.items():
        s = setup(unit); ex = s.ex; name = prefix + n + suffix
        if prefix in ("d", "f"):
            def num(nm, n): b = ex.new_block(s.st, nm, "undef", n); v = z3.Int("fp_" + nm); s.st.mem[b] = {0: (n, Fp(v))}; return Ptr(b), v
            u, ui = num("target", 4 if prefix == "f" else 8); v, vi = num("reference", 8); both = z3.Not(z3.Or(exe.FNAN(ui), exe.FNAN(vi))); k, l = exe.FORD(ui), exe.FORD(vi); thr = None; moved = ()
            verdict = z3.Not(z3.And(both, k == l)) if n == "ne" else z3.And(both, {"eq": k == l, "lt": k < l, "le": k <= l, "gt": k > l, "ge": k >= l}[n])
        elif prefix in ("m", "x"):
            u, ui = obj(s, "target"); v, vi = obj(s, "reference"); thr = None; moved = (); x, y = ui, vi
            if prefix == "x": x = z3.Int("long_target"); s.st.assume(z3.And(x >= -(1 << 63), x < 1 << 63)); s.st.mem[u.base] = {0: (8, x)}; u.base.size = 8
            else: x, y = [z3.If(w < 0, w + (1 << 32), w) for w in (ui, vi)]
            verdict = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[n]
        elif prefix == "i":
            u, ui = obj(s, "target"); v, vi = obj(s, "reference")
            verdict = {"eq": ui == vi, "ne": ui != vi, "lt": ui < vi, "le": ui <= vi, "gt": ui > vi, "ge": ui >= vi}[n]; thr = None; moved = ()
        else:
            u, ui = obj(s, "target"); v, vi = obj(s, "reference"); verdict = REL(op)(ui, vi); thr = THR(op)(ui, vi); moved = () if suffix == "l" else (v.base,)
        mk_policy(s, name, v, moved=moved); D[n] = run_family(s, name, u, verdict, thr); s.vi = vi
        ex.fstack.append(f"{name}::")
        for k in "mn":
            t = D[n][k]
            if t.decl().name() != "vformat1": raise Unsupported("description is not one formatted value")
            ex.oblige(s.st, "description shows the reference value", t.children()[1].eq(fun("printed", I, I)(vi)), "contract")
        ex.fstack.pop()
        if first is None: first = ex
        else: first.obs += ex.obs; first.inlined |= ex.inlined; first.used.update(ex.used)
    ex = first; ex.fstack.append("descriptions"); st = State()
    F = {n: fmt_of(D[n]["m"]) for n in OPS}
    for n in OPS: ex.oblige(st, f"description of the negated {n} is that of {DUAL[n]}", fmt_of(D[n]["n"]).eq(F[DUAL[n]]), "contract")
    ex.oblige(st, "the six descriptions differ", len({str(x) for x in F.values()}) == 6, "contract"); ex.fstack.pop()
    return ex
def p_pred(unit, name):
    s = setup(unit); ex = s.ex; u, ui = obj(s, "target"); p, pi = obj(s, "predicate")
    mk_policy(s, name, p, moved=() if name == "predm" else (p.base,))
    d = run_family(s, name, u, REL("predicate")(ui, pi), THR("predicate")(ui, pi), trace=("predicate", u))
    ex.fstack.append(name); ex.oblige(s.st, "description and description of the negation differ", not d["m"].eq(d["n"]), "contract"); ex.fstack.pop()
    return ex
def p_inst(unit, name):
    s = setup(unit); ex = s.ex; u, ui = obj(s, "target"); o, oi = obj(s, "other"); mk_policy(s, name, u)
    st0 = s.st; run_family(s, name, u, True, None); s.st = st0; run_family(s, name, o, False, None)
    return ex
def p_wild(unit):
    s = setup(unit); ex = s.ex; u, ui = obj(s, "target"); pre = s.st.copy()
    for f in ("wild", "wildc", "wildr"): check(ex, pre, ex.run(unit.fn(rf"^vu::{f}\("), [u], s.st.copy()), [(True, "ret", True, pre)], f"WildcardMatcher ({f})")
    return ex
