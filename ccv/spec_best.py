"""Contracts for sequence::detail::has_better_rating and detail::pick_best_match (C07)."""
import z3, re
from core import *
from prove import *
import exe, ll
from spec_seq import new, INT_MAX
from spec_ctl import off_of
from strings import tmpl_args
I, B = z3.IntSort(), z3.BoolSort()
k_, j_, l_ = z3.Ints("k j l")

class Ratings:
    """symbolic list of ratings (priority, tag), tags pairwise different"""
    def __init__(s, ex, st, unit, name):
        rr = unit.layout.find(r"mimicpp::sequence::rating")
        s.op, s.ot = rr.off("priority"), rr.off("tag")
        s.fam = Family(name, rr.size, {s.op: (4, "i32"), s.ot: (8, "i64")})
        s.n = z3.Int(name + ".n"); st.flen[s.fam] = s.n
        st.assume(z3.And(s.n >= 0, s.n <= INT_MAX))
        s.p = ex.fam_arr(st, s.fam, s.op); s.t = ex.fam_arr(st, s.fam, s.ot)
        st.know(z3.ForAll([k_, j_], z3.Implies(z3.And(0 <= k_, k_ < s.n, 0 <= j_, j_ < s.n, s.t[k_] == s.t[j_]), k_ == j_)))
def better_spec(st, a, b, tag=""):
    """L(k): in how many of the first k ratings of a the shared sequence ranks b strictly higher"""
    L = z3.Function("worse" + tag, I, I); F = z3.Function("partner" + tag, I, I); has = z3.Function("shared" + tag, I, B)
    st.know(L(0) == 0)
    st.know(z3.ForAll([k_], z3.Implies(k_ >= 0, L(k_ + 1) == L(k_) + z3.If(a.p[k_] < b.p[F(k_)], 1, 0)), patterns=[L(k_ + 1)]))
    st.know(z3.ForAll([k_], z3.Implies(k_ >= 0, z3.And(L(k_) >= 0, L(k_) <= k_)), patterns=[L(k_)]))   # lemma, proved in p_lemma_count
    st.know(z3.ForAll([k_, j_], z3.Implies(z3.And(0 <= k_, k_ < a.n, 0 <= j_, j_ < b.n, a.t[k_] == b.t[j_]), z3.And(has(k_), F(k_) == j_)), patterns=[z3.MultiPattern(a.t[k_], b.t[j_])]))
    st.know(z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < a.n, has(k_)), z3.And(0 <= F(k_), F(k_) < b.n, a.t[k_] == b.t[F(k_)])), patterns=[has(k_)]))
    allshared = z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < a.n), has(k_)), patterns=[has(k_)])
    res = z3.Or(z3.Not(allshared), a.n - 2 * L(a.n) >= 0)
    return L, F, has, res
def p_lemma_count(unit):
    """induction lemma 0 <= L(k) <= k used above"""
    ex, st = new(unit); L = z3.Function("L", I, I); d = z3.Function("d", I, I); k = z3.Int("k")
    ex.fstack.append("lemma: 0 <= L(k) <= k")
    b = State(); b.know(L(0) == 0); ex.oblige(b, "base", z3.And(L(0) >= 0, L(0) <= 0), "lemma")
    s = State(); s.assume(k >= 0); s.assume(z3.And(L(k) >= 0, L(k) <= k)); s.assume(z3.And(d(k) >= 0, d(k) <= 1)); s.assume(L(k + 1) == L(k) + d(k))
    ex.oblige(s, "step", z3.And(L(k + 1) >= 0, L(k + 1) <= k + 1), "lemma")
    ex.fstack.pop(); return ex
def cands(L):
    def c(ex, st, acc, k, loc):
        if acc.kind != "int": return []
        a = acc.term(k); v0 = acc.raw(acc.v0)
        if v0 is None: return []
        return [a == v0 + k - 2*L(k), a == v0 - k + 2*L(k), a == v0 + L(k), a == v0 - L(k), a == v0 + k - L(k), z3.And(a <= v0 + k, a >= v0 - k)]
    return c
def p_better(unit):
    ex, st = new(unit)
    a, b = Ratings(ex, st, unit, "lhs"), Ratings(ex, st, unit, "rhs")
    L, F, has, res = better_spec(st, a, b)
    ex.candidates.append(cands(L))
    pre = st.copy()
    outs = ex.run(unit.fn(r"^vu::better\("), [Ptr(a.fam, 0, 0), a.n, Ptr(b.fam, 0, 0), b.n], st)
    check(ex, pre, outs, [(True, "ret", res, pre)], "has_better_rating")
    return ex

# ---------------------------------------------------------------- pick_best_match
BETTER = z3.Function("better", I, I, B)
def vindex(unit, alt):
    """(offset of the index in the control state variant, index of the alternative)"""
    n = [k for k in unit.layout.rec if re.match(r"std::__detail::__variant::_Variant_storage<false, struct mimicpp::state_", k)]
    if len({tuple(map(tuple, unit.layout.rec[k][1])) for k in n}) != 1: raise Unsupported("layout of the control state")
    alts = [re.sub(r"^(struct|class) ", "", a) for a in tmpl_args(re.search(r"<(.*)>$", n[0]).group(1))[1:]]
    from unit import Rec
    return Rec(unit.layout, n[0], *unit.layout.rec[n[0]]).off("_M_index"), alts.index("mimicpp::" + alt)
def p_pick(unit):
    ex, st = new(unit)
    om, ov = off_of(ex, unit, "vu::m_report"), off_of(ex, unit, "vu::r_state")
    oa = off_of(ex, unit, "vu::app_ratings"); oi, ia = vindex(unit, "state_applicable")
    rr = unit.layout.find(r"mimicpp::sequence::rating"); rf = Family("ratings", rr.size, {}, arity=1)
    RL = z3.Function("nratings", I, I)
    import spec_call; tup = unit.layout.find(spec_call.tup_rx(unit)).size
    def beg(st, i): return Ptr(Param(rf, [zi(i)]), 0, 0)
    def end(st, i): st.assume(z3.And(RL(zi(i)) >= 0, RL(zi(i)) <= INT_MAX)); return Ptr(Param(rf, [zi(i)]), 0, RL(zi(i)))
    fam = Family("matches", tup, {om + ov + oi: (1, ("const", ia)), om + ov + oa: (8, ("fn", beg)), om + ov + oa + 8: (8, ("fn", end))})
    n = z3.Int("n"); st.assume(z3.And(n >= 1, n <= INT_MAX)); st.flen[fam] = n
    V = ex.new_block(st, "matches", "sym", 24); st.mem[V] = {0: (8, Ptr(fam, 0, 0)), 8: (8, Ptr(fam, 0, n)), 16: (8, Ptr(fam, 0, z3.Int("cap")))}
    def k_better(ex, st, a, name):
        p, x, q, y = a
        ok = all(isinstance(v, Ptr) and isinstance(v.base, Param) and v.base.fam is rf and v.off == 0 for v in (p, q))
        if not ok: raise Unsupported("has_better_rating on something else than the candidates' ratings")
        for v, m in ((p, x), (q, y)): ex.oblige(st, "compares complete rating lists", z3.And(zi(v.idx) == 0, zi(m) == RL(v.base.params[0])))
        return [("ret", BETTER(p.base.params[0], q.base.params[0]), st)]
    ex.contract(r"mimicpp::sequence::detail::has_better_rating\(", k_better, "has_better_rating (proved separately)", trusted=False)
    Bf = z3.Function("Best", I, I)
    st.know(Bf(0) == 0); st.know(z3.ForAll([k_], z3.Implies(k_ >= 0, Bf(k_ + 1) == z3.If(BETTER(Bf(k_), k_ + 1), Bf(k_), k_ + 1)), patterns=[Bf(k_ + 1)]))
    def cand(ex, st, acc, k, loc):
        if isinstance(acc.kind, tuple) and acc.kind[0] == "ptr" and acc.kind[1] is fam: return [acc.term(k) == Bf(k), acc.term(k) <= k, acc.term(k) >= 0]
        if acc.kind == "int": return [acc.term(k) == Bf(k)]
    ex.candidates.append(cand)
    pre = st.copy()
    outs = ex.run(unit.fn(r"^(auto )?mimicpp::detail::pick_best_match<(?:int \(int, char&\)|void \(\))>\("), [Ptr(V)], st)
    check(ex, pre, outs, [(True, "ret", Ptr(fam, 0, Bf(n - 1)), pre)], "pick_best_match")
    return ex
