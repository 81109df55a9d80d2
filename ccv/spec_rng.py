"""Contracts for the range matchers of mimic++/Matcher.hpp (C24) over ranges of opaque elements."""
import z3, re
from core import *
from prove import *
import exe, ll, models, strings
from models import R, nop
import spec_mat as M
from spec_mat import setup, run_family, mk_policy, REL
from spec_pol import fun, ident, obj, opaque
from spec_seq import INT_MAX
I, B = z3.IntSort(), z3.BoolSort()
MAXN = 1 << 60
CMP = z3.Function("comparator", I, I, B); MT = z3.Function("element_accepted", I, I, B); PERM = z3.Function("is_permutation", I, I, B)
def seq(s, kind, name):
    """a range argument: v std::vector, s std::span"""
    ex, st = s.ex, s.st; fam = Family(name, 4, {0: (4, "i32")}); n = z3.Int(name + ".size"); st.flen[fam] = n; st.assume(z3.And(n >= 0, n <= MAXN))
    b = ex.new_block(st, name, "undef"); p = Ptr(b); beg = Ptr(fam, 0, 0)
    ex.store(st, p, beg, ll.PTR)
    if kind == "v": ex.store(st, ex.padd(p, 8), Ptr(fam, 0, n), ll.PTR); ex.store(st, ex.padd(p, 16), Ptr(fam, 0, z3.Int(name + ".cap")), ll.PTR)
    else: ex.store(st, ex.padd(p, 8), n, ll.INT(64))
    return p, ex.fam_arr(st, fam, 0), n, fam
def common(unit):
    s = setup(unit); ex = s.ex; C = ex.contract; opaque(ex, "Mt")
    def cmp(ex, st, a, name): return R(st, CMP(ident(ex, st, a[1]), ident(ex, st, a[2])))
    C(r"^vu::Cmp::operator\(\)\(", cmp, "opaque comparator (pure, does not throw)")
    def acc(ex, st, a, name): return R(st, MT(ident(ex, st, a[0]), ident(ex, st, a[1])))
    C(r"^vu::Mt::matches\(", acc, "opaque element matcher (pure, does not throw)")
    def desc(ex, st, a, name): strings.put(ex, st, a[0], fun("description", I, I)(ident(ex, st, a[1]))); return R(st)
    C(r"^vu::Mt::describe", desc, "opaque element matcher describe")
    def perm(ex, st, a, name):
        """std::ranges::is_permutation(range, range, comparator): trusted; its arguments are checked"""
        x, y = whole(ex, st, a[1]), whole(ex, st, a[2])
        ex.oblige(st, "asks about the whole target and the whole reference", x is s.T and y is s.P, "contract")
        ex.oblige(st, "asks with the given comparator", "vu::Cmp" in ex.dem(name), "contract"); return R(st, s.perm)
    C(r"^bool std::ranges::__is_permutation_fn::operator\(\)<(?!.*, (__gnu_cxx::__normal_iterator|vu::E const\*))", perm, "std::ranges::is_permutation (answers whether the ranges are permutations of each other)")
    s.perm = z3.Bool("permutation"); return s
def whole(ex, st, p):
    """the symbolic sequence a range object covers completely"""
    q = ex.load(st, p, ll.PTR)
    if isinstance(q.base, Block): return whole(ex, st, q)       # ref_view
    e = ex.load_raw(st, ex.padd(p, 8), 8)
    n = st.flen.get(q.base)
    if not (isinstance(q.base, Family) and exe.veq(q.idx, 0) and q.off == 0): raise Unsupported("part of a range")
    ok = isinstance(e, Ptr) and e.base is q.base and exe.veq(e.idx, n) or not isinstance(e, Ptr) and exe.veq(e, n)
    if not ok: raise Unsupported("part of a range")
    return q.base
SIZES = dict(vi=32, vu=-32, vl=64, sz=-64, vs=16, vc=8)
def p_rng(unit, name):
    s = common(unit); ex = s.ex; rel, k = name.split("_"); i = z3.Int("at")
    t, T, n, s.T = seq(s, "s" if k[0] == "s" else "v", "target")
    rng = lambda lo, hi, body: z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), body))
    shown = None
    if rel in ("eq", "un", "eqi"):
        p, P, m, s.P = seq(s, k[1], "reference")
        v = s.perm if rel == "un" else z3.And(n == m, rng(0, n, CMP(T[i], P[i]) if rel == "eq" else T[i] == P[i])); mk_policy(s, name, p)
    elif rel in ("each", "any"):
        p, pi = obj(s, "element_matcher"); lv = k[1] != "r"; mk_policy(s, name, p, moved=() if lv else (p.base,)); shown = fun("description", I, I)(pi)
        v = rng(0, n, MT(pi, T[i])) if rel == "each" else z3.Not(rng(0, n, z3.Not(MT(pi, T[i]))))
    elif rel == "size":
        bits = SIZES[k]; x = z3.Int("size"); w = abs(bits); b = ex.new_block(s.st, "size", "undef"); p = Ptr(b); s.st.assume(z3.And(x >= -(1 << w - 1), x < (1 << w - 1))); s.st.mem[b] = {0: (w // 8, x)}
        val = x if bits > 0 else z3.If(x < 0, x + (1 << w), x); v = val == n; mk_policy(s, name, p)
    else:
        p, _ = obj(s, "unused"); mk_policy(s, name, p)
        if rel == "empty": v = n == 0
        else: v = rng(0, n - 1, z3.Not(CMP(T[i + 1], T[i]) if k != "vi" else T[i + 1] < T[i]))
    d = run_family(s, name, t, v, None)
    ex.fstack.append(name); ex.oblige(s.st, "description and description of the negation differ", not d["m"].eq(d["n"]), "contract")
    if shown is not None:
        for q in "mn":
            if d[q].decl().name() != "vformat1": raise Unsupported("description is not one formatted value")
            ex.oblige(s.st, "description shows that of the element matcher", d[q].children()[1].eq(shown), "contract")
    ex.fstack.pop(); return ex
