"""Contracts for mimic++/Mock.hpp and InterfaceMock.hpp (C19) over opaque argument types.

Post-condition of a call: exactly one hand-over to the expectations (handle_call of
the collection the overload belongs to, proved separately: C08-C10), with a call
info that holds the addresses of the caller's objects (by-value parameters: the
parameter object, which carries the caller's value), the category and constness of
the overload, and the source location; the result of the hand-over is returned and
its exception propagates (ends the program in a noexcept overload)."""
import z3, re
from core import *
from prove import *
import exe, ll, models, strings
from models import R, nop
from spec_seq import new, INT_MAX
from spec_ctl import off_of, install_shared_ptr
from spec_pol import S, fun, ident, obj, TAG
from unit import Rec
I, B = z3.IntSort(), z3.BoolSort()
CAT = dict(l=1, r=2, a=3); CON = dict(n=1, c=2, a=3)          # Fwd.hpp: the enumerators (checked by p_category of C13 as well)
def opaque(ex, cls):
    C = ex.contract; n = re.escape("vu::" + cls); w = "opaque user type vu::" + cls
    def copy(ex, st, a, name): v = ident(ex, st, a[1]); ex.store_raw(st, a[0], 4, v); st.emit("copy", v); return R(st)
    def move(ex, st, a, name):
        v = ident(ex, st, a[1]); ex.store_raw(st, a[0], 4, v); ex.store_raw(st, a[1], 4, ex.fresh("moved_from")); st.emit("move", v); return R(st)
    C(rf"^{n}::{cls}\({n} const&\)", copy, w + " copy constructor"); C(rf"^{n}::{cls}\({n}&&\)", move, w + " move constructor"); C(rf"^{n}::~{cls}\(\)", nop, w + " destructor")
#            parameters by info type: v = by value, r = reference
INFOS = {"I4": "vrrr", "I7": "vrrrrvr", "Ia": "r", "Ib": "r", "Iab": "rr", "Iz": "", "Iv": "v", "Iavb": "vr"}
SIGS = {"(vu::A, vu::B&, vu::C&&, vu::D const&, vu::A&, vu::B, vu::D&&)": "I7", "(vu::A, vu::B&, vu::C&&, vu::D const&)": "I4", "(vu::A&)": "Ia", "(vu::B&)": "Ib", "(vu::A&, vu::B&)": "Iab", "()": "Iz", "(vu::A)": "Iv", "(vu::A, vu::B&)": "Iavb"}
def setup(unit):
    ex, st = new(unit); strings.install_strings(ex); install_shared_ptr(ex); s = S(); s.ex = ex; s.st = st; s.unit = unit; s.n = 0; C = ex.contract
    for c in ("A", "B", "C", "D", "MA", "MB", "MC", "MD"): opaque(ex, c)
    s.off = {i: dict(cat=off_of(ex, unit, f"vu::{i}_cat"), con=off_of(ex, unit, f"vu::{i}_con"), loc=off_of(ex, unit, f"vu::{i}_loc"), args=[off_of(ex, unit, f"vu::{i}_a{k}") for k in range(len(ks))]) for i, ks in INFOS.items()}
    s.ret = Ptr(Region("result object"))
    for c in ("MA", "MB", "MC", "MD"):
        def acc(ex, st, a, name): return R(st, fun("accepts", I, I, B)(ident(ex, st, a[0]), z3.IntVal(ex.arg_index[id(a[1].base)])))
        C(rf"^vu::{c}::matches\(", acc, "opaque user matcher (pure)")
    def hand(ex, st, a, name):
        name = ex.dem(name); m = re.match(r"mimicpp::ExpectationCollection<(.*?) (\(.*\))>::handle_call\(", name)
        if not m or m.group(2) not in SIGS: raise Unsupported("hand-over " + name)
        ret = m.group(1); i = SIGS[m.group(2)]; o = s.off[i]; out = None
        if ret == "vu::A": out, a = a[0], a[1:]
        vals = []
        for k, kind in enumerate(INFOS[i]):
            p = ex.load(st, ex.padd(a[1], o["args"][k]), ll.PTR); vals.append(ident(ex, st, p) if kind == "v" else p)
        k = len(st.trace); st.emit("handle_call", a[0], z3.IntVal(len(INFOS[i])), *vals, ex.load(st, ex.padd(a[1], o["cat"]), ll.INT(32)), ex.load(st, ex.padd(a[1], o["con"]), ll.INT(32)), ex.load(st, ex.padd(a[1], o["loc"]), ll.PTR))
        u = st.copy(); t = z3.Bool("call_fails"); u.assume(t); st.assume(z3.Not(t)); rs = [ex.throw(u, None, None, tag=TAG)]
        if ret == "vu::A": ex.store_raw(st, out, 4, fun("call_value", I)()); r = None
        elif ret == "void": r = None
        elif ret.endswith("&"): r = s.ret
        else: r = RESULT; st.assume(z3.And(r >= -(1 << 31), r <= INT_MAX))
        return [("ret", r, st)] + rs
    C(r"^mimicpp::ExpectationCollection<.*>::handle_call\(", hand, "ExpectationCollection::handle_call (proved separately: C08-C10, C22)", trusted=False)
    def mkshared(ex, st, a, name):
        i = sum(1 for e in st.trace if e[0] == "collection"); ex.store_raw(st, a[0], 8, coll(i)); ex.store_raw(st, ex.padd(a[0], 8), 8, owner(i)); st.emit("collection", re.search(r"make_shared<mimicpp::ExpectationCollection<(.*)>>\(\)", ex.dem(name)).group(1)); return R(st)
    s.colls = {}
    def coll(i): return s.colls.setdefault(i, (Ptr(Region(f"collection {i}")), Ptr(Region(f"owner {i}"))))[0]
    def owner(i): coll(i); return s.colls[i][1]
    C(r"^(std::.* )?std::make_shared<mimicpp::ExpectationCollection<", mkshared, "std::make_shared (a fresh collection)")
    s.coll = coll; s.loc = Ptr(Region("caller's location"))
    at = ex.new_block(st, "location", "undef", 8); st.mem[at] = {0: (8, s.loc)}; s.at = Ptr(at)
    return s
RESULT = z3.Int("call_result")
def construct(s, fn, size=4096, lab=""):
    """runs the constructor; returns the mock"""
    ex = s.ex; b = ex.new_block(s.st, "mock", "undef", size); pre = s.st.copy(); outs = ex.run(s.unit.fn(rf"^vu::{fn}\("), [Ptr(b)], s.st)
    ex.fstack.append(lab + "construction::"); cover(ex, pre, outs); live = [t for k, v, t in outs if ex.smt.feasible(t)]
    ob = [k for k, v, t in outs if ex.smt.feasible(t)]
    ex.oblige(pre, "constructs without failing", ob == ["ret"], "contract"); s.made = [e for e in live[0].trace[len(pre.trace):]] if live else []
    ex.fstack.pop()
    if ob != ["ret"]: raise PathEnd()
    s.st = live[0]; return Ptr(b)
from exe import PathEnd
QUAL = dict(n=("a", "n", 0), c=("a", "c", 0), l=("l", "n", 0), cl=("l", "c", 0), r=("r", "n", 0), cr=("r", "c", 0))
QUAL |= {k + "x": (a, b, 1) for k, (a, b, _) in QUAL.items()}; QUAL |= dict(w=QUAL["c"], wx=QUAL["rx"], v=QUAL["n"], o=QUAL["c"], rf=QUAL["l"], rr=QUAL["cl"])
ARGT = dict(A="MA", B="MB", C="MC", D="MD")
def called(s, pre, fn, args, evs, q, hand, ret, lab, loc=None, ignore=(), copies=()):
    """one call of the mock: events evs (construction of by-value parameters), then exactly one hand-over"""
    ex = s.ex; st = pre.copy(); a = list(args); out = None
    if ret == "A": out = ex.new_block(st, "result", "undef", 4); a = [Ptr(out)] + a
    p0 = st.copy(); outs = ex.run(s.unit.fn(rf"^vu::{fn}\("), a, st); specs = []
    for fails in (False, True):
        sp = p0.copy(); t = z3.Bool("call_fails"); sp.assume(t if fails else z3.Not(t)); 
        for e in evs: sp.emit(*e)
        sp.emit("handle_call", hand[0], z3.IntVal(len(hand[1])), *hand[1], z3.IntVal(CAT[q[0]]), z3.IntVal(CON[q[1]]), loc if loc is not None else s.loc)
        if fails:
            if q[2]: specs.append((t, "term", "terminate", sp)); continue
            sp.exc = (None, None, TAG); sp.uncaught = add(sp.uncaught, 1); specs.append((t, "throw", None, sp)); continue
        v = None
        if ret == "A": sp.mem[out] = {0: (4, fun("call_value", I)())}
        elif ret == "ref": v = s.ret
        elif ret == "int": v = RESULT
        specs.append((z3.Not(t), "ret", v, sp))
    check(ex, p0, outs, specs, lab, ignore=ignore, exc_eq=lambda t, t2: t.exc[2] is TAG or t.exc[2] == TAG)
def info_of(n): return "I7" if n in ("w", "wx") else "I4"
def params(n): return "abcdefg" if info_of(n) == "I7" else "abcd"
def p_call(unit, n):
    """Mock<R(P...) Q>: the call operator, in all qualifications and for all kinds of results"""
    s = setup(unit); ex = s.ex; m = construct(s, n + "_make", lab=f"{n}::"); st = s.st; lab = f"mock {n}::"
    ex.oblige(st, lab + "has one collection", len(s.made) == 1 and s.made[0][0] == "collection", "contract")
    if n == "z": args, hand, evs, moved, ret, q = [], [], [], (), "int", QUAL["n"]
    else:
        ob = [obj(s, "arg_" + c) for c in params(n)]; args = [p for p, _ in ob]; q = QUAL[n]; ret = dict(v="void", o="A", rf="ref", rr="ref", wx="A").get(n, "int")
        hand = [v if k == "v" else p for (p, v), k in zip(ob, INFOS[info_of(n)])]; evs = [("copy", v) for (p, v), k in zip(ob, INFOS[info_of(n)]) if k == "v"]
    called(s, st, n + "_call", [m] + args + [s.at], evs, q, (s.coll(0), hand), ret, lab + "call")
    # the location defaults to that of the caller: the compiler's constant for the call expression
    pre = st.copy(); out = []
    if ret == "A": b = ex.new_block(pre, "result", "undef", 4); out = [Ptr(b)]
    for k, v, t in ex.run(unit.fn(rf"^vu::{n}_here\("), out + [m] + args, pre.copy()):
        if not ex.smt.feasible(t): continue
        h = [e for e in t.trace if e[0] == "handle_call"]; where = text_at(ex, h[0][-1], 8) if len(h) == 1 else None
        ex.oblige(t, lab + "the source location is the caller's", where is not None and f"{n}_here" in where, "contract")
    return ex
def text_at(ex, p, off):
    c = ex.cmem.get(p.base) if isinstance(p, Ptr) else None
    if c is None or off not in c: return None
    return models.cstr(ex, c[off][1])
def accepts(s, fn, q, info, args, matchers, pol, lab):
    """the policies of the new expectation accept a call iff category and constness fit and every argument does"""
    ex = s.ex
    for cn, c in CAT.items():
        for kn, k in CON.items():
            st = s.st.copy(); b = ex.new_block(st, "info", "undef", 256); o = ex.run(s.unit.fn(rf"^vu::{info}_mk\("), [Ptr(b), c, k, s.at] + args, st)[0][2]; pre = o.copy()
            ok = (CAT[q[0]] & c) != 0 and (CON[q[1]] & k) != 0; want = b_and(*[fun("accepts", I, I, B)(mi, z3.IntVal(i)) for i, mi in enumerate(matchers)]) if ok else False
            check(ex, pre, ex.run(s.unit.fn(rf"^vu::{fn}_ask\("), [pol, Ptr(b)], o), [(True, "ret", want, pre)], f"{lab} on a call from {cn}/{kn}")
def expect(s, fn, m, q, info, matchers, i, args, lab):
    """expect_call of the overload: an expectation for its collection with the arguments as requirements, for calls of this overload only"""
    ex, unit, st = s.ex, s.unit, s.st; ex.arg_index = {id(p.base): k for k, p in enumerate(args)}
    rec = find_builder(unit, fn); oS = rec.off("m_Storage", r"shared_ptr<"); oP = rec.off("m_ExpectationPolicies", r"tuple<")
    b = ex.new_block(st, "builder", "undef", rec.size); srcs = [p for p, _ in matchers]; keep = st; pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::{fn}_expect\("), [Ptr(b), m] + srcs, st.copy())
    ex.fstack.append(lab); cover(ex, pre, outs); live = []
    for kd, v, t in outs:
        if not ex.smt.feasible(t): continue
        live.append(t); ex.oblige(t, "returns", kd == "ret", "contract")
        ex.oblige(t, "hands no call over", not any(e[0] in ("handle_call", "collection") for e in t.trace[len(pre.trace):]), "contract")
        ex.oblige(t, "for the collection of this overload", cell_eq(ex, t, ex.load(t, Ptr(b, oS), ll.PTR), t, s.coll(i)), "contract")
        for it in frame_eq(ex, pre, t, pre, ignore=(b, *[p.base for p in srcs])): ex.oblige(t, f"leaves {it[0]} alone", it[1] if len(it) == 2 else lazy_eq(ex, pre, it), "contract")
    ex.fstack.pop()
    if len(live) != 1: raise Unsupported("expect_call forks")
    s.st = live[0]; accepts(s, fn, q, info, args, [mi for _, mi in matchers], Ptr(b, oP), lab + "accepts"); s.st = keep
def find_builder(unit, fn):
    """layout of the builder type: any builder with these matchers (category and constness policies are empty classes; all candidates must agree)"""
    toks = lambda x: re.findall(r"Requirement<vu::M(\w)", x); want = toks(unit.mod.dem[unit.fn(rf"^vu::{fn}_ask\(")]); got = {}
    for k in unit.layout.rec:
        if re.match(r"mimicpp::BasicExpectationBuilder<", re.sub(r"\b(class|struct|enum) ", "", k)) and toks(re.sub(r"\b(class|struct|enum) ", "", k)) == want:
            r = Rec(unit.layout, k, *unit.layout.rec[k]); got[(r.size, r.off("m_Storage", r"shared_ptr<"), r.off("m_ExpectationPolicies", r"tuple<"))] = r
    if len(got) != 1: raise Unsupported(f"layout of the builder: {sorted(got)}")
    return list(got.values())[0]
def p_expect(unit, n):
    """Mock<R(P...) Q>::expect_call"""
    s = setup(unit); m = construct(s, n + "_make", lab=f"{n}::"); ms = [obj(s, "matcher_" + c) for c in params(n)]; args = [obj(s, "arg_" + c)[0] for c in params(n)]
    expect(s, n, m, QUAL[n], info_of(n), ms, 0, args, f"mock {n}::expect_call::"); return s.ex
#            overload sets: call -> (index of the collection, qualification of the selected overload, parameters)
OVL = dict(
    O1=(2 - 1, dict(l=(0, "n", "a"), cl=(0, "c", "a"), r=(0, "n", "a"), cr=(0, "c", "a"))),
    O2=(1, dict(l=(0, "l", "a"), cl=(0, "cl", "a"), r=(0, "r", "a"), cr=(0, "cr", "a"))),
    O3=(3, dict(l=(0, "n", "a"), r=(0, "n", "a"), lb=(1, "c", "b"), clb=(1, "c", "b"), crb=(1, "c", "b"), lab=(2, "nx", "ab"), rab=(2, "nx", "ab"))),
    O4=(2, dict(l=(1, "lx", "a"), cl=(1, "clx", "a"), r=(1, "rx", "a"), cr=(1, "clx", "a"), lb=(0, "c", "b"), clb=(0, "c", "b"), crb=(0, "c", "b"))))
def p_set(unit, n, how=""):
    """a mock with overloads: overloads of one decayed signature share one collection, others have their own; also after moving the mock"""
    s = setup(unit); ex = s.ex; N, calls = OVL[n]; m = construct(s, n + "_make", lab=f"{n}::"); lab = f"mock {n}{' moved' if how else ''}::"
    ex.oblige(s.st, lab + "one collection per decayed signature", len(s.made) == N and all(e[0] == "collection" for e in s.made) and len({e[1] for e in s.made}) == N, "contract")
    # the collections in the order of the signatures' first use
    order = {}
    for i, e in enumerate(s.made): order[e[1]] = i
    SIGP = dict(a="int (vu::A&)", b="int (vu::B&)", ab="int (vu::A&, vu::B&)")
    if how:
        src = m; b = ex.new_block(s.st, "mock2", "undef", 4096)
        if how == "assign":
            base = len(s.made); outs = ex.run(unit.fn(rf"^vu::{n}_make\("), [Ptr(b)], s.st.copy()); s.st = outs[0][2]; s.st = ex.run(unit.fn(rf"^vu::{n}_assign\("), [Ptr(b), src], s.st)[0][2]
        else:
            outs = ex.run(unit.fn(rf"^vu::{n}_move\("), [Ptr(b), src], s.st.copy()); ex.oblige(s.st, lab + "moves without failing", [k for k, v, t in outs] == ["ret"], "contract"); s.st = outs[0][2]
        m = Ptr(b)
    keep = s.st
    for c, (i, q, ps) in calls.items():
        s.st = keep.copy(); args = [obj(s, "arg_" + x)[0] for x in ps]
        if SIGP[ps] not in order: ex.oblige(s.st, lab + "has a collection for " + SIGP[ps], False, "contract"); continue
        i = order[SIGP[ps]]
        called(s, s.st, f"{n}_{c}", [m] + args + [s.at], [], QUAL[q], (s.coll(i), args), "int", f"{lab}call {c}")
        ms = [obj(s, "matcher_" + x) for x in ps]; args = args
        if not how: expect(s, f"{n}_{c}", m, QUAL[q], {"a": "Ia", "b": "Ib", "ab": "Iab"}[ps], ms, i, args, f"{lab}expect_call {c}::")
    return ex
def p_kill(unit, n):
    """destroying a mock hands no call over"""
    s = setup(unit); ex = s.ex; m = construct(s, n + "_make", lab=f"{n}::"); pre = s.st.copy(); check(ex, pre, ex.run(unit.fn(rf"^vu::{n}_kill\("), [m], s.st), [(True, "ret", None, pre)], f"mock {n}::destructor"); return ex
IMP = dict(many=("I7", "abcdefg", "c", "int"), foo=("I4", "abcd", "n", "int"), bar=("Ib", "b", "cx", "void"), val=("Iv", "a", "n", "A"), none=("Iz", "", "n", "int"), ovl1=("Ia", "a", "l", "int"), ovl2=("Ia", "a", "cl", "int"), ovl3=("Iavb", "ab", "n", "int"))
def p_interface(unit, n):
    """an interface mock: the override hands its call to the mock member, arguments forwarded"""
    s = setup(unit); ex = s.ex; m = construct(s, "imp_make", lab="interface mock::"); info, ps, q, ret = IMP[n]; lab = f"interface mock {n}::"
    ob = [obj(s, "arg_" + c) for c in ps]; args = [p for p, _ in ob]; hand = list(args); evs = []
    for k, kind in enumerate(INFOS[info]):
        if kind == "v": hand[k] = ob[k][1]; evs.append(("copy", ob[k][1]))
    evs += [("move", e[1]) for e in evs]
    mine = off_of(ex, unit, "vu::imp_" + ("ovl" if n.startswith("ovl") else n) + "_at"); st = s.st
    # the collection of the member mock's overload
    want = {"many": "int (vu::A, vu::B&, vu::C&&, vu::D const&, vu::A&, vu::B, vu::D&&)", "foo": "int (vu::A, vu::B&, vu::C&&, vu::D const&)", "bar": "void (vu::B&)", "val": "vu::A (vu::A)", "none": "int ()", "ovl1": "int (vu::A&)", "ovl2": "int (vu::A&)", "ovl3": "int (vu::A, vu::B&)"}[n]
    i = [j for j, e in enumerate(s.made) if e[1] == want]
    ex.oblige(st, lab + "the member mocks have one collection per decayed signature", len(s.made) == 7 and len(i) == 1, "contract")
    if len(i) != 1: return ex
    called_at = []
    pre = st.copy(); a = [m] + args
    # the location is the one of the override in the class: compared through the constant the call used
    b = None
    if ret == "A": b = ex.new_block(pre, "result", "undef", 4); a = [Ptr(b)] + a
    outs = ex.run(unit.fn(rf"^vu::imp_{n}\("), a, pre.copy()); locs = {id(t): [e for e in t.trace if e[0] == "handle_call"][-1][-1] for k, v, t in outs if any(e[0] == "handle_call" for e in t.trace)}
    ls = list(locs.values()); ex.oblige(st, lab + "the source location is the override's", bool(ls) and all((text_at(ex, l, 8) or "").find("Imp::") >= 0 for l in ls), "contract")
    if not ls: return ex
    s.st = st; called(s, st, f"imp_{n}", [m] + args, evs, QUAL[q], (s.coll(i[0]), hand), ret, lab + "call", loc=ls[0]); return ex
