"""Contracts for mimic++/ExpectationPolicies.hpp (C13, C14) over opaque user types.

An opaque user object holds one identity (an integer): copies carry it over, a
moved-from object gets an arbitrary one.  Calls of opaque user functions are
events (name, identity of the function object, addresses of the arguments); their
results are arbitrary functions of identity and position in the event sequence."""
import z3, re
from core import *
from prove import *
import exe, ll, models, strings
from models import R, nop
from spec_seq import new, INT_MAX
I, B = z3.IntSort(), z3.BoolSort()
RES = {}
def fun(n, *s):
    if n not in RES: RES[n] = z3.Function(n, *s)
    return RES[n]
def ident(ex, st, p):
    v = ex.load_raw(st, p, 4)
    if isinstance(v, Undef): ex.oblige(st, "user object is alive", False); raise PathEnd()
    return zi(v)
from exe import PathEnd
def opaque(ex, cls):
    C = ex.contract; n = re.escape("vu::" + cls); w = "opaque user type vu::" + cls
    def copy(ex, st, a, name): ex.store_raw(st, a[0], 4, ident(ex, st, a[1])); return R(st)
    def move(ex, st, a, name):
        v = ident(ex, st, a[1]); ex.store_raw(st, a[0], 4, v); ex.store_raw(st, a[1], 4, ex.fresh("moved_from")); return R(st)
    def acopy(ex, st, a, name): ex.store_raw(st, a[0], 4, ident(ex, st, a[1])); return R(st, a[0])
    def amove(ex, st, a, name):
        v = ident(ex, st, a[1]); ex.store_raw(st, a[1], 4, ex.fresh("moved_from")); ex.store_raw(st, a[0], 4, v); return R(st, a[0])
    C(rf"^{n}::{cls}\({n} const&\)", copy, w + " copy constructor"); C(rf"^{n}::{cls}\({n}&&\)", move, w + " move constructor")
    C(rf"^{n}::operator=\({n} const&\)", acopy, w + " copy assignment"); C(rf"^{n}::operator=\({n}&&\)", amove, w + " move assignment"); C(rf"^{n}::~{cls}\(\)", nop, w + " destructor")
def NEXT(st, i):
    v = fun("state_after_run", I, I)(zi(i)); st.assume(z3.And(v >= -(1 << 31), v <= INT_MAX)); return v
VALUES = ("A", "B", "C", "R", "X")
TAG = z3.Int("user_exception")
def method(ex, cls, ev, ret, rx=None, noexcept=False, ival=False):
    """contract of an opaque user function; ret: None, 'bool', 'int', 'ref' or the sret class"""
    def f(ex, st, a, name):
        out = None
        if ret == "sret": out, a = a[0], a[1:]
        i = ident(ex, st, a[0]); k = len(st.trace); args = a[1:]
        if ival: args = [ex.load(st, args[0], ll.INT(32))]
        st.emit(ev, i, *args); r = []
        if ev in ("act", "run"): ex.store_raw(st, a[0], 4, NEXT(st, i))          # running a user function changes the state of that function object
        if not noexcept:
            t = z3.Bool(f"{ev}_throws!{k}"); u = st.copy(); u.assume(t); st.assume(z3.Not(t)); r = [ex.throw(u, None, None, tag=TAG)]
        v = result(ex, st, ev, ret, i, k)
        if ret == "sret": ex.store_raw(st, out, 4, v); v = None
        return [("ret", v, st)] + r
    ex.contract(rx or rf"(^|[ ]){re.escape('vu::' + cls)}::operator\(\)\(", f, f"opaque user function {cls} ({'noexcept' if noexcept else 'may throw'})")
def result(ex, st, ev, ret, i, k):
    if ret is None: return None
    if ret == "bool": return fun(ev + "_verdict", I, I, B)(i, z3.IntVal(k))
    if ret == "ref": return ex.refs
    v = fun(ev + "_result", I, I, I)(i, z3.IntVal(k)); st.assume(z3.And(v >= -(1 << 31), v <= INT_MAX)); return v
METHODS = [("MtA", "match", "bool", "matches", 0, 0), ("MtB", "match", "bool", "matches", 0, 0), ("MtC", "match", "bool", "matches", 0, 0), ("MtI", "match", "bool", "matches", 0, 1),
    ("PjRef", "project", "ref", None, 0, 0), ("PjVal", "project", "int", None, 0, 0), ("PjNx", "project", "int", None, 1, 0),
    ("ActA", "act", None, None, 0, 0), ("ActC", "act", None, None, 0, 0), ("ActCA", "act", None, None, 0, 0), ("ActBB", "act", None, None, 1, 0), ("ActCBA", "act", None, None, 0, 0), ("ActACAB", "act", None, None, 0, 0), ("ActAll", "act", None, None, 0, 0), ("ActAll6", "act", None, None, 0, 0), ("ActBAC", "act", None, None, 0, 0), ("FnBA", "run", "sret", None, 0, 0), ("FnAll6", "run", "int", None, 0, 0), ("Act0", "act", None, None, 0, 0), ("Act0N", "act", None, None, 1, 0),
    ("FnR", "run", "sret", None, 0, 0), ("FnOv", "run", "sret", None, 0, 0), ("FnOq", "run", "sret", None, 0, 0), ("FnRef", "run", "ref", None, 0, 0), ("FnI", "run", "int", None, 1, 0), ("FnCA", "run", "sret", None, 0, 0), ("FnB", "run", "ref", None, 0, 0), ("FnAll", "run", "int", None, 0, 0), ("FnBAC", "run", "sret", None, 0, 0), ("FnCCAB", "run", "int", None, 0, 0)]
KIND = {m[0]: m for m in METHODS}
class S: pass
SIX = set("req3 req5 eff534 eff3 effall6 app53 appall6 arg3 arg5 arg4v".split())
def setup(unit, cat=None, con=None, six=False):
    ex, st = new(unit); strings.install_strings(ex); s = S(); s.ex = ex; s.st = st; s.unit = unit
    for c in VALUES + tuple(m[0] for m in METHODS): opaque(ex, c)
    for cls, ev, ret, nm, nx, iv in METHODS:
        method(ex, cls, ev, ret, rx=rf"^{re.escape('vu::' + cls)}::{nm}\(" if nm else None, noexcept=nx, ival=iv)
        def k_desc(ex, st, a, name): strings.put(ex, st, a[0], fun("description", I, I)(ident(ex, st, a[1]))); return R(st)
        if nm: ex.contract(rf"^{re.escape('vu::' + cls)}::describe\[abi:cxx11\]\(\)|^{re.escape('vu::' + cls)}::describe\(\)", k_desc, "opaque matcher describe")
    for cls, q in (("FnOv", "const"), ("FnOq", "&&")): method(ex, cls, "run_other_overload", "sret", rx=rf"vu::{cls}::operator\(\)\(\) {q}", noexcept=True)
    s.args = [obj(s, n) for n in ("abcdef" if six else "abc")]; ex.refs = obj(s, "ref")[0]; s.ref = ex.refs
    s.infoblock = ex.new_block(st, "info", "undef"); s.info = Ptr(s.infoblock)
    s.cat = z3.Int("category") if cat is None else cat; s.con = z3.Int("constness") if con is None else con
    if cat is None: st.assume(z3.And(s.cat >= 0, s.cat <= 3))
    if con is None: st.assume(z3.And(s.con >= 0, s.con <= 3))
    outs = ex.run(unit.fn(r"^vu::mkinfo6\(" if six else r"^vu::mkinfo\("), [s.info, *[p for p, _ in s.args], s.cat, s.con, PInt(Ptr(Region("location")))], st)
    s.st = outs[0][2]; s.pols = []
    return s
def obj(s, name, st=None):
    b = s.ex.new_block(s.st, name, "undef", 4); v = z3.Int("id_" + name); s.st.assume(z3.And(v >= -(1 << 31), v <= INT_MAX)); s.st.mem[b] = {0: (4, v)}
    return Ptr(b), v
def make(s, name, *srcs, moved=()):
    """runs the factory; afterwards s.pol is the policy, s.st the state"""
    ex = s.ex; b = ex.new_block(s.st, "policy", "undef"); s.pol = Ptr(b); pre = s.st.copy()
    outs = ex.run(s.unit.fn(rf"^vu::{name}_make\("), [s.pol, *srcs], s.st)
    ex.fstack.append(name + "::construction"); cover(ex, pre, outs)
    live = [t for k, v, t in outs if ex.smt.feasible(t)]
    for k, v, t in outs:
        if ex.smt.feasible(t):
            ex.oblige(t, "construction returns without calling the user's functions", k == "ret" and len(t.trace) == len(pre.trace), "contract")
            for it in frame_eq(ex, pre, t, pre, ignore=(b, *moved)): ex.oblige(t, f"construction leaves {it[0]} alone", it[1] if len(it) == 2 else lazy_eq(ex, pre, it), "contract")
    ex.fstack.pop()
    if len(live) != 1: raise Unsupported("construction forks")
    s.st = live[0]
def ran(st, pol, i):
    """the function object kept in the policy is the one that was run"""
    m = st.mem[pol.base]; m = dict(m); hit = [o for o, (n, v) in m.items() if n == 4 and is_sym(v) and v.eq(zi(i))]
    if len(hit) != 1: raise Unsupported("policy does not keep exactly one copy of the user function")
    m[hit[0]] = (4, NEXT(st, i)); st.mem[pol.base] = m
def events(ex, pre, evs, pol=None):
    """spec outcomes of a chain of user calls; evs: list of (cls, id, argfn(previous result)); returns (specs before completion, final guard, final state, last result)"""
    st = pre.copy(); g = True; specs = []; last = None
    for cls, i, argf in evs:
        _, ev, ret, nm, nx, iv = KIND[cls]; k = len(st.trace)
        st = st.copy(); st.emit(ev, i, *argf(last))
        if ev in ("act", "run"): ran(st, pol, i)
        if not nx:
            t = z3.Bool(f"{ev}_throws!{k}"); u = st.copy(); u.exc = (None, None, TAG); u.uncaught = add(u.uncaught, 1)
            specs.append((b_and(g, t), "throw", None, u)); g = b_and(g, z3.Not(t))
        last = result(ex, State(), ev, ret, i, k)
    return specs, g, st, last
def tageq(x, y): return is_sym(x.exc[2]) and x.exc[2].eq(y.exc[2])
def common(s, name, lab):
    ex = s.ex; pre = s.st.copy(); fn = lambda m: s.unit.fn(rf"^vu::{name}_{m}\(")
    check(ex, pre, ex.run(fn("satisfied"), [s.pol], s.st.copy()), [(True, "ret", True, pre)], lab + "is_satisfied")
    return pre, fn
REQ = dict(req3=("MtA", 3, None), req5=("MtB", 5, None), req0=("MtA", 0, None), req1=("MtB", 1, None), req2=("MtC", 2, None), req1p=("MtC", 1, "PjRef"), req2p=("MtI", 2, "PjVal"), req0p=("MtI", 0, "PjNx"))
def p_req(unit, name):
    mt, k, pj = REQ[name]; s = setup(unit, six=name in SIX); ex = s.ex; lab = f"expect::arg<{k}>{'' if not pj else ' with projection'}::"
    m, mi = obj(s, "matcher"); srcs = [m]; ids = []
    if pj: p, pi = obj(s, "projection"); srcs.append(p)
    make(s, name, *srcs, moved=() if name == "req2" else tuple(x.base for x in srcs))
    pre, fn = common(s, name, lab); A = s.args[k][0]
    if not pj: chain = [(mt, mi, lambda _: [A])]
    else: chain = [(pj, pi, lambda _: [A]), (mt, mi, lambda r: [r])]
    specs, g, st, last = events(ex, pre, chain)
    check(ex, pre, ex.run(fn("matches"), [s.pol, s.info], s.st.copy()), specs + [(g, "ret", last, st)], lab + "matches", exc_eq=tageq)
    check(ex, pre, ex.run(fn("consume"), [s.pol, s.info], s.st.copy()), [(True, "ret", None, pre)], lab + "consume")
    t0 = s.st.copy(); o = ex.new_block(t0, "text", "undef", 32); pre = t0.copy()
    ex.fstack.append(lab + "describe"); outs = ex.run(fn("describe"), [Ptr(o), s.pol], t0); cover(ex, pre, outs)
    for kd, v, t in outs:
        if not ex.smt.feasible(t): continue
        ex.oblige(t, "returns a text", kd == "ret", "contract")
        if kd == "ret":
            n = strings.numbers(t.mem[o][0][1]); ex.oblige(t, "states the index of the argument and the matcher's description", b_and(*[eq_int(x, y) for x, y in zip(n, [k, fun("description", I, I)(mi)])]) if len(n) == 2 else False, "contract")
    ex.fstack.pop()
    return ex
EFF = dict(eff534=("ActBAC", (5, 3, 4)), eff3=("ActA", (3,)), effall6=("ActAll6", (0, 1, 2, 3, 4, 5)), eff0=("ActA", (0,)), eff2=("ActC", (2,)), eff20=("ActCA", (2, 0)), eff11=("ActBB", (1, 1)), eff210=("ActCBA", (2, 1, 0)), eff0201=("ActACAB", (0, 2, 0, 1)), effall=("ActAll", (0, 1, 2)), effinv=("Act0", ()), effinvn=("Act0N", ()))
def p_effect(unit, name):
    act, idx = EFF[name]; s = setup(unit, six=name in SIX); ex = s.ex; lab = f"{name} (side effect on arguments {idx})::"
    f, fi = obj(s, "action"); make(s, name, f, moved=() if name == "eff2" else (f.base,))
    pre, fn = common(s, name, lab)
    check(ex, pre, ex.run(fn("matches"), [s.pol, s.info], s.st.copy()), [(True, "ret", True, pre)], lab + "matches")
    specs, g, st, _ = events(ex, pre, [(act, fi, lambda _: [s.args[i][0] for i in idx])], s.pol)
    check(ex, pre, ex.run(fn("consume"), [s.pol, s.info], s.st.copy()), specs + [(g, "ret", None, st)], lab + "consume", exc_eq=tageq)
    return ex
def p_category(unit):
    ex0 = None
    # the oracle: 'any' on either side accepts, otherwise equality (enumerators: see Fwd.hpp, read from the source by the probe values below)
    V = {"cat": {"l": 1, "r": 2, "a": 3}, "con": {"n": 1, "c": 2, "a": 3}}
    allobs = None
    for kind, es in V.items():
        for en, ev in es.items():
            for frm in es.values():
                s = setup(unit, cat=frm if kind == "cat" else None, con=frm if kind == "con" else None); ex = s.ex; name = f"{kind}_{en}"
                lab = f"{'Category' if kind == 'cat' else 'Constness'}<{en}> on a call from {frm}::"; pre = s.st.copy(); fn = lambda m: unit.fn(rf"^vu::{name}_{m}\(")
                want = ev == 3 or frm == 3 or ev == frm
                check(ex, pre, ex.run(fn("satisfied"), [], s.st.copy()), [(True, "ret", True, pre)], lab + "is_satisfied")
                check(ex, pre, ex.run(fn("matches"), [s.info], s.st.copy()), [(True, "ret", want, pre)], lab + "matches")
                if want: check(ex, pre, ex.run(fn("consume"), [s.info], s.st.copy()), [(True, "ret", None, pre)], lab + "consume")
                if allobs is None: allobs = ex
                else: allobs.obs += ex.obs; allobs.inlined |= ex.inlined; allobs.used.update(ex.used)
    return allobs
# ---------------------------------------------------------------- finalizers
def p_fin(unit, name):
    s = setup(unit, six=name in SIX); ex = s.ex; lab = f"{name}::"; st = s.st
    VAL = dict(retv="sret", retl="sret", retr="ref", retcr="ref", retrr="ref", reti="int")
    fn = lambda m: unit.fn(rf"^vu::{name}_{m}\(")
    def final(t, sret):
        out = ex.run(fn("call"), ([sret] if sret is not None else []) + [s.pol, s.info], t); return out
    if name in VAL:
        v, vi = obj(s, "value"); make(s, name, v, moved=() if name in ("retl", "reti") else (v.base,)); kind = VAL[name]
        r = sretb = None
        if kind == "sret": b = ex.new_block(s.st, "result", "undef", 4); r = Ptr(b)
        t0 = s.st; pre = t0.copy()
        for n in range(2):          # twice; the contract itself holds from every reachable state of the policy
            sp = pre.copy()
            if r is not None: sp.mem[b] = {0: (4, vi)}
            outs = final(t0.copy(), r)
            if kind == "ref":
                ex.fstack.append(lab + f"call {n + 1}"); cover(ex, pre, outs)
                for k, q, t in outs:
                    ex.oblige(t, "returns a reference", k == "ret" and isinstance(q, Ptr), "contract")
                    if k != "ret" or not isinstance(q, Ptr): continue
                    ex.oblige(t, "refers to the stored object", q.base is s.pol.base, "contract"); ex.oblige(t, "which holds the given value", eq_int(ident(ex, t, q), vi), "contract")
                    ex.oblige(t, "policy unchanged, no user function called", b_and(len(t.trace) == len(pre.trace), *[it[1] if len(it) == 2 else lazy_eq(ex, pre, it) for it in frame_eq(ex, pre, t, pre)]), "contract")
                ex.fstack.pop()
            else: check(ex, pre, outs, [(True, "ret", vi if kind == "int" else None, sp)], lab + f"call {n + 1}")
            live = [t for k, q, t in outs if k == "ret" and ex.smt.feasible(t)]
            if len(live) != 1: break
            t0 = live[0]; pre = t0.copy()
        return ex
    if name in ("retw", "retwv"):
        v, vi = obj(s, "value"); make(s, name, v); r = None; sp = None
        if name == "retwv": b = ex.new_block(s.st, "result", "undef", 4); r = Ptr(b)
        pre = s.st.copy(); sp = pre.copy()
        if r is not None: sp.mem[b] = {0: (4, vi)}
        check(ex, pre, final(s.st.copy(), r), [(True, "ret", v if r is None else None, sp)], lab + "call"); return ex
    RUN = dict(app53=("FnBA", (5, 3), 0), appall6=("FnAll6", (0, 1, 2, 3, 4, 5), 0), resv=("FnR", (), 0), resov=("FnOv", (), 1), resoq=("FnOq", (), 0), resr=("FnRef", (), 1), resrv=("FnRef", (), 0), resi=("FnI", (), 0), app20=("FnCA", (2, 0), 0), app1=("FnB", (1,), 0), app102=("FnBAC", (1, 0, 2), 0), app2201=("FnCCAB", (2, 2, 0, 1), 1), appall=("FnAll", (0, 1, 2), 0))
    if name in RUN:
        cls, idx, lv = RUN[name]; f, fi = obj(s, "function"); make(s, name, f, moved=() if lv else (f.base,)); ret = KIND[cls][2]; r = None
        if ret == "sret" or name == "resrv": b = ex.new_block(s.st, "result", "undef", 4); r = Ptr(b)
        t0 = s.st; pre = t0.copy()
        for n in range(2):
            specs, g, st, last = events(ex, pre, [(cls, fi, lambda _: [s.args[i][0] for i in idx])], s.pol); fi = NEXT(st, fi)
            if r is not None: st.mem[b] = {0: (4, last if ret == "sret" else ident(ex, st, last))}; last = None
            outs = final(t0.copy(), r); check(ex, pre, outs, specs + [(g, "ret", last, st)], lab + f"call {n + 1}", exc_eq=tageq)
            live = [t for k, q, t in outs if k == "ret" and ex.smt.feasible(t)]
            if len(live) != 1: break
            t0 = live[0]; pre = t0.copy()
        return ex
    THR = dict(thrv=("X", None), thrl=("X", 1), thri=("int", None))
    if name in THR:
        cls, lv = THR[name]; x, xi = obj(s, "exception"); make(s, name, x, moved=() if lv else (x.base,)); r = None
        if name == "thrl": b = ex.new_block(s.st, "result", "undef", 4); r = Ptr(b)
        t0 = s.st; pre = t0.copy(); ti = {"X": "_ZTIN2vu1XE", "int": "_ZTIi"}[cls]
        for n in range(2):
            outs = final(t0.copy(), r); ex.fstack.append(lab + f"call {n + 1}"); cover(ex, pre, outs)
            for k, q, t in outs:
                if not ex.smt.feasible(t): continue
                ex.oblige(t, "never returns: throws", k == "throw", "contract")
                if k != "throw": continue
                ex.oblige(t, "the exception has the given type", t.exc[0] == ti, "contract")
                if t.exc[0] == ti: ex.oblige(t, "the exception equals the given one", eq_int(ident(ex, t, t.exc[1]), xi), "contract")
                ex.oblige(t, "policy unchanged, no user function called", b_and(len(t.trace) == len(pre.trace), *[it[1] if len(it) == 2 else lazy_eq(ex, pre, it) for it in frame_eq(ex, pre, t, pre, ignore=(("ghost", "uncaught"),) + ((b,) if r is not None else ()))]), "contract")
                t0 = t.copy(); t0.exc = None; t0.uncaught = pre.uncaught
            ex.fstack.pop(); pre = t0.copy()
        return ex
    ARG = dict(arg3=(3, "ref"), arg5=(5, "sret"), arg4v=(4, "sret"), arg0=(0, "sret"), arg1=(1, "ref"), arg2=(2, "ref"), arg2v=(2, "sret"))
    k, kind = ARG[name]; make(s, name); r = None; p, v = s.args[k]
    if kind == "sret": b = ex.new_block(s.st, "result", "undef", 4); r = Ptr(b)
    pre = s.st.copy(); sp = pre.copy()
    if r is not None: sp.mem[b] = {0: (4, v)}
    check(ex, pre, final(s.st.copy(), r), [(True, "ret", p if r is None else None, sp)], lab + "call", ignore=(p.base,) if name in ("arg0", "arg5", "arg4v") else ())
    return ex
def p_init(unit):
    s = setup(unit); ex = s.ex; pre = s.st.copy()
    check(ex, pre, ex.run(unit.fn(r"^vu::init_call\("), [s.info], s.st.copy()), [(True, "ret", None, pre)], "InitFinalize::finalize_call")
    return ex
