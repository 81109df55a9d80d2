"""Contracts for mimic++/ExpectationBuilder.hpp (C20) over opaque policies and finalizers."""
import z3, re
from core import *
from prove import *
import exe, ll, strings, spec_ctl, spec_seq, spec_cfg
from models import R
from spec_seq import SeqObj, new, INT_MAX, UNSAT, SAT
from spec_ctl import off_of, install_shared_ptr
from spec_cfg import OWNER, partitions, base_off, K
from spec_pol import opaque, ident, obj, S, fun
from unit import Rec
I, B = z3.IntSort(), z3.BoolSort()
#            times set, sequences, finalizer, policies
BASE = dict(B0=(0, "", 0, ""), B1=(1, "l", 0, "1"), B2=(0, "", 1, "21"), B3=(1, "lg", 1, "122"), B4=(0, "g", 0, "12"), F0=(1, "", 1, ""), F1=(0, "l", 1, "1"))
OPS = dict(p1r=("p", "1", 1), p1l=("p", "1", 0), p2r=("p", "2", 1), p2l=("p", "2", 0), s1=("s", "l"), s2=("s", "gl"), fr=("f", 1), fl=("f", 0), t=("t",))
plain = lambda k: re.sub(r"\b(class|struct|enum) ", "", k)
def brec(unit, t, ks, fin, pols):
    for k in unit.layout.rec:
        m = re.match(r"mimicpp::BasicExpectationBuilder<(.*)>$", plain(k))
        if not m: continue
        a = strings.tmpl_args(m.group(1))
        if a[0] != ("true" if t else "false") or "vu::A" not in a[2] or "basic_string" in a[2]: continue
        if [x[0].lower() for x in re.findall(r"(Lazy|Greedy)Strategy", a[1])] != list(ks): continue
        if ("vu::Fin" in a[3]) != bool(fin) or a[4:] != [f"vu::P{c}" for c in pols]: continue
        return Rec(unit.layout, k, *unit.layout.rec[k])
    raise Unsupported(f"layout of the builder {t, ks, fin, pols}")
def offs(unit, r, t, ks, fin, pols):
    return dict(storage=r.off("m_Storage", r"shared_ptr<"), times=r.off("m_TimesConfig", r"TimesConfig "), seq=r.off("m_SequenceConfig", r"Config<"), fin=r.off("m_FinalizePolicy", r"(Fin|InitFinalize) "), pol=r.off("m_ExpectationPolicies", r"tuple<"))
def content(ex, unit, t, ks, fin, pols, v):
    """memory of a builder holding v: storage, (min, max), sequences, finalizer, policies"""
    r = brec(unit, t, ks, fin, pols); o = offs(unit, r, t, ks, fin, pols); d = {o["storage"]: (8, v["storage"]), o["storage"] + 8: (8, v["owner"])}
    tr = unit.layout.find(r"mimicpp::detail::TimesConfig"); d[o["times"] + tr.off("m_Min", r"^int ")] = (4, v["min"]); d[o["times"] + tr.off("m_Max", r"^int ", 1)] = (4, v["max"])
    if ks:
        b0 = base_off(ex, unit, ks)
        for k, c in spec_cfg.content(ex, unit, ks, v["seqs"]).items(): d[o["seq"] + b0 + k] = c
    if fin: d[o["fin"]] = (4, v["fin"])
    for i, x in enumerate(v["pols"]): d[o["pol"] + off_of(ex, unit, f"vu::pol_{pols}_{i}")] = (4, x)
    return r, d
def setup(unit):
    ex, st = spec_cfg.setup(unit)
    for c in ("P1", "P2", "Fin", "B", "MA", "MS", "MB"): opaque(ex, c)
    s = S(); s.ex = ex; s.st = st; s.unit = unit; return s
def symbolic(s, t, ks, fin, pols, mkseqs):
    st = s.st; mn, mx = z3.Ints("min max"); st.assume(z3.And(mn >= 0, mn <= mx, mx <= INT_MAX)); v = dict(min=mn, max=mx, storage=Ptr(s.ex.new_block(st, "storage", "sym", 64)), owner=Ptr(Region("owner of storage")), seqs=mkseqs, pols=[])
    if not t: st.assume(z3.And(mn == 1, mx == 1))
    if fin: v["fin"] = z3.Int("id_fin"); st.assume(z3.And(v["fin"] >= -(1 << 31), v["fin"] <= INT_MAX))
    for i in range(len(pols)): p = z3.Int(f"id_p{i}"); st.assume(z3.And(p >= -(1 << 31), p <= INT_MAX)); v["pols"].append(p)
    return v
def p_step(unit, base, op):
    """builder && x: everything specified so far is kept, x is added"""
    t, ks, fin, pols = BASE[base]; o = OPS[op]; ks2 = ks + (o[1] if o[0] == "s" else ""); first = None
    for part in partitions(ks2):
        if any(len(set(p)) < len(p) for p in (part[:len(ks)], part[len(ks):])): continue
        s = setup(unit); ex, st = s.ex, s.st; tags = []; qs = {}
        for g in part:
            if g not in qs: qs[g] = spec_cfg.mkseq(ex, st, g, tags)
        seqs = [qs[g] for g in part]; v = symbolic(s, t, ks, fin, pols, seqs[:len(ks)])
        r, d = content(ex, unit, t, ks, fin, pols, v); b = ex.new_block(st, "builder", "undef", r.size); st.mem[b] = d
        w = dict(v); t2, fin2, pols2 = t, fin, pols; moved = ()
        if o[0] == "p": x, xi = obj(s, "policy"); w["pols"] = v["pols"] + [xi]; pols2 = pols + o[1]; moved = (x.base,) if o[2] else ()
        elif o[0] == "f": x, xi = obj(s, "finalizer"); w["fin"] = xi; fin2 = 1; moved = (x.base,) if o[1] else ()
        elif o[0] == "t":
            tr = unit.layout.find(r"mimicpp::detail::TimesConfig"); xb = ex.new_block(st, "times", "undef", tr.size); a, c = z3.Ints("new_min new_max"); st.assume(z3.And(a >= 0, a <= c, c <= INT_MAX))
            st.mem[xb] = {tr.off("m_Min", r"^int "): (4, a), tr.off("m_Max", r"^int ", 1): (4, c)}; x = Ptr(xb); w["min"], w["max"] = a, c; t2 = 1
        else:
            xb = ex.new_block(st, "set", "undef", 16 * len(o[1])); b0 = base_off(ex, unit, o[1]); st.mem[xb] = {k + b0: c for k, c in spec_cfg.content(ex, unit, o[1], seqs[len(ks):]).items()}; x = Ptr(xb); w["seqs"] = seqs; moved = (xb,)
        r2, d2 = content(ex, unit, t2, ks2, fin2, pols2, w); out = ex.new_block(st, "result", "undef", r2.size); pre = st.copy(); dup = len(set(part)) < len(part)
        outs = ex.run(unit.fn(rf"^vu::{base}_{op}\("), [Ptr(out), Ptr(b), x], st); sp = pre.copy()
        if dup: sp.exc = ("_ZTISt16invalid_argument", None, None); sp.uncaught = add(sp.uncaught, 1); specs = [(True, "throw", None, sp)]
        else: sp.mem[out] = d2; specs = [(True, "ret", None, sp)]
        check(ex, pre, outs, specs, f"builder with (times set {t}, sequences '{ks}', finalizer {fin}, policies '{pols}') && {op} {part or ''}::", ignore=(b, *moved) + ((out,) if dup else ()))
        if first is None: first = ex
        else: first.obs += ex.obs; first.inlined |= ex.inlined; first.used.update(ex.used)
    return first
def p_finalize(unit, base):
    """finalize: an expectation with exactly what was specified, handed to the storage"""
    t, ks, fin, pols = BASE[base]; s = setup(unit); ex, st = s.ex, s.st; spec_seq.install_seq(ex); ex.force_unroll = False
    sq = [SeqObj(ex, st, unit, K[k], f"seq{i}", nonempty=False) for i, k in enumerate(ks)]
    for q in sq: st.assume(q.n <= INT_MAX)
    v = symbolic(s, t, ks, fin, pols, [q.p for q in sq]); r, d = content(ex, unit, t, ks, fin, pols, v); b = ex.new_block(st, "builder", "undef", r.size); st.mem[b] = d
    at = ex.new_block(st, "location", "undef", 8); loc = Ptr(Region("location")); st.mem[at] = {0: (8, loc)}; out = ex.new_block(st, "scoped", "undef", 16)
    def k_scoped(ex, st, a, name): st.emit("scoped", a[0], ex.load(st, a[1], ll.PTR), ex.load(st, ex.padd(a[1], 8), ll.PTR), ex.load(st, a[2], ll.PTR)); return R(st)
    ex.contract(r"^mimicpp::ScopedExpectation::ScopedExpectation<", k_scoped, "ScopedExpectation constructor (proved separately: adds the expectation to the storage)", trusted=False)
    def k_owner(ex, st, a, name): ex.store_raw(st, a[0], 8, Ptr(Region("owner of expectation"))); ex.store_raw(st, a[1], 8, 0); return R(st)
    ex.contract(r"^std::__shared_count<.*>::__shared_count<.*>\(std::unique_ptr<", k_owner, "shared_ptr from unique_ptr (takes over the pointer)")
    pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::{base}_finalize\("), [Ptr(out), Ptr(b), Ptr(at)], st)
    ex.fstack.append(f"finalize of builder with (times set {t}, sequences '{ks}', finalizer {fin}, policies '{pols}')::"); cover(ex, pre, outs)
    er = None
    for k in unit.layout.rec:
        m = re.match(r"mimicpp::BasicExpectation<(.*)>$", plain(k))
        if m:
            a = strings.tmpl_args(m.group(1))
            if [x[0].lower() for x in re.findall(r"(Lazy|Greedy)Strategy", a[1])] == list(ks) and "vu::Fin" in a[2] and a[3:] == [f"vu::P{c}" for c in pols]: er = Rec(unit.layout, k, *unit.layout.rec[k])
    if er is None: raise Unsupported("layout of the expectation")
    oc, of, op, ol = er.off("m_ControlPolicy", r"ControlPolicy<"), er.off("m_Finalizer", r"Fin "), er.off("m_Policies", r"tuple<"), er.off("m_SourceLocation", r"source_location ")
    cr = [Rec(unit.layout, k, *unit.layout.rec[k]) for k in unit.layout.rec if re.match(r"mimicpp::ControlPolicy<[^<>]*(<|>)", k) and [x[0].lower() for x in re.findall(r"(Lazy|Greedy)Strategy", k)] == list(ks)][0]
    for kd, q, t1 in outs:
        if not ex.smt.feasible(t1): continue
        ob = lambda n, g: ex.oblige(t1, n, g, "contract")
        ob("returns", kd == "ret")
        if kd != "ret": continue
        ob("exactly one expectation is handed over", len(t1.trace) == len(pre.trace) + 1 and t1.trace[-1][0] == "scoped")
        if not (len(t1.trace) == len(pre.trace) + 1 and t1.trace[-1][0] == "scoped"): continue
        _, dst, stor, own, e = t1.trace[-1]
        ob("to the storage given", b_and(cell_eq(ex, t1, stor, t1, v["storage"]), cell_eq(ex, t1, own, t1, v["owner"]), cell_eq(ex, t1, dst, t1, Ptr(out))))
        if not (isinstance(e, Ptr) and isinstance(e.base, Block) and e.base in t1.mem): raise Unsupported("expectation object")
        g = lambda o, ty=ll.INT(32): ex.load(t1, ex.padd(e, o), ty)
        ob("source location kept", cell_eq(ex, t1, g(ol, ll.PTR), t1, loc)); ob("finalizer kept", eq_int(g(of), v["fin"]))
        for i, x in enumerate(v["pols"]): ob(f"policy {i} kept", eq_int(g(op + off_of(ex, unit, f"vu::pol_{pols}_{i}")), x))
        ob("minimum kept", eq_int(g(oc + cr.off("m_Min", r"^int ")), v["min"])); ob("maximum kept", eq_int(g(oc + cr.off("m_Max", r"^int ", 1)), v["max"])); ob("count starts at zero", eq_int(g(oc + cr.off("m_Count", r"^int ", 2)), 0))
        sp = pre.copy()
        for i, x in enumerate(sq):
            n = x.append(sp); x.set_e(sp, n, simp(z3.If(v["min"] == 0, z3.IntVal(SAT), z3.IntVal(UNSAT)))); os = oc + cr.off("m_Sequences", r"tuple<")
            ob(f"sequence {i} joined", b_and(cell_eq(ex, t1, g(os + off_of(ex, unit, f"vu::ent_seq_{ks}_{i}"), ll.PTR), t1, x.p), eq_int(g(os + off_of(ex, unit, f"vu::ent_id_{ks}_{i}")), n)))
        for it in frame_eq(ex, pre, t1, sp, ignore=(b, out)): ob(f"final value of {it[0]}", it[1] if len(it) == 2 else lazy_eq(ex, pre, it))
    ex.fstack.pop(); return ex
EQA = fun("A==A", I, I, B)
def p_args(unit, name):
    """expect_call(x, y, z): the i-th argument becomes a requirement for the i-th parameter"""
    s = setup(unit); ex, st = s.ex, s.st
    def cpa(ex, st, a, name): ex.store_raw(st, a[0], 4, ident(ex, st, a[1])); return R(st)
    from models import nop
    ex.contract(r"^vu::A::A\(vu::A const&\)", cpa, "opaque user type vu::A copy constructor"); ex.contract(r"^vu::A::~A\(\)", nop, "opaque user type vu::A destructor")
    ex.contract(r"^vu::operator==\(vu::A const&, vu::A const&\)", lambda ex, st, a, n: R(st, EQA(ident(ex, st, a[0]), ident(ex, st, a[1]))), "opaque user operator== (pure, does not throw)")
    def acc(c):
        def f(ex, st, a, name):
            i = ident(ex, st, a[0]); k = len(st.trace); st.emit("match", i, a[1]); return R(st, fun("verdict", I, I, B)(i, z3.IntVal(k)))
        ex.contract(rf"^vu::{c}::matches\(", f, "opaque user matcher")
    for c in ("MA", "MS", "MB"): acc(c)
    import spec_str
    argv = []; kinds = name; srcs = []; moved = []
    MOVED = dict(mmm="101", vsm="110", vsw="000", wmw="010")[name]
    A = obj(s, "arg0")[0]; tx = z3.Int("text_argument"); sb = ex.new_block(st, "arg1", "undef", 32); strings.put(ex, st, Ptr(sb), tx); st.assume(z3.And(strings.LEN(tx) >= 0, strings.LEN(tx) <= (1 << 62))); Bq = obj(s, "arg2")[0]; args = [A, Ptr(sb), Bq]
    ex.text_kind = {str(tx): "s"}
    for i, k in enumerate(kinds):
        if k == "m": p, pi = obj(s, f"matcher{i}"); srcs.append(p); argv.append(("m", pi))
        elif k == "v": p, pi = obj(s, f"value{i}"); srcs.append(p); argv.append(("v", pi))
        elif k == "s":
            pt = z3.Int("text_pattern"); pb = ex.new_block(st, "pattern", "undef", 32); strings.put(ex, st, Ptr(pb), pt); st.assume(z3.And(strings.LEN(pt) >= 0, strings.LEN(pt) <= (1 << 62))); ex.text_kind[str(pt)] = "s"; srcs.append(Ptr(pb)); argv.append(("s", pt))
        else: srcs.append(obj(s, f"wildcard{i}")[0]); argv.append(("w", None))
        if MOVED[i] == "1": moved.append(srcs[-1].base)
    sb2 = ex.new_block(st, "storage_arg", "undef", 16); stor, own = Ptr(ex.new_block(st, "storage", "sym", 64)), Ptr(Region("owner of storage")); st.mem[sb2] = {0: (8, stor), 8: (8, own)}
    out = ex.new_block(st, "builder", "undef", 4096); pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::{name}_make\("), [Ptr(out), Ptr(sb2)] + srcs, st)
    ex.fstack.append(f"expect_call({name})::"); cover(ex, pre, outs); live = []
    for kd, v, t in outs:
        if not ex.smt.feasible(t): continue
        ex.oblige(t, "returns and calls no user function", kd == "ret" and len(t.trace) == len(pre.trace), "contract"); live.append(t)
        for it in frame_eq(ex, pre, t, pre, ignore=(out, sb2, *moved)): ex.oblige(t, f"leaves {it[0]} alone", it[1] if len(it) == 2 else lazy_eq(ex, pre, it), "contract")
    if len(live) != 1: raise Unsupported("construction forks")
    st = live[0]; rs = [k for k in unit.layout.rec if re.match(r"mimicpp::BasicExpectationBuilder<false, ", plain(k))]
    # the builder type of this call: the one with this many policies of these matcher kinds
    def fits(k):
        a = strings.tmpl_args(re.match(r"mimicpp::BasicExpectationBuilder<(.*)>$", plain(k)).group(1))[4:]
        if len(a) != 3: return False
        W = {"m": ["vu::MA", "vu::MS", "vu::MB"]}
        for i, kk in enumerate(kinds):
            x = a[i]
            if not x.startswith("mimicpp::expectation_policies::Requirement<"): return False
            if kk == "m" and not re.search(r"Requirement<vu::M[ASB],", x): return False
            if kk == "w" and "Requirement<mimicpp::WildcardMatcher" not in x: return False
            if kk in "vs" and "Requirement<mimicpp::PredicateMatcher" not in x: return False
        return True
    rs = [Rec(unit.layout, k, *unit.layout.rec[k]) for k in rs if fits(k)]
    if not rs: raise Unsupported("layout of the builder")
    r = rs[0]; o0 = r.off("m_ExpectationPolicies", r"tuple<"); oS = r.off("m_Storage", r"shared_ptr<"); oT = r.off("m_TimesConfig", r"TimesConfig ")
    ex.oblige(st, "storage kept", b_and(cell_eq(ex, st, ex.load(st, Ptr(out, oS), ll.PTR), st, stor), cell_eq(ex, st, ex.load(st, Ptr(out, oS + 8), ll.PTR), st, own)), "contract")
    tr = unit.layout.find(r"mimicpp::detail::TimesConfig"); ex.oblige(st, "exactly one call by default", b_and(*[eq_int(ex.load(st, Ptr(out, oT + tr.off(m, r"^int ", n)), ll.INT(32)), 1) for m, n in (("m_Min", 0), ("m_Max", 1))]), "contract")
    ex.fstack.pop(); info = ex.new_block(st, "info", "undef")
    st = ex.run(unit.fn(r"^vu::mkinfo\("), [Ptr(info), *args, PInt(Ptr(Region("location")))], st)[0][2]
    for i, (k, x) in enumerate(argv):
        P = Ptr(out, o0 + off_of(ex, unit, f"vu::{name}_at{i}")); pre = st.copy(); sp = pre.copy()
        if k == "m": v = fun("verdict", I, I, B)(x, z3.IntVal(len(sp.trace))); sp.emit("match", x, args[i])
        elif k == "v": v = EQA(ident(ex, st, args[i]), x)
        elif k == "s": v = spec_str.verdict("eq", False, tx, x)
        else: v = True
        check(ex, pre, ex.run(unit.fn(rf"^vu::{name}_ask{i}\("), [P, Ptr(info)], st.copy()), [(True, "ret", v, sp)], f"expect_call({name})::requirement {i}")
    return ex
