"""Contracts for mimic++/ControlPolicy.hpp (TimesConfig, ControlPolicy, control state)."""
import z3, re
from core import *
from prove import *
import exe, ll, spec_seq
from spec_seq import SeqObj, UNSAT, SAT, SATUR, INT_MAX, new, prio, opt_parts
import strings
KINDS = {"": [], "l": ["Lazy"], "lg": ["Lazy", "Greedy"], "gll": ["Greedy", "Lazy", "Lazy"], "lglg": ["Lazy", "Greedy", "Lazy", "Greedy"], "ggllgl": ["Greedy", "Greedy", "Lazy", "Lazy", "Greedy", "Lazy"]}
def seqtmpl(k): return "mimicpp::sequence::detail::BasicSequence<mimicpp::sequence::Id, mimicpp::sequence::detail::%sStrategy{}>" % k
def pol_re(w): return r"mimicpp::ControlPolicy<" + re.escape(", ".join(seqtmpl(k) for k in KINDS[w])) + ">"

def probe(ex, fn, p):
    """run a layout probe (address computation) and return the pointer"""
    st = State(); st.mem[p.base] = {}
    o = ex.run(fn, [p], st)
    return o[0][1]
def off_of(ex, unit, fnname):
    b = Block("probe", "sym"); r = probe(ex, unit.fn("^" + fnname + r"\("), Ptr(b))
    return r.off

def install_shared_ptr(ex):
    """shared_ptr: reference counting is trusted; the pointers themselves are real"""
    C = ex.contract
    def cc(ex, st, a, name):
        st_copy_ptr(ex, st, a[0], a[1]); return [("ret", None, st)]
    def ca(ex, st, a, name):
        st_copy_ptr(ex, st, a[0], a[1]); return [("ret", a[0], st)]
    C(r"^std::__shared_count<.*>::__shared_count\(std::__shared_count<.*> const&\)", cc, "shared_ptr reference count copy")
    C(r"^std::__shared_count<.*>::operator=\(std::__shared_count<.*> const&\)", ca, "shared_ptr reference count assignment")
    C(r"^std::__shared_count<.*>::~__shared_count\(\)", models.nop, "shared_ptr reference count release (other owners keep the object alive)")
    C(r"^std::__shared_ptr<.*>::_M_assert|^std::__glibcxx_assert_fail", models.nop, "libstdc++ assertion")
def st_copy_ptr(ex, st, d, s): ex.store_raw(st, d, 8, ex.load(st, s, ll.PTR))

class Pol:
    """symbolic ControlPolicy: limits min<=max, count<=max, one element per sequence.
    invariant (C04/C05): 0<=min<=max, 0<=count<=max; element state == UNSAT iff count<min
    (was never min); SATUR iff count==max != min; SAT otherwise; ids valid and, while
    the policy is alive, never overtaken unless exhausted or the sequence moved on"""
    def __init__(s, ex, st, unit, w, inv=True):
        s.w = w; s.ex = ex
        rec = unit.layout.find(r"mimicpp::ControlPolicy<" + ("" if not w else ".*") + ">", pick=True) if not w else find_pol(unit, w)
        s.rec = rec
        s.omin, s.omax, s.ocnt = rec.off("m_Min", r"^int "), rec.off("m_Max", r"^int ", 1), rec.off("m_Count", r"^int ", 2)
        s.oseq = rec.off("m_Sequences", r"tuple<") if w else None
        s.blk = ex.new_block(st, "policy", "sym", rec.size); s.p = Ptr(s.blk)
        s.min, s.max, s.cnt = z3.Ints("min max count")
        for v in (s.min, s.max, s.cnt): st.assume(z3.And(v >= 0, v <= INT_MAX))
        st.assume(s.min <= s.max); st.assume(s.cnt <= s.max)
        m = {s.omin: (4, s.min), s.omax: (4, s.max), s.ocnt: (4, s.cnt)}
        s.seqs = []; s.ids = []; s.oid = []; s.osp = []
        for i, k in enumerate(KINDS[w]):
            q = SeqObj(ex, st, unit, k, f"seq{i}", nonempty=True); d = z3.Int(f"id{i}")
            st.assume(q.valid(st, d))
            if inv:
                e = q.e(st, d)
                st.assume(e == z3.If(s.cnt < s.min, UNSAT, z3.If(z3.And(s.cnt == s.max, s.max != s.min), SATUR, SAT)))
                st.assume(z3.Implies(s.cnt > 0, q.c >= d))
            o1 = s.oseq + off_of(ex, unit, f"vu::ent_seq_{w}_{i}"); o2 = s.oseq + off_of(ex, unit, f"vu::ent_id_{w}_{i}")
            m[o1] = (8, q.p); m[o1 + 8] = (8, Ptr(Region(f"ctrl{i}"))); m[o2] = (4, d)
            s.seqs.append(q); s.ids.append(d); s.oid.append(o2); s.osp.append(o1)
        st.mem[s.blk] = m
    def admits(s, st):
        return b_and(*[q.cons(st, i) for q, i in zip(s.seqs, s.ids)])
    def put(s, st, o, v):
        d = dict(st.mem[s.blk]); d[o] = (d[o][0], v); st.mem[s.blk] = d
def find_pol(unit, w):
    n = len(KINDS[w])
    ks = [k for k in unit.layout.rec if re.match(r"mimicpp::ControlPolicy<[^<>]", k)]
    for k in ks:
        from strings import tmpl_args
        t = tmpl_args(k[len("mimicpp::ControlPolicy<"):-1])
        if len(t) == n:
            from unit import Rec
            return Rec(unit.layout, k, *unit.layout.rec[k])
    raise Unsupported("layout of ControlPolicy with %d sequences" % n)

def setup(unit, w, inv=True):
    ex, st = new(unit); spec_seq.install_seq(ex); install_shared_ptr(ex); strings.install_strings(ex)
    return ex, st, Pol(ex, st, unit, w, inv)
def lab(w, f): return f"ControlPolicy<{','.join(KINDS[w])}>::{f}"
def fn(unit, w, name): return unit.fn("^" + pol_re(w) + "::" + name + r"\(\)")

def p_is_satisfied(unit, w):
    ex, st, p = setup(unit, w); pre = st.copy()
    outs = ex.run(fn(unit, w, "is_satisfied"), [p.p], st)
    check(ex, pre, outs, [(True, "ret", z3.And(p.min <= p.cnt, p.cnt <= p.max), pre)], lab(w, "is_satisfied")); return ex
def p_is_saturated(unit, w):
    ex, st, p = setup(unit, w); pre = st.copy()
    outs = ex.run(fn(unit, w, "is_saturated"), [p.p], st)
    check(ex, pre, outs, [(True, "ret", p.cnt == p.max, pre)], lab(w, "is_saturated")); return ex
def p_is_applicable(unit, w):
    ex, st, p = setup(unit, w); a = p.admits(st); pre = st.copy()
    outs = ex.run(fn(unit, w, "is_applicable"), [p.p], st)
    check(ex, pre, outs, [(True, "ret", simp(z3.And(p.cnt < p.max, zb(a))), pre)], lab(w, "is_applicable")); return ex
def p_consume(unit, w):
    ex, st, p = setup(unit, w); st.assume(p.cnt < p.max); st.assume(p.admits(st)); pre = st.copy()
    outs = ex.run(fn(unit, w, "consume"), [p.p], st)
    specs = []
    for g, e in ((p.cnt + 1 == p.min, SAT), (z3.And(p.cnt + 1 != p.min, p.cnt + 1 == p.max), SATUR), (z3.And(p.cnt + 1 != p.min, p.cnt + 1 != p.max), None)):
        sp = pre.copy(); p.put(sp, p.ocnt, p.cnt + 1)
        for q, i in zip(p.seqs, p.ids):
            q.set_c(sp, i)
            if e is not None: q.set_e(sp, i, e)
        specs.append((g, "ret", ANY, sp))
    check(ex, pre, outs, specs, lab(w, "consume"))
    # invariant preserved (follows from the functional specification)
    ex.fstack.append(lab(w, "consume"))
    for g, k, v, t in specs:
        u = t.copy(); u.assume(g); c = p.cnt + 1
        for q, i in zip(p.seqs, p.ids):
            ex.oblige(u, "invariant: element state matches the count", z3.simplify(q.e(u, i) == z3.If(c < p.min, UNSAT, z3.If(z3.And(c == p.max, p.max != p.min), SATUR, SAT))), "invariant")
            ex.oblige(u, "invariant: a matched element is not ahead of the position", simp(zi(q.cursor(u)) >= i), "invariant")
    ex.fstack.pop()
    return ex
def p_ctor(unit, w):
    ex, st = new(unit); spec_seq.install_seq(ex); install_shared_ptr(ex); strings.install_strings(ex)
    base = Pol(ex, st, unit, w, inv=False)      # used for the layout and the sequences only
    st.mem[base.blk] = {}
    b = Block("newpolicy", "undef", base.rec.size); st.mem[b] = {}; del st.mem[base.blk]
    trec = unit.layout.find(r"mimicpp::detail::TimesConfig")
    T = ex.new_block(st, "times", "sym", trec.size)
    mn, mx = z3.Ints("tmin tmax"); st.assume(z3.And(mn >= 0, mn <= mx, mx <= INT_MAX))
    st.mem[T] = {trec.off("m_Min", r"^int "): (4, mn), trec.off("m_Max", r"^int ", 1): (4, mx)}
    C = ex.new_block(st, "config", "sym", max(16 * len(base.seqs), 1)); m = {}
    for i, q in enumerate(base.seqs):
        o = off_of(ex, unit, f"vu::cfg_{w}_{i}"); m[o] = (8, q.p); m[o+8] = (8, Ptr(Region(f"ctrl{i}")))
        st.assume(q.n <= INT_MAX)
    st.mem[C] = m
    pre = st.copy()
    outs = ex.run(unit.fn("^" + pol_re(w) + r"::ControlPolicy\(mimicpp::detail::TimesConfig const&, mimicpp::sequence::detail::Config<"), [Ptr(b), Ptr(T), Ptr(C)], st)
    specs = []
    for g, e in ((mn == 0, SAT), (mn != 0, UNSAT)):
        sp = pre.copy(); d = {base.omin: (4, mn), base.omax: (4, mx), base.ocnt: (4, 0)}
        for i, q in enumerate(base.seqs):
            n = q.append(sp); q.set_e(sp, n, e)
            d[base.osp[i]] = (8, q.p); d[base.osp[i] + 8] = m[off_of(ex, unit, f"vu::cfg_{w}_{i}") + 8]; d[base.oid[i]] = (4, n)
        sp.mem[b] = d
        specs.append((g, "ret", ANY, sp))
    check(ex, pre, outs, specs, lab(w, "ControlPolicy(times, sequences)"))
    return ex

def read_vec(ex, st, p, size):
    """concrete-length vector as list of element pointers"""
    b = ex.load(st, p, ll.PTR); e = ex.load(st, ex.padd(p, 8), ll.PTR)
    if b.base is NULLR and e.base is NULLR: return []
    n = ex.pdiff(e, b)
    if not isinstance(n, int) or n % size: raise Unsupported("vector length")
    return [ex.padd(b, i * size) for i in range(0, n // size)]
def tag_is(ex, st, p, q):
    v = ex.load(st, p, ll.INT(64)); return cell_eq(ex, st, v, st, PInt(q.p))
def p_state(unit, w):
    ex, st, p = setup(unit, w); cons = [q.cons(st, i) for q, i in zip(p.seqs, p.ids)]
    R = Block("result", "undef")
    st.mem[R] = {}
    pre = st.copy()
    outs = ex.run(fn(unit, w, "state"), [Ptr(R), p.p], st)
    check_state(ex, unit, pre, outs, R, p.min, p.max, p.cnt, p.seqs, p.ids, cons, lab(w, "state"))
    return ex
RAT = r"mimicpp::sequence::rating"
def check_state(ex, unit, pre, outs, R, mn, mx, cnt, seqs, ids, cons, label, rp=None):
    """C06: content of the reported control state"""
    ex.fstack.append(label)
    recs = {k: unit.layout.find(r"mimicpp::state_" + k) for k in ("saturated", "applicable", "inapplicable")}
    rr = unit.layout.find(RAT); op, ot = rr.off("priority"), rr.off("tag")
    get = {k: unit.fn(rf"^vu::st_{n}\(") for k, n in (("saturated", "sat"), ("applicable", "app"), ("inapplicable", "inapp"))}
    nret = 0
    for k, v, t in outs:
        if not ex.smt.feasible(t): continue
        ob = lambda nm, g: ex.oblige(t, nm, g, "contract")
        ob("reports a state", k == "ret")
        if k != "ret": continue
        alts = {}
        for a, f in get.items():
            u = t.copy(); alts[a] = [o for o in ex.run(f, [rp or Ptr(R)], u) if o[0] == "ret"][0][1]
        live = [a for a, q in alts.items() if q.base is not NULLR]
        ob("exactly one alternative", len(live) == 1)
        if len(live) != 1: continue
        nret += 1
        a = live[0]; q = alts[a]; rec = recs[a]
        want = {"saturated": cnt == mx, "applicable": b_and(cnt != mx, *cons), "inapplicable": b_and(cnt != mx, b_not(b_and(*cons)) if cons else False)}[a]
        ob(f"alternative '{a}' exactly under its condition", simp(zb(want)))
        for m, x in (("min", mn), ("max", mx), ("count", cnt)):
            ob(f"{m} is the true one", eq_int(ex.load(t, ex.padd(q, rec.off(m)), ll.INT(32)), x))
        if a == "saturated":
            vs = read_vec(ex, t, ex.padd(q, rec.off("sequences")), 8)
            ob("lists each sequence once", len(vs) == len(seqs))
            if len(vs) == len(seqs):
                for e, s in zip(vs, seqs): ob("lists the sequences in order", tag_is(ex, t, e, s))
        else:
            rs = read_vec(ex, t, ex.padd(q, rec.off("sequenceRatings")), rr.size)
            ns = read_vec(ex, t, ex.padd(q, rec.off("inapplicableSequences")), 8) if a == "inapplicable" else []
            ob("lists each sequence once", len(rs) + len(ns) == len(seqs))
            if len(rs) + len(ns) != len(seqs): continue
            # the split must follow the admitting sequences, in order
            ri = ni = 0
            for s, i, c in zip(seqs, ids, cons):
                isr = ex.smt.entails(t, c); isn = ex.smt.entails(t, z3.Not(c))
                if isr and ri < len(rs):
                    e = rs[ri]; ri += 1
                    ob("rating carries its sequence's identity", tag_is(ex, t, ex.padd(e, ot), s))
                    ob("rating carries its sequence's priority", eq_int(ex.load(t, ex.padd(e, op), ll.INT(32)), prio(s.kind, i, s.cursor(t))))
                elif isn and ni < len(ns):
                    e = ns[ni]; ni += 1
                    ob("inadmissible sequence listed under its identity", tag_is(ex, t, e, s))
                else: ob("sequence listed on the right side", False)
        for it in frame_eq(ex, pre, t, pre, ignore=(R,)): ob(f"unchanged: {it[0]}", it[1] if len(it) == 2 else lazy_eq(ex, pre, it))
    ex.oblige(pre, "state obligations generated", nret >= 2, "vacuity")
    ex.fstack.pop()

# ---------------------------------------------------------------- TimesConfig
def p_times(unit, which):
    ex, st = new(unit)
    trec = unit.layout.find(r"mimicpp::detail::TimesConfig"); om, ox = trec.off("m_Min", r"^int "), trec.off("m_Max", r"^int ", 1)
    out = ex.new_block(st, "out", "undef", trec.size)
    a, b = z3.Ints("a b")
    for v in (a, b): st.assume(z3.And(v >= -(1 << 31), v <= INT_MAX))
    args, mn, mx = {"times2": ([a, b], a, b), "times1": ([a], a, a), "at_least": ([a], a, INT_MAX), "at_most": ([a], 0, a), "once": ([], 1, 1), "twice": ([], 2, 2), "times_default": ([], 1, 1)}[which]
    pre = st.copy()
    outs = ex.run(unit.fn(rf"^vu::{which}\("), [Ptr(out)] + args, st)
    ok = z3.And(zi(mn) >= 0, zi(mn) <= zi(mx))
    sp = pre.copy(); sp.mem[out] = {om: (4, mn), ox: (4, mx)}
    th = pre.copy(); th.exc = ("_ZTISt16invalid_argument", None, None); th.uncaught = add(th.uncaught, 1)
    check(ex, pre, outs, [(ok, "ret", ANY, sp), (z3.Not(ok), "throw", None, th)], f"expect::{which}")
    # accessors
    for f, o in (("tmin", om), ("tmax", ox)):
        t = sp.copy(); p2 = t.copy()
        check(ex, p2, ex.run(unit.fn(rf"^vu::{f}\("), [Ptr(out)], t), [(True, "ret", sp.mem[out][o][1], p2)], f"TimesConfig::{f[1:]}")
    return ex
