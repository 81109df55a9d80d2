"""Contracts for mimic++/Sequence.hpp (BasicSequence and its strategies)."""
import z3
from core import *
from prove import *
import exe, ll

UNSAT, SAT, SATUR = 0, 1, 2
INT_MAX = (1 << 31) - 1
def seq_re(kind): return r"mimicpp::sequence::detail::BasicSequence<mimicpp::sequence::Id, mimicpp::sequence::detail::%sStrategy\{\}>" % kind

def sat(x): return z3.Or(x == SAT, x == SATUR)
_jj = z3.Int("jj")
def consumable(a, c, i):
    """the defining predicate of C01"""
    return z3.And(c <= i, z3.ForAll([_jj], z3.Implies(z3.And(c <= _jj, _jj < i), sat(z3.Select(a, _jj)))), z3.Or(z3.Select(a, i) == UNSAT, z3.Select(a, i) == SAT))
CONS = z3.Function("consumable", z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort(), z3.BoolSort())

class SeqObj:
    """symbolic BasicSequence object: n elements in states e[], position c.
    invariant: 0 <= c, c < n or c == 0, states within the enumeration"""
    def __init__(s, ex, st, unit, kind, name, nonempty=False):
        rec = unit.layout.find(r"mimicpp::sequence::detail::BasicSequence<.*%sStrategy.*>" % kind)
        s.kind = kind; s.rec = rec; s.name = name
        s.ov = rec.off("m_Entries", r"^class std::vector<"); s.oc = rec.off("m_Cursor", r"^int ")
        s.fam = Family(name + ".entries", 4, {0: (4, ("range", 0, 2))}); s.fam.grow = True
        s.n = z3.Int(name + ".n"); s.c = z3.Int(name + ".cursor")
        s.blk = ex.new_block(st, name, "sym", rec.size); s.p = Ptr(s.blk)
        st.flen[s.fam] = s.n
        s.endp = Ptr(Region(name + ".cap"))
        st.mem[s.blk] = {s.ov: (8, Ptr(s.fam, 0, 0)), s.ov+8: (8, Ptr(s.fam, 0, s.n)), s.ov+16: (8, s.endp), s.oc: (4, s.c)}
        st.assume(s.n >= 0); st.assume(s.n <= 1 << 31)
        st.assume(s.c >= 0); st.assume(s.c <= INT_MAX)
        if nonempty: st.assume(s.c < s.n)
        else: st.assume(z3.Or(s.c < s.n, s.c == 0))
        s.ex = ex; s.e0 = ex.fam_arr(st, s.fam, 0)
        if not hasattr(ex, "seqs"): ex.seqs = {}
        ex.seqs[s.blk] = s
    def arr(s, st): return s.ex.fam_arr(st, s.fam, 0)
    def cursor(s, st): return st.mem[s.blk][s.oc][1]
    def count(s, st): return st.mem[s.blk][s.ov+8][1].idx
    def e(s, st, i): return z3.Select(s.arr(st), zi(i))
    def cons(s, st, i):
        """light name of the predicate; its definition is known to the solver"""
        a, c = s.arr(st), zi(s.cursor(st))
        t = CONS(a, c, zi(i)); st.know(t == consumable(a, c, zi(i)))
        st.assume(z3.Implies(t, c <= zi(i)))
        return t
    # --- spec transitions
    def set_e(s, st, i, v): 
        d = dict(st.fam[s.fam]); d[0] = z3.Store(s.arr(st), zi(i), v); st.fam[s.fam] = d
    def set_c(s, st, i):
        d = dict(st.mem[s.blk]); d[s.oc] = (4, i); st.mem[s.blk] = d
    def append(s, st):
        n = s.count(st); s.set_e(st, n, UNSAT); st.flen[s.fam] = add(n, 1)
        d = dict(st.mem[s.blk]); d[s.ov+8] = (8, Ptr(s.fam, 0, add(n, 1))); st.mem[s.blk] = d
        return n
    def valid(s, st, i): return z3.And(zi(i) >= 0, zi(i) < zi(s.count(st)), zi(i) <= INT_MAX)

def new(unit):
    ex = Exec(unit.mod); models.install_runtime(ex); ex.unit = unit
    st = State(); u = z3.Int("exceptions_in_flight"); st.assume(z3.And(u >= 0, u < 1 << 20)); st.uncaught = u      # also called while an exception propagates
    return ex, st
def free_id(st, s, name="id"):
    i = z3.Int(name); st.assume(s.valid(st, i)); return i

# ---------------------------------------------------------------- contracts for callers
def seqof(ex, p):
    if not (isinstance(p, Ptr) and p.base in getattr(ex, "seqs", {}) and p.off == 0): raise Unsupported("sequence object " + repr(p))
    return ex.seqs[p.base]
def k_is_consumable(ex, st, a, name):
    s = seqof(ex, a[0]); ex.oblige(st, "precondition: id is attached to the sequence", s.valid(st, a[1]), "pre")
    return [("ret", s.cons(st, a[1]), st)]
def k_set(which):
    def k(ex, st, a, name):
        s = seqof(ex, a[0]); i = a[1]
        ex.oblige(st, "precondition: id is attached to the sequence", s.valid(st, i), "pre")
        ex.oblige(st, "precondition: sequence has not advanced past the element", simp(zi(s.cursor(st)) <= zi(i)), "pre")
        e = s.e(st, i)
        if which == SAT: ex.oblige(st, "precondition: element is unsatisfied", simp(e == UNSAT), "pre")
        else: ex.oblige(st, "precondition: element is not saturated", simp(z3.Or(e == UNSAT, e == SAT)), "pre")
        s.set_e(st, i, which); return [("ret", None, st)]
    return k
def k_consume(ex, st, a, name):
    s = seqof(ex, a[0]); i = a[1]
    ex.oblige(st, "precondition: id is attached to the sequence", s.valid(st, i), "pre")
    ex.oblige(st, "precondition: element is consumable", s.cons(st, i), "pre")
    s.set_c(st, i); return [("ret", None, st)]
def k_add(ex, st, a, name):
    s = seqof(ex, a[0]); n = s.count(st); out = []
    full = simp(zi(n) > INT_MAX)
    if ex.smt.feasible(st, full):
        t = st.copy(); t.assume(full); out.append(ex.throw(t, "_ZTISt13runtime_error"))
    st.assume(b_not(full)); r = s.append(st); out.append(("ret", r, st)); return out
PRIO = {}
def prio(kind, i, c):
    """the (pure) number a strategy assigns to element i at position c"""
    f = PRIO.setdefault(kind, z3.Function(f"priority_{kind}", z3.IntSort(), z3.IntSort(), z3.IntSort())); return f(zi(i), zi(c))
def k_priority_of(ex, st, a, name):
    s = seqof(ex, a[0]); i = a[1]
    ex.oblige(st, "precondition: id is attached to the sequence", s.valid(st, i), "pre")
    b = s.cons(st, i); v = prio(s.kind, i, s.cursor(st))
    out = []
    if ex.smt.feasible(st, b):
        t = st.copy(); t.assume(b); out.append(("ret", Packed({0: (4, v), 4: (1, True)}, 8), t))
    nb = b_not(b)
    if ex.smt.feasible(st, nb):
        st.assume(nb); out.append(("ret", Packed({4: (1, False)}, 8), st))
    return out
def k_tag(ex, st, a, name):
    s = seqof(ex, a[0]); return [("ret", PInt(s.p), st)]
def install_seq(ex):
    for k in ("Lazy", "Greedy"):
        R = "^" + seq_re(k) + "::"
        for nm, f in (("is_consumable", k_is_consumable), ("set_satisfied", k_set(SAT)), ("set_saturated", k_set(SATUR)), ("consume", k_consume), ("add", k_add), ("priority_of", k_priority_of), ("tag", k_tag)):
            ex.contract(R + nm + r"\(", f, f"BasicSequence<{k}>::{nm} (proved separately)", trusted=False)

# ---------------------------------------------------------------- proofs
def p_is_consumable(unit, kind):
    ex, st = new(unit)
    s = SeqObj(ex, st, unit, kind, "seq"); i = free_id(st, s)
    pre = st.copy()
    outs = ex.run(unit.fn("^" + seq_re(kind) + r"::is_consumable\(mimicpp::sequence::Id\)"), [s.p, i], st)
    check(ex, pre, outs, [(True, "ret", consumable(s.e0, s.c, i), pre)], f"BasicSequence<{kind}>::is_consumable")
    return ex
def p_set(unit, kind, name, val):
    ex, st = new(unit)
    s = SeqObj(ex, st, unit, kind, "seq"); i = free_id(st, s)
    st.assume(s.c <= i); e = z3.Select(s.e0, i)
    st.assume(e == UNSAT if val == SAT else z3.Or(e == UNSAT, e == SAT))
    pre = st.copy()
    outs = ex.run(unit.fn("^" + seq_re(kind) + r"::" + name + r"\(mimicpp::sequence::Id\)"), [s.p, i], st)
    sp = pre.copy(); s.set_e(sp, i, val)
    check(ex, pre, outs, [(True, "ret", ANY, sp)], f"BasicSequence<{kind}>::{name}")
    return ex
def p_consume(unit, kind):
    ex, st = new(unit); install_some(ex, kind, ["is_consumable"])
    s = SeqObj(ex, st, unit, kind, "seq"); i = free_id(st, s)
    st.assume(s.cons(st, i))
    pre = st.copy()
    outs = ex.run(unit.fn("^" + seq_re(kind) + r"::consume\(mimicpp::sequence::Id\)"), [s.p, i], st)
    sp = pre.copy(); s.set_c(sp, i)
    check(ex, pre, outs, [(True, "ret", ANY, sp)], f"BasicSequence<{kind}>::consume")
    return ex
def p_add(unit, kind):
    ex, st = new(unit)
    s = SeqObj(ex, st, unit, kind, "seq")
    pre = st.copy()
    outs = ex.run(unit.fn("^" + seq_re(kind) + r"::add\(\)"), [s.p], st)
    sp = pre.copy(); s.append(sp)
    th = pre.copy(); th.exc = ("_ZTISt13runtime_error", None, None); th.uncaught = add(th.uncaught, 1)
    check(ex, pre, outs, [(s.n <= INT_MAX, "ret", s.n, sp), (s.n > INT_MAX, "throw", None, th)], f"BasicSequence<{kind}>::add")
    return ex
def p_ctor(unit, kind):
    ex, st = new(unit)
    rec = unit.layout.find(r"mimicpp::sequence::detail::BasicSequence<.*%sStrategy.*>" % kind)
    b = ex.new_block(st, "seq", "undef", rec.size); p = Ptr(b); pre = st.copy()
    outs = ex.run(unit.fn(rf"^vu::ctor_{kind}\("), [p], st)
    ov = rec.off("m_Entries", r"^class std::vector<"); oc = rec.off("m_Cursor", r"^int ")
    ex.fstack.append(f"BasicSequence<{kind}>::BasicSequence")
    for k, v, t in outs:
        ex.oblige(t, "constructor returns", k == "ret", "contract")
        if k != "ret": continue
        x, y, c = (ex.load(t, ex.padd(p, o), ll.PTR if o != oc else ll.INT(32)) for o in (ov, ov+8, oc))
        ex.oblige(t, "new sequence is empty", ex.peq(x, y), "contract")
        ex.oblige(t, "position starts at 0", eq_int(c, 0), "contract")
    ex.fstack.pop()
    return ex
def opt_parts(v):
    """(has_value, value) of an optional<int> returned in a register"""
    if isinstance(v, Packed):
        h = v.cells.get(4, (1, None))[1]; x = v.cells.get(0, (4, None))[1]
        if isinstance(h, Zero): h = False
        if isnum(h): h = b_not(eq_int(h, 0))
        if isinstance(x, Zero): x = 0
        return h, x
    raise Unsupported(f"optional<int> value {v}")
def p_priority(unit, kind):
    """value form: engaged iff consumable, and the returned number (for a free
    strategy) is used in the relational ordering proof"""
    ex, st = new(unit); install_some(ex, kind, ["is_consumable"])
    s = SeqObj(ex, st, unit, kind, "seq"); i = free_id(st, s)
    c0 = s.cons(st, i)
    pre = st.copy()
    outs = ex.run(unit.fn("^" + seq_re(kind) + r"::priority_of\(mimicpp::sequence::Id\)"), [s.p, i], st)
    ex.fstack.append(f"BasicSequence<{kind}>::priority_of")
    for k, v, t in outs:
        if not ex.smt.feasible(t): continue
        ex.oblige(t, "priority_of returns", k == "ret", "contract")
        if k != "ret": continue
        h, x = opt_parts(v)
        ex.oblige(t, "priority exists iff consumable", simp(zb(h) == c0), "contract")
        for it in frame_eq(ex, pre, t, pre): ex.oblige(t, f"unchanged: {it[0]}", it[1] if len(it) == 2 else lazy_eq(ex, pre, it), "contract")
    ex.fstack.pop()
    return ex
def p_order(unit, kind):
    """relational: two elements of one sequence in one state; purity: the number
    depends on the element and the position only"""
    ex, st = new(unit); install_some(ex, kind, ["is_consumable"])
    fn = unit.fn("^" + seq_re(kind) + r"::priority_of\(mimicpp::sequence::Id\)")
    s1 = SeqObj(ex, st, unit, kind, "s1"); s2 = SeqObj(ex, st, unit, kind, "s2")
    i = free_id(st, s1, "i"); j = free_id(st, s1, "j"); k_ = free_id(st, s2, "k")
    for s, x in ((s1, i), (s1, j), (s2, k_)): st.assume(s.cons(st, x))
    st0 = st.copy()
    ex.fstack.append(f"BasicSequence<{kind}>::priority_of ordering")
    n = 0
    for k, v, t in ex.run(fn, [s1.p, i], st):
        if k != "ret" or not ex.smt.feasible(t): continue
        for q, y_ in ((s1, j), (s2, k_)):
            for k2, w, u in ex.run(fn, [q.p, y_], t.copy()):
                if k2 != "ret" or not ex.smt.feasible(u): continue
                h1, x = opt_parts(v); h2, y = opt_parts(w)
                if x is None or y is None: continue
                x = zi(x); y = zi(y); n += 1
                if q is s1:
                    d1 = i - s1.c; d2 = j - s1.c
                    ex.oblige(u, "nearer element has the %s priority" % ("higher" if kind == "Lazy" else "lower"), z3.Implies(d1 < d2, x > y if kind == "Lazy" else x < y), "contract")
                else: ex.oblige(u, "priority is a function of element and position", z3.Implies(z3.And(i == k_, s1.c == s2.c), x == y), "contract")
    ex.oblige(st0, "ordering obligations generated", n > 1, "vacuity")
    ex.fstack.pop()
    return ex
def p_tag(unit, kind):
    ex, st = new(unit); s = SeqObj(ex, st, unit, kind, "seq"); pre = st.copy()
    outs = ex.run(unit.fn("^" + seq_re(kind) + r"::tag\(\)"), [s.p], st)
    check(ex, pre, outs, [(True, "ret", PInt(s.p), pre)], f"BasicSequence<{kind}>::tag")
    return ex

def install_some(ex, kind, names):
    full = dict(is_consumable=k_is_consumable, set_satisfied=k_set(SAT), set_saturated=k_set(SATUR), consume=k_consume, add=k_add, priority_of=k_priority_of, tag=k_tag)
    for nm in names: ex.contract("^" + seq_re(kind) + "::" + nm + r"\(", full[nm], f"BasicSequence<{kind}>::{nm} (proved separately)", trusted=False)

# ---------------------------------------------------------------- destructor (C02)
TEXT = z3.Function("error_text", z3.IntSort(), z3.IntSort(), z3.IntSort())
def p_dtor(unit, kind):
    import strings
    ex, st = new(unit); strings.install_strings(ex); strings.install_report_error(ex)
    s = SeqObj(ex, st, unit, kind, "seq")
    pre = st.copy(); npre = len(pre.trace)
    outs = ex.run(unit.fn("^" + seq_re(kind) + r"::~BasicSequence\(\)"), [s.p], st)
    lab = f"BasicSequence<{kind}>::~BasicSequence"
    ex.fstack.append(lab)
    i = z3.Int("ii"); a = s.e0
    allsat = z3.ForAll([i], z3.Implies(z3.And(s.c <= i, i < s.n), sat(z3.Select(a, i))))
    nr = 0
    for k, v, t in outs:
        if not ex.smt.feasible(t): continue
        ev = [e for e in t.trace[npre:]]
        ex.oblige(t, "at most one report", len(ev) <= 1 and all(e[0] == "report_error" for e in ev), "contract")
        ex.oblige(t, "never terminates the program by itself", k != "term", "contract")
        if len(ev) == 1 and ev[0][0] == "report_error":
            nr += 1
            txt, threw = ev[0][1], ev[0][2]
            ex.oblige(t, "reports only if an element from the position on is unsatisfied", z3.Not(allsat), "contract")
            ex.oblige(t, "an exception of the reporter propagates, and only that", simp(zb(threw) == zb(k == "throw")), "contract")
            nums = strings.numbers(txt)
            ok = len(nums) == 2
            ex.oblige(t, "text states two numbers", ok, "contract")
            if ok:
                m, n = (zi(x) for x in nums)
                ex.oblige(t, "second number is the number of elements", simp(n == s.n), "contract")
                ex.oblige(t, "first number is the first unsatisfied element's index",
                    z3.And(s.c <= m, m < s.n, z3.Not(sat(z3.Select(a, m))), z3.ForAll([i], z3.Implies(z3.And(s.c <= i, i < m), sat(z3.Select(a, i))))), "contract")
        else:
            ex.oblige(t, "silent only if every element from the position on is satisfied", allsat, "contract")
            ex.oblige(t, "no exception without report", k == "ret", "contract")
    ex.oblige(pre, "report path exists", nr > 0, "vacuity")
    ex.fstack.pop()
    return ex
