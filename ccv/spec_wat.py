"""Contracts for mimic++/ObjectWatcher.hpp (C18).

A lifetime watcher holds a mock on the heap (or none: moved from) and a flag; a
relocation watcher holds a mock.  The only observable effect is the hand-over of a
call to a mock's expectations (proved separately: C19, C08-C10); it may fail."""
import z3, re
from core import *
from prove import *
import exe, ll, models, strings
from models import R, nop
from spec_seq import new, INT_MAX
from spec_ctl import off_of, install_shared_ptr
from spec_pol import S, ident, TAG
from unit import Rec
import spec_mck
from spec_mck import text_at, CAT, CON
I, B = z3.IntSort(), z3.BoolSort()
def setup(unit):
    ex, st = new(unit); strings.install_strings(ex); install_shared_ptr(ex); s = S(); s.ex = ex; s.st = st; s.unit = unit; C = ex.contract; s.colls = {}
    def coll(k): return s.colls.setdefault(k, (Ptr(Region(f"collection of {k}")), Ptr(Region(f"owner of {k}"))))
    s.coll = coll; s.fresh = set()
    def fresh_coll():
        c = Ptr(Region("fresh collection")), Ptr(Region("fresh owner")); s.fresh.update(q.base for q in c); return c
    s.fresh_coll = fresh_coll
    def hand(ex, st, a, name):
        k = len(st.trace); st.emit("handle_call", a[0]); t = z3.Bool(f"call_fails!{k}"); u = st.copy(); u.assume(t); st.assume(z3.Not(t)); return R(st) + [ex.throw(u, None, None, tag=TAG)]
    C(r"^mimicpp::ExpectationCollection<void \(\)>::handle_call\(", hand, "ExpectationCollection::handle_call (proved separately: C08-C10)", trusted=False)
    def mkshared(ex, st, a, name):
        c, o = fresh_coll(); ex.store_raw(st, a[0], 8, c); ex.store_raw(st, ex.padd(a[0], 8), 8, o); return R(st)
    C(r"^(std::.* )?std::make_shared<mimicpp::ExpectationCollection<", mkshared, "std::make_shared (a fresh collection)")
    for c in ("Bn", "Bt", "Bv"):
        n = "vu::" + c; w = "opaque watched type " + n
        def mk(op, c=c):
            def f(ex, st, a, name):
                o = 8 if c == "Bv" else 0; d = lambda p: ex.padd(p, o)
                if op == "ctor": ex.store_raw(st, d(a[0]), 4, z3.Int("base_initial")); st.emit("base", op)
                elif op == "dtor": st.emit("base", op, ident(ex, st, d(a[0])))
                else:
                    v = ident(ex, st, d(a[1])); ex.store_raw(st, d(a[0]), 4, v); st.emit("base", op, v)
                return R(st, a[0] if op in ("acopy", "amove") else None)
            return f
        C(rf"^{n}::{c}\(\)", mk("ctor"), w + " constructor"); C(rf"^{n}::{c}\({n} const&\)", mk("copy"), w + " copy constructor"); C(rf"^{n}::{c}\({n}&&\)", mk("move"), w + " move constructor"); C(rf"^{n}::~{c}\(\)", mk("dtor"), w + " destructor")
        C(rf"^{n}::operator=\({n} const&\)", mk("acopy"), w + " copy assignment"); C(rf"^{n}::operator=\({n}&&\)", mk("amove"), w + " move assignment")
    r = unit.layout.find(r"mimicpp::LifetimeWatcher"); s.of, s.op = r.off("m_HasDestructExpectation", r"^_?[bB]ool"), r.off("m_DestructionMock", r"unique_ptr<"); s.orl = unit.layout.find(r"mimicpp::RelocationWatcher").off("m_RelocationMock", r"Mock<")
    return s
class Obj:
    """a watched object (or a bare watcher): its parts by offset"""
    def __init__(o, s, N, name, alive=True, dest=False):
        o.s = s; o.N = N; ex, unit, st = s.ex, s.unit, s.st; bare = N in "LR"; o.base = None if bare else N[-2:]; o.ws = N if bare else N[:-2]
        o.at = {w: (0 if bare else off_of(ex, unit, f"vu::{N}_{w}")) for w in o.ws}; o.bo = None if bare else off_of(ex, unit, f"vu::{N}_base") + (8 if o.base == "Bv" else 0)
        rec = unit.layout.find({"L": "mimicpp::LifetimeWatcher", "R": "mimicpp::RelocationWatcher"}[N] if bare else r"^mimicpp::Watched<.*vu::%s, %s>" % (o.base, ", ".join("(class )?mimicpp::" + {"L": "LifetimeWatcher", "R": "RelocationWatcher"}[w] for w in o.ws)), pick=True); o.size = rec.size
        o.b = ex.new_block(st, name, "undef", rec.size); o.p = Ptr(o.b); d = st.mem[o.b] = {}; o.cells = []
        if alive:
            for w in o.ws:
                a = o.at[w]; c, ow = s.coll(f"{name}'s {w}")
                if w == "L":
                    m = ex.new_block(st, f"{name}'s mock", "undef", 16); st.mem[m] = {0: (8, c), 8: (8, ow)}; d[a + s.of] = (1, z3.Bool(name + "_expected")); d[a + s.op] = (8, Ptr(m) if alive != "moved" else NULL)
                    if alive == "moved": del st.mem[m]
                else: d[a + s.orl] = (8, c); d[a + s.orl + 8] = (8, ow)
            if o.base: v = z3.Int(name + "_data"); st.assume(z3.And(v >= -(1 << 31), v <= INT_MAX)); d[o.bo] = (4, v)
        o.ptrs = [(o.b, o.at[w] + s.op) for w in o.ws if w == "L"]
# ------------------------------------------------ the specification, part by part: op(state) -> [(guard, kind, state)]
def get(st, o, k): return st.mem[o.b][k][1]
def put(st, o, k, sz, v): d = dict(st.mem[o.b]); d[k] = (sz, v); st.mem[o.b] = d
def call(s, st, c):
    k = len(st.trace); st.emit("handle_call", c); t = z3.Bool(f"call_fails!{k}"); u = st.copy(); return [(z3.Not(t), "ret", st), (t, "throw", u)]
def fresh_lifetime(s, st, o, a):
    c, w = s.fresh_coll(); m = s.ex.new_block(st, "spec mock", "undef", 16); st.mem[m] = {0: (8, c), 8: (8, w)}; put(st, o, a + s.op, 8, Ptr(m)); put(st, o, a + s.of, 1, False)
def free(st, p):
    if isinstance(p, Ptr) and p.base in st.mem: del st.mem[p.base]
def part(s, w, op, st, o, x):
    """operation op on watcher w of object o (from x)"""
    a = o.at[w]
    if w == "L":
        p = get(st, o, a + s.op) if op in ("acopy", "amove", "dtor") else None
        def report(st):          # the old object ends: reported once, and not watched any more
            if exe.veq(p, NULL): return [(True, "ret", st)]
            put(st, o, a + s.op, 8, NULL); c = st.mem[p.base][0][1]; r = call(s, st, c)
            for _, _, t in r: free(t, p)
            return r
        if op in ("ctor", "copy"): fresh_lifetime(s, st, o, a); return [(True, "ret", st)]
        if op == "move": put(st, o, a + s.op, 8, get(st, x, a + s.op)); put(st, o, a + s.of, 1, get(st, x, a + s.of)); put(st, x, a + s.op, 8, NULL); return [(True, "ret", st)]
        if op == "amove":
            q = get(st, x, a + s.op); put(st, x, a + s.op, 8, NULL); put(st, o, a + s.op, 8, q); put(st, o, a + s.of, 1, get(st, x, a + s.of))
            if o is not x: free(st, p)
            return [(True, "ret", st)]
        if op == "dtor": return report(st)
        r = report(st)
        for _, k, t in r:
            if k == "ret": fresh_lifetime(s, t, o, a)
        return r
    A, A8 = a + s.orl, a + s.orl + 8
    if op in ("ctor", "copy", "acopy"):
        c, w2 = s.fresh_coll(); put(st, o, A, 8, c); put(st, o, A8, 8, w2); return [(True, "ret", st)]
    if op == "dtor": return [(True, "ret", st)]
    if op == "move": put(st, o, A, 8, NULL); put(st, o, A8, 8, NULL)
    c, w2 = get(st, x, A), get(st, x, A8); r = call(s, st, c)
    for _, k, t in r:
        if k == "ret": put(t, x, A, 8, NULL); put(t, x, A8, 8, NULL); put(t, o, A, 8, c); put(t, o, A8, 8, w2)
    return r
def seq(fs, st):
    """parts one after the other; fs: [(operation, undo when a later part fails)]"""
    done = [(True, "ret", st)]
    for i, (f, _) in enumerate(fs):
        nxt = []
        for g, k, t in done:
            if k != "ret": nxt.append((g, k, t)); continue
            for g2, k2, t2 in f(t):
                gg = b_and(g, g2)
                if k2 == "throw":          # undo what has been built, in reverse; a failure there ends the program
                    outs = [(gg, "throw", t2)]
                    for _, u in reversed(fs[:i]):
                        if u is None: continue
                        outs2 = []
                        for g3, k3, t3 in outs:
                            if k3 != "throw": outs2.append((g3, k3, t3)); continue
                            for g4, k4, t4 in u(t3): outs2.append((b_and(g3, g4), "throw" if k4 == "ret" else "term", t4))
                        outs = outs2
                    nxt += outs
                else: nxt.append((gg, k2, t2))
        done = nxt
    return done
def base_op(s, o, op, x):
    def f(st):
        if op == "ctor": v = z3.Int("base_initial"); put(st, o, o.bo, 4, v); st.emit("base", op)
        elif op == "dtor": st.emit("base", op, get(st, o, o.bo))
        else: v = get(st, x, o.bo); put(st, o, o.bo, 4, v); st.emit("base", op, v)
        return [(True, "ret", st)]
    return f
def whole(s, op, st, o, x):
    ctor = op in ("ctor", "copy", "move"); nothrow = o.base in NOTHROW.get(op, ())          # a failure ends the program at once
    fs = [(lambda t, w=w: part(s, w, op, t, o, x), (lambda t, w=w: part(s, w, "dtor", t, o, None)) if ctor and not nothrow else None) for w in o.ws]
    if op == "dtor":
        # every part is destroyed even if an earlier one fails
        order = ([base_op(s, o, "dtor", None)] if o.base else []) + [f for f, _ in reversed(fs)]; done = [(True, "ret", st)]
        for f in order:
            nxt = []
            for g, k, t in done:
                for g2, k2, t2 in f(t): nxt.append((b_and(g, g2), "term" if k == "term" or (k == "throw" and k2 == "throw") else "throw" if "throw" in (k, k2) else "ret", t2))
            done = nxt
        return done
    if o.base: fs.append((base_op(s, o, op, x), base_op(s, o, "dtor", None)))
    return seq(fs, st)
NOTHROW = {"dtor": ("Bn",), "move": ("Bn",), "amove": ("Bn",)}
def p_op(unit, N, op, how=""):
    """one special member of a watcher or a watched object"""
    s = setup(unit); ex = s.ex; st = s.st; new_ = op in ("ctor", "copy", "move")
    o = Obj(s, N, "object", alive=not new_ and ("moved" if how == "moved" else True)); x = None
    if op not in ("ctor", "dtor"): x = o if how == "self" else Obj(s, N, "other")
    pre = st.copy(); args = [o.p] + ([x.p] if x else []); outs = ex.run(unit.fn(rf"^vu::{N}_{op}\("), args, st); specs = []
    for g, k, t in whole(s, op, pre.copy(), o, x):
        if k == "throw":
            if o.base in NOTHROW.get(op, ()): k = "term"
            else: t.exc = (None, None, TAG); t.uncaught = add(t.uncaught, 1)
        specs.append((g, k, {"term": "terminate", "throw": None, "ret": o.p if op in ("acopy", "amove") else None}[k], t))
    specs = [sp for sp in specs if sp[0] is not False]
    objs = [o] + ([x] if x and x is not o else []); lab = f"{N} {op} {how}::"; gone = {o.b} if op == "dtor" else set()
    def same(t, y, t2, z, seen):
        """equal pointers; a collection made by the operation is any collection made by the operation and used only once"""
        if isinstance(z, Ptr) and z.base in s.fresh:
            if not (isinstance(y, Ptr) and y.base in s.fresh and y.base not in seen): return False
            seen.add(y.base); return True
        return cell_eq(ex, t, y, t2, z)
    def post(t, t2, ob):
        seen = set(); cell = lambda u, b, k: (u.mem[b].get(k) or (8, None))[1]; n1 = n2 = 0
        for w in objs:
            if w.b in gone or (w is o and new_ and t.exc is not None): continue
            for c in w.ws:
                a = w.at[c]
                if c == "R": ob("relocations are reported to the right mock", b_and(*[same(t, cell(t, w.b, a + s.orl + i), t2, cell(t2, w.b, a + s.orl + i), seen) for i in (0, 8)])); continue
                y, z = cell(t, w.b, a + s.op), cell(t2, w.b, a + s.op)
                if isinstance(y, Zero): y = NULL
                if isinstance(z, Ptr) and exe.veq(z, NULL): ob("watches nothing any more", cell_eq(ex, t, y, t2, z)); continue
                if not isinstance(y, Ptr) or not isinstance(z, Ptr) or t.mem.get(y.base) is None or t2.mem.get(z.base) is None: ob("watches through a live mock", False); continue
                ob("watches through the right mock", b_and(*[same(t, cell(t, y.base, i), t2, cell(t2, z.base, i), seen) for i in (0, 8)]))
        heap = lambda u: len([b for b in u.mem if b.name in ("new", "spec mock", "object's mock", "other's mock")])
        ob("frees exactly the mocks that are no longer used", heap(t) == heap(t2))
    def ignored(kind):
        out = []
        for w in objs:
            if w.b in gone or kind == "term" or (w is o and new_ and kind == "throw"): out.append(w.b); continue
            keep = {w.bo} | ({w.at["L"] + s.of} if "L" in w.at and kind == "ret" else set()); out += [(w.b, k) for k in range(w.size) if k not in keep]
        return tuple(out)
    # every outcome has to fit all specified outcomes whose guards hold
    ex.fstack.append(lab)
    for k, v, t in outs:
        for g, k2, v2, t2 in specs:
            if k != k2:
                h = t.copy(); h.facts = h.facts + (zb(g),) if g is not True else h.facts; ex.oblige(h, f"outcome {k} only where specified", False, "contract")
    ex.fstack.pop()
    for kinds in (("ret",), ("throw",), ("term",)):
        oo = [y for y in outs if y[0] in kinds]; ss = [sp for sp in specs if sp[1] in kinds]
        if not oo: continue
        check(ex, pre, oo, ss, lab + kinds[0], ignore=ignored(kinds[0]) + tuple(b for b in pre.mem if b.name in ("object's mock", "other's mock")), post=post if kinds != ("term",) else None, exc_eq=lambda a, b: a.exc[2] is TAG or a.exc[2] == TAG)
    return ex
def p_expect(unit, w):
    """expect_destruct / expect_relocate"""
    s = setup(unit); ex = s.ex; st = s.st; o = Obj(s, w, "object"); m = re.escape("mimicpp::BasicExpectationBuilder<")
    fixed = ex.run(unit.fn(rf"^vu::{w}_fixed[\[(]"), [], State())[0][1]; got = {}
    for k in unit.layout.rec:
        if re.match(m, re.sub(r"\b(class|struct|enum) ", "", k)): r = Rec(unit.layout, k, *unit.layout.rec[k]); got.setdefault((r.size, r.off("m_Storage", r"shared_ptr<"), r.off("m_TimesConfig", r"TimesConfig "), r.off("m_ExpectationPolicies", r"tuple<")), r)
    if len(got) != 1: raise Unsupported("layout of the builder")
    (size, oS, oT, oP), r = next(iter(got.items())); b = ex.new_block(st, "builder", "undef", size); pre = st.copy(); flag = z3.Bool("object_expected")
    outs = ex.run(unit.fn(rf"^vu::{w}_expect\("), [Ptr(b), o.p], st); lab = {"L": "expect_destruct::", "R": "expect_relocate::"}[w]; sp = pre.copy(); specs = [(True if w == "R" else z3.Not(flag), "ret", None, sp)]
    if w == "L":
        put(sp, o, s.of, 1, True); sq = pre.copy(); sq.exc = (ex.run(unit.fn(r"^vu::logic[\[(]"), [], State())[0][1].base.name[1:], None, None); sq.uncaught = add(sq.uncaught, 1); specs.append((flag, "throw", None, sq))
    check(ex, pre, outs, specs, lab, ignore=(b,)); tr = unit.layout.find(r"mimicpp::detail::TimesConfig")
    c = get(pre, o, s.orl) if w == "R" else pre.mem[get(pre, o, s.op).base][0][1]
    ex.fstack.append(lab); live = []
    for k, v, t in outs:
        if k != "ret" or not ex.smt.feasible(t): continue
        live.append(t); ex.oblige(t, "for this object's mock", cell_eq(ex, t, ex.load(t, Ptr(b, oS), ll.PTR), t, c), "contract")
        ex.oblige(t, "exactly one call expected", b_and(*[eq_int(ex.load(t, Ptr(b, oT + tr.off(n_, r"^int ", j)), ll.INT(32)), 1) for n_, j in (("m_Min", 0), ("m_Max", 1))]), "contract")
    ex.oblige(pre, "the number of destructions is fixed" if w == "L" else "the number of relocations can still be chosen", exe.veq(fixed, w == "L") or (fixed == (w == "L")), "contract")
    if len(live) != 1: raise Unsupported("the expectation forks")
    t = live[0]; ib = ex.new_block(t, "info", "undef", 64); at = ex.new_block(t, "location", "undef", 8); t.mem[at] = {0: (8, Ptr(Region("location")))}
    t = ex.run(unit.fn(r"^vu::mk\("), [Ptr(ib), Ptr(at)], t)[0][2]; pre = t.copy(); check(ex, pre, ex.run(unit.fn(rf"^vu::{w}_ask\("), [Ptr(b, oP), Ptr(ib)], t), [(True, "ret", True, pre)], lab + "accepts the call"); ex.fstack.pop(); return ex
