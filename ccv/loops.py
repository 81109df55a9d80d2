"""Inductive loop summaries.

do_loop replaces a natural loop by a summary that is derived from one
symbolic iteration k >= 0:
  * cells which every iteration advances by a constant are given their closed
    form v0 + c*k (checked: value after iteration k == closed form at k+1),
  * every other cell that changes becomes A(k), with A(0) = value at entry and
    A(j+1) = step(A(j), j) for every completed iteration j (definitional),
  * all completed iterations j < k satisfied the continue condition,
  * candidate invariants (supplied by the contracts) A(k) == F(k) are used only
    after base case and inductive step have been proved.
There is no bound on k.  Loops with concretely known trip count are executed."""
import z3, itertools, re
from core import *
import exe
from exe import veq, PathEnd

def cells_of(st):
    for r, d in st.mem.items():
        for o, (sz, v) in d.items(): yield ("m", r, o), (sz, v)

def diff(st0, st1):
    """locations existing before the loop whose value differs afterwards"""
    out = {}
    for r, d in st0.mem.items():
        e = st1.mem.get(r)
        if e is d: continue
        if e is None: raise Unsupported("object destroyed inside loop")
        for o in set(d) | set(e):
            a, b = d.get(o), e.get(o)
            if a is not None and b is not None and a[0] == b[0] and veq(a[1], b[1]): continue
            out[("m", r, o)] = (a, b)
    for r in set(st0.fam) | set(st1.fam):
        d, e = st0.fam.get(r, {}), st1.fam.get(r, {})
        for o in set(d) | set(e):
            if o in d and o in e and veq(d[o], e[o]): continue
            if o not in d: continue            # first touched, initial value
            out[("f", r, o)] = (d.get(o), e.get(o))
    for r in set(st0.flen) | set(st1.flen):
        if not veq(st0.flen.get(r), st1.flen.get(r)): out[("l", r, 0)] = (st0.flen.get(r), st1.flen.get(r))
    for g in set(st0.ghost) | set(st1.ghost):
        if not veq(st0.ghost.get(g), st1.ghost.get(g)): out[("g", g, 0)] = (st0.ghost.get(g), st1.ghost.get(g))
    return out

def get(st, loc):
    t, r, o = loc
    if t == "m":
        x = st.mem[r].get(o); return None if x is None else x[1]
    if t == "f": return st.fam[r][o]
    if t == "l": return st.flen[r]
    return st.ghost.get(r)
def put(st, loc, v, size):
    t, r, o = loc
    if t == "m":
        d = dict(st.mem[r])
        for x in list(d):
            if x != o and x < o + size and x + d[x][0] > o: del d[x]
        d[o] = (size, v); st.mem[r] = d
    elif t == "f":
        d = dict(st.fam[r]); d[o] = v; st.fam[r] = d
    elif t == "l": st.flen[r] = v
    else: st.ghost[r] = v

class Ind:        # v0 + c*k
    def __init__(s, v0, c, size): s.v0, s.c, s.size = v0, c, size
    def at(s, ex, k):
        d = mul(s.c, k) if not (isinstance(k, int) and k == 0) else 0
        v = s.v0
        if isinstance(v, Ptr): return ex.padd(v, d)
        return add(v, d)
class Havoc:      # dead at loop entry: unknown value, any use is rejected
    def __init__(s, size): s.size = size
    def at(s, ex, k): return UNDEF
class Acc:
    n = itertools.count()
    def __init__(s, kind, v0, size, iters, stride=None):
        s.kind = kind; s.v0 = v0; s.size = size; s.stride = stride
        rng = z3.BoolSort() if kind == "bool" else v0.sort() if kind == "arr" else z3.IntSort()
        s.fn = z3.Function(f"A!{next(Acc.n)}", *([z3.IntSort()] * (len(iters) + 1)), rng); s.iters = list(iters)
    def term(s, k): return s.fn(*s.iters, zi(k))
    def at(s, ex, k):
        t = s.term(k)
        if s.kind in ("int", "bool", "arr"): return t
        if s.kind[0] == "ptr": return exe.Ptr(s.kind[1], s.v0.off, t)
        if s.kind[0] == "bptr": return exe.Ptr(s.kind[1], t)
        if s.kind[0] == "ghost": return Ghost(s.kind[1], t, s.size)
    def raw(s, v):
        """term of a concrete value of this kind"""
        if s.kind == "int":
            if isinstance(v, Zero): v = 0
            if isinstance(v, Undef) or v is None: return None
            if isbool(v): v = ite(v, 1, 0)
            if not isnum(v): raise Unsupported(f"loop-carried {v}")
            return zi(v)
        if s.kind == "bool":
            if isinstance(v, Undef) or v is None: return None
            if isinstance(v, Zero): v = False
            if isnum(v): v = b_not(eq_int(v, 0))
            return zb(v)
        if s.kind == "arr": return v
        if s.kind[0] == "ptr":
            if isinstance(v, Undef) or v is None: return None
            if not (isinstance(v, Ptr) and v.base is s.kind[1] and veq(v.off, s.v0.off)): raise Unsupported(f"loop-carried pointer {v}")
            return zi(v.idx)
        if s.kind[0] == "ghost":
            if v is None or isinstance(v, Undef): return None
            if not isinstance(v, Ghost): raise Unsupported("loop-carried ghost")
            return zi(v.t) if not is_sym(v.t) else v.t
        raise Unsupported("loop-carried value")

def conj_atoms(cs):
    out = []
    for c in cs:
        st = [c]
        while st:
            x = st.pop()
            if z3.is_and(x): st.extend(x.children())
            else: out.append(x)
    return out

def suffix(base, pc):
    n = len(base)
    assert len(pc) >= n
    return list(pc[n:])

def do_loop(ex, fr, h, prev, env, st):
    f = fr.fn; body = f.loops[h]
    # --- 1. try plain execution: exact when the loop terminates concretely
    snap = (ex.recording, len(ex.obs), ex.npaths)
    try:
        res = unroll(ex, fr, h, prev, env, st.copy(), body)
        if res is not None: return res
    except Unsupported as e:
        if "object destroyed" in str(e): raise
        raise
    del ex.obs[snap[1]:]
    snap = (ex.recording, len(ex.obs), ex.nfresh, list(ex.iters))
    try:
        first = peel(ex, fr, h, prev, env, st, body)
        if first is not None: return first
        try: return summarise(ex, fr, h, prev, env, st, body)
        except Unsupported:
            if not EAGER[0]: raise
            EAGER[0] = False; ex.recording, ex.nfresh, ex.iters = snap[0], snap[2], list(snap[3]); del ex.obs[snap[1]:]
            try: return summarise(ex, fr, h, prev, env, st, body)
            finally: EAGER[0] = True
    except Unsupported as e:
        raise Unsupported(f"loop in {ex.short(f.name)[:80]}: {e}")

def unroll(ex, fr, h, prev, env, st, body):
    cur = [((prev, env), st)]; out = []
    n = 0
    while cur:
        nxt = []
        for (p, e), t in cur:
            rs = ex.region(fr, h, p, e, t, h, body)
            backs = [r for r in rs if r[0] == "back"]; other = [r for r in rs if r[0] != "back"]
            out += other
            if backs and other and not concrete_progress(ex, other, n): return None
            for _, pe, t2 in backs: nxt.append((pe, t2))
        cur = nxt; n += 1
        if n > 64 or len(cur) > (300 if n_bounded(ex) else 8): return None
    return out
def peel(ex, fr, h, prev, env, st, body):
    """a flag that is set by the first iteration only (bool first): the first iteration is executed, the others are summarised"""
    def once(p, e, t): rs = ex.region(fr, h, p, dict(e), t.copy(), h, body); return [r for r in rs if r[0] == "back"], [r for r in rs if r[0] != "back"]
    def flags(a, b):
        return {loc for loc, (x, y) in diff(a, b).items() if loc[0] == "m" and x is not None and y is not None and x[0] == y[0] == 1 and conc(x[1]) is not None and conc(y[1]) is not None and conc(x[1]) != conc(y[1])}
    rec, nf = ex.recording, ex.nfresh; ex.recording = False
    try:
        backs, _ = once(prev, env, st)
        if not backs or len(backs) > 4: return None
        fl = set.intersection(*[flags(st, b[2]) for b in backs])
        if not fl: return None
        for _, (p, e), t in backs:
            again, _ = once(p, e, t)
            for b in again: fl -= set(diff(t, b[2]))
        if not fl: return None
    except Unsupported: return None
    finally: ex.recording = rec; ex.nfresh = nf
    backs, out = once(prev, env, st)
    for _, (p, e), t in backs: out += summarise(ex, fr, h, p, e, t, body)
    return out
def conc(v):
    if isinstance(v, Zero): return 0
    return int(v) if isinstance(v, (bool, int)) else None
def concrete_progress(ex, other, n):
    """an early exit by exception/termination does not make the trip count symbolic"""
    return all(o[0] in ("throw", "term") for o in other) or n_bounded(ex)
def n_bounded(ex): return getattr(ex, "force_unroll", False)

def summarise(ex, fr, h, prev, env, st, body):
    rec = ex.recording
    ex.recording = False
    nob = len(ex.obs)
    model = {}                     # loc -> Ind | Acc
    base_trace = st.trace
    ex.nfresh += 1; k = z3.Int(f"k!{ex.nfresh}")
    lemmas = []                    # light facts about k: functions k -> Bool
    env0 = dict(env)
    def start(kk, heavy=True):
        t = st.copy()
        for loc, m in model.items(): put(t, loc, m.at(ex, kk), m.size)
        for l in lemmas: t.assume(l(kk))
        return t
    cond_cache = [None]
    fresh0 = ex.nfresh
    def iterate():
        ex.nfresh = fresh0
        t = st.copy(); t.assume(k >= 0)
        for loc, m in model.items(): put(t, loc, m.at(ex, k), m.size)
        for l in lemmas:
            c = l(k)
            if c is not True: t.assume(c)
        npc = len(t.pc)
        for m in model.values():
            if isinstance(m, Acc) and m.kind == "int" and m.size in (1, 2, 4, 8) and getattr(m, "bits", None):
                a = m.term(k); t.assume(z3.And(a >= -(1 << m.bits-1), a < (1 << m.bits-1)))
        t0 = t.copy()
        if ex.trace_loop_marker: t.trace = t.trace + (("loopmark", k),); t0 = t.copy()
        ex.iters.append(k)
        try: outs = ex.region(fr, h, prev, dict(env0), t, h, body)
        finally: ex.iters.pop()
        return t0, outs
    # --- discover changed cells
    for rnd in range(12):
        t0, outs = iterate()
        backs = [o for o in outs if o[0] == "back"]
        if not backs:
            break
        changed = False
        for _, _, t1 in backs:
            for loc, (a, b) in diff(t0, t1).items():
                va = a[1] if loc[0] == "m" and a is not None else a if loc[0] != "m" else None
                vb = b[1] if loc[0] == "m" and b is not None else b if loc[0] != "m" else None
                m = model.get(loc)
                if isinstance(m, Havoc): continue
                if isinstance(m, Acc):
                    try: m.raw(vb)
                    except Unsupported:
                        if not scratch(loc): raise
                        model[loc] = Havoc(m.size); changed = True
                    continue
                size = (a or b)[0] if loc[0] == "m" else 0
                if loc[0] == "m" and a is not None and b is not None and a[0] != b[0]:
                    raise Unsupported("loop-carried cell changes size")
                if isinstance(m, Ind):
                    if stepc(ex, va, vb) == m.c: continue
                    # is it still v0 + c*(k+1) on this path?
                    model[loc] = mkacc0(ex, m.v0, vb, m.size, loc, st); changed = True; continue
                c = stepc(ex, va, vb) if va is not None else None
                v0 = get(st, loc)
                if c is not None and all_step(ex, backs, t0, loc, c): model[loc] = Ind(v0, c, size)
                else: model[loc] = mkacc0(ex, v0, vb, size, loc, st)
                changed = True
        # an Ind cell must advance on *every* back edge
        for loc, m in list(model.items()):
            if isinstance(m, Ind):
                for _, _, t1 in backs:
                    if stepc(ex, get(t0, loc), get(t1, loc)) != m.c:
                        model[loc] = mkacc0(ex, m.v0, get(t1, loc), m.size, loc, st); changed = True; break
        if not changed:
            # --- monotone bound lemmas from "!=" exit tests
            if not add_lemmas(ex, st, k, t0, backs, lemmas, model): break
    else: raise Unsupported("loop summary does not stabilise")
    # --- final pass
    ex.recording = rec
    del ex.obs[nob:]
    iters = list(ex.iters)
    # continue condition of iteration k, from the last discovery pass
    def conds(t0, o):
        return suffix(t0.pc, o[2].pc), suffix(t0.facts, o[2].facts)
    cont = b_or(*[b_and(*(conds(t0, o)[0]), *(conds(t0, o)[1])) for o in backs]) if backs else False
    accs = [(loc, m) for loc, m in model.items() if isinstance(m, Acc)]
    j = z3.Int(f"j!{k}")
    def forall_before(body_k, K, pats=None):
        b = z3.substitute(skolem(zb(body_k), fresh0, iters + [k]), (k, j))
        return forall_range(b, j, K)
    steps = []
    for loc, m in accs:
        nxt = None
        for o in reversed(backs):
            c = b_and(*conds(t0, o)[0])
            v = m.raw(get(o[2], loc)) if not (loc[0] == "m" and loc[2] not in o[2].mem[loc[1]]) else None
            if v is None: continue
            nxt = v if nxt is None else z3.If(zb(c), v, nxt)
        steps.append((m, nxt))
    # --- candidate invariants for accumulators
    proved = []
    if accs and backs:
        proved = prove_candidates(ex, st, t0, k, accs, steps, cont, conds, backs)
    defs = []
    for m, nxt in steps:
        r0 = m.raw(m.v0)
        if r0 is not None: defs.append(m.term(0) == r0)
    def knowledge(t, K):
        """facts about the K completed iterations"""
        if cont is not True: t.know(forall_before(cont, K))
        for d in defs: t.know(d)
        for m, nxt in steps:
            if nxt is not None and not closed_form(m, proved, k) and not (ex.partial and any(occurs_fn(p, m.term(k)) for p in proved)):
                t.know(forall_before(m.term(k + 1) == nxt, K))
        for p in proved:
            if not (ex.partial and z3.is_quantifier(p)): t.know(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= K), z3.substitute(p, (k, j)))))
            (t.assume if ex.partial and (z3.is_ge(p) or z3.is_le(p)) else t.know)(z3.substitute(p, (k, zi(K))))
    # generic iteration with obligations on
    res = []
    if ex.trace_loop_marker: pass
    t = st.copy(); t.assume(k >= 0)
    for loc, m in model.items(): put(t, loc, m.at(ex, k), m.size)
    for l in lemmas:
        c = l(k)
        if c is not True: t.assume(c)
    knowledge(t, k)
    for m in model.values():
        if isinstance(m, Acc) and getattr(m, "bits", None):
            a = m.term(k); t.assume(z3.And(a >= -(1 << m.bits-1), a < (1 << m.bits-1)))
    tstart = t.copy()
    tl = len(t.trace); ex.nfresh = fresh0
    ex.iters.append(k)
    try: outs = ex.region(fr, h, prev, dict(env0), t, h, body)
    finally: ex.iters.pop()
    fb = [o for o in outs if o[0] == "back"]
    if len(fb) != len(backs) or not all(same_conj(suffix(tstart.pc, a[2].pc), conds(t0, b)[0]) for a, b in zip(fb, backs)):
        raise Unsupported("loop summary: unstable iteration")
    # the back paths' range obligations for int accumulators
    evs = []
    for o in outs:
        if o[0] == "back":
            ev = o[2].trace[tl:]
            evs.append((b_and(*suffix(tstart.pc, o[2].pc)), ev))
            for loc, m in accs:
                b = getattr(m, "bits", None)
                v = get(o[2], loc)
                if b and is_sym(v) and isnum(v):
                    ex.oblige(o[2], "loop-carried value in range", z3.And(v >= -(1 << b-1), v < (1 << b-1)))
    any_ev = any(e for _, e in evs)
    for o in outs:
        if o[0] == "back": continue
        t1 = o[2]
        if any_ev:
            t1.trace = st.trace + (("loop", k, tuple(evs)),) + t1.trace[tl:]
        res.append(o)
    ex.loops_done.append((ex.short(fr.fn.name), len(model), len(accs), len(proved)))
    return res

def occurs_fn(p, m):
    if z3.is_quantifier(p): return occurs_fn(p.body(), m)
    return p.eq(m) or any(occurs_fn(c, m) for c in p.children())
def closed_form(m, proved, k):
    """an invariant gives the value outright (the recurrence adds nothing but work)"""
    if m.kind in ("bool", "arr"): return False
    a = m.term(k)
    return any(z3.is_eq(p) and (p.arg(0).eq(a) or p.arg(1).eq(a)) for p in proved)
NAME = re.compile(r"!(\d+)$")
def skolem(b, fresh0, args):
    """constants introduced during one iteration (inner trip counts, fresh values)
    are different ones in every iteration: make them functions of the iteration"""
    sub_, seen, st = [], set(), [b]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            st.extend(x.children())
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(x.eq(a) for a in args):
                m = NAME.search(x.decl().name())
                if m and int(m.group(1)) > fresh0: sub_.append((x, z3.Function(x.decl().name() + "@", *[z3.IntSort()] * len(args), x.sort())(*args)))
    return z3.substitute(b, *sub_) if sub_ else b
def forall_range(b, j, K):
    """forall 0 <= j < K: b, restated once per array index form e(j) = rest +- j
    with the index itself as the bound variable (helps quantifier instantiation)"""
    forms = {}
    st = [b]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or z3.is_var(x): continue
        st.extend(x.children())
        args = []
        if z3.is_select(x): args = [x.arg(1)]
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args(): args = [c for c in x.children() if z3.is_int(c)]
        for a in args:
            if not z3.is_int(a) or not occurs(a, j): continue
            t, c = lin(a)
            me = [v for v in t.values() if v[0].eq(j)]
            if len(me) != 1 or abs(me[0][1]) != 1 or any(occurs(v[0], j) and not v[0].eq(j) for v in t.values()): continue
            rest = simp(zi(unlin({i: v for i, v in t.items() if not v[0].eq(j)}, c)))
            forms[(str(rest), me[0][1])] = (rest, me[0][1])
    fs = [z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < K), b))]
    for rest, sg in forms.values():
        if isinstance(rest, int) and rest == 0 and sg == 1: continue
        i = z3.Int(f"i!{j}")
        jj = zi(sub(i, rest)) if sg == 1 else zi(sub(rest, i))
        fs.append(z3.ForAll([i], z3.Implies(simp(z3.And(jj >= 0, jj < K)), z3.simplify(z3.substitute(b, (j, jj))))))
    return z3.And(*fs) if len(fs) > 1 else fs[0]

def same_conj(a, b):
    return len(a) == len(b) and all(x.eq(y) for x, y in zip(a, b))

def stepc(ex, a, b):
    """constant c with b == a + c, or None"""
    if isinstance(a, Zero): a = 0
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.base is NULLR or b.base is NULLR: return None
        if ex.same_base(a.base, b.base) is not True: return None
        try: d = ex.pdiff(b, a)
        except Unsupported: return None
        return d if isinstance(d, int) else None
    if isnum(a) and isnum(b):
        d = sub(b, a); return d if isinstance(d, int) else None
    return None
def all_step(ex, backs, t0, loc, c):
    return all(stepc(ex, get(t0, loc), get(o[2], loc)) == c for o in backs)

def scratch(loc): return loc[0] == "m" and isinstance(loc[1], Block) and loc[1].kind == "undef"
EAGER = [True]
def mkacc0(ex, v0, v, size, loc, st):
    if EAGER[0] and scratch(loc) and (v0 is None or isinstance(v0, Undef)): return Havoc(size)   # local of the body: any use before it is set again is rejected
    try:
        a = mkacc(ex, v0, v, size, loc, st); a.raw(v); return a
    except Unsupported:
        if not scratch(loc): raise
        return Havoc(size)
def mkacc(ex, v0, v, size, loc, st):
    it = ex.iters
    ref = v0 if v0 is not None and not isinstance(v0, (Undef,)) else v
    if loc[0] == "f": return Acc("arr", v0, 0, it)
    if isinstance(ref, Zero): ref = v
    if isinstance(ref, Ptr):
        if ref.idx is None: raise Unsupported("loop-carried pointer to separate objects")
        a = Acc(("ptr", ref.base), ref, size, it); a.v0 = ref if v0 is None or isinstance(v0, Undef) else v0
        if v0 is None or isinstance(v0, Undef):
            a.undef0 = True; raw = a.raw; a.raw = lambda x, raw=raw, ref=ref: None if x is ref else raw(x)
        return a
    if isbool(ref): return Acc("bool", v0, size, it)
    if isnum(ref) or isinstance(ref, Zero):
        a = Acc("int", v0, size, it)
        if loc[0] == "m": a.bits = 8*size
        return a
    if isinstance(ref, Ghost): return Acc(("ghost", ref.sort), v0, size, it)
    if isinstance(ref, z3.ArrayRef): return Acc("arr", v0, 0, it)
    raise Unsupported(f"loop-carried {v0!r} -> {v!r} at {loc}")

def add_lemmas(ex, st, k, t0, backs, lemmas, model):
    """d(k) != 0 tested on every continuing path, with d(k) = d0 +- k, keeps its sign"""
    n0 = len(lemmas)
    common = None
    for o in backs:
        at = {a.get_id(): a for a in conj_atoms(suffix(t0.pc, o[2].pc))}
        common = at if common is None else {i: a for i, a in common.items() if i in at}
    for a in (common or {}).values():
        x = None
        if z3.is_not(a) and z3.is_eq(a.arg(0)) and z3.is_int(a.arg(0).arg(0)): x = a.arg(0)
        elif z3.is_distinct(a) and z3.is_int(a.arg(0)): x = a
        elif z3.is_le(a) or z3.is_ge(a) or z3.is_lt(a) or z3.is_gt(a) or (z3.is_not(a) and (z3.is_le(a.arg(0)) or z3.is_ge(a.arg(0)) or z3.is_lt(a.arg(0)) or z3.is_gt(a.arg(0)))):
            # inequality test: c(k) held for all completed iterations; then c(k-1) held or k == 0
            i = a.arg(0) if z3.is_not(a) else a
            d = sub(i.arg(0), i.arg(1)); t, c = lin(d)
            kk = [v for v in t.values() if v[0].eq(k)]
            if not kk or abs(kk[0][1]) != 1: continue
            if any(occurs(v[0], k) and not v[0].eq(k) for v in t.values()): continue
            key = ("q", a.get_id())
            if key in lemma_keys(lemmas): continue
            lem = mk_ineq(a, k); lem.key = key; lem.keep = a
            lemmas.append(lem); continue
        if x is None: continue
        d = sub(x.arg(0), x.arg(1)); t, c = lin(d)
        kk = [v for v in t.values() if v[0].eq(k)]
        if not kk or abs(kk[0][1]) != 1: continue
        if any(occurs(v[0], k) and not v[0].eq(k) for v in t.values()): continue
        sgn = kk[0][1]; d0 = simp(z3.substitute(zi(d), (k, z3.IntVal(0))))
        if sgn == 1 and ex.smt.entails(st, simp(zi(d0) <= 0)): lem = mk_sign(d, k, True)
        elif sgn == -1 and ex.smt.entails(st, simp(zi(d0) >= 0)): lem = mk_sign(d, k, False)
        else: continue
        key = ("s", simp(zi(d)).get_id() if is_sym(d) else d)
        if key in lemma_keys(lemmas): continue
        lem.key = key; lem.keep = simp(zi(d)); lemmas.append(lem)
    return len(lemmas) > n0
def lemma_keys(ls): return {l.key for l in ls}
def mk_sign(d, k, le):
    def f(kk):
        e = z3.substitute(zi(d), (k, zi(kk)))
        return simp(e <= 0) if le else simp(e >= 0)
    return f
def mk_ineq(a, k):
    def f(kk):
        return simp(z3.Or(zi(kk) == 0, z3.substitute(a, (k, zi(kk) - 1)))) if not isinstance(kk, int) else True
    return f
def occurs(e, k):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(k): return True
        st.extend(x.children())
    return False

def prove_candidates(ex, st, t0, k, accs, steps, cont, conds, backs):
    """candidates: functions (ex, st, acc, k) -> list of Bool terms in k; kept only
    when the base case and the inductive step are valid (Houdini style: the whole
    set is assumed, members that fail are dropped until nothing fails)"""
    cands = []
    for c in ex.candidates:
        for loc, m in accs:
            for t in c(ex, st, m, k, loc) or ():
                cands.append(t)
    for m, nxt in steps:          # counters that might wrap around in principle
        if m.kind != "int" or nxt is None: continue
        v0 = m.raw(m.v0)
        if v0 is None: continue
        c = z3.simplify(z3.substitute(z3.substitute(zi(nxt), (m.term(k), zi(v0))), (k, z3.IntVal(0))) - zi(v0))
        if z3.is_int_value(c) and abs(c.as_long()) <= 16: cands.append(m.term(k) == zi(v0) + c.as_long() * k)
    if not cands: return []
    hyp_pc = list(t0.pc) + list(t0.facts)
    def valid(hyps, goal):
        s = z3.Solver(); s.set("timeout", 4000); s.set("auto_config", False); s.set("smt.mbqi", False)
        for h_ in hyps: s.add(zb(h_))
        s.add(z3.Not(goal)); ex.ncand = getattr(ex, "ncand", 0) + 1
        return s.check() == z3.unsat
    alive = []
    defs0 = []
    for m, nxt in steps:
        r0 = m.raw(m.v0)
        if r0 is not None: defs0.append(m.term(0) == r0)
    for c in cands:
        if valid(list(st.pc) + list(st.facts) + defs0, z3.substitute(c, (k, z3.IntVal(0)))): alive.append(c)
    while alive:
        hy = hyp_pc + alive + [zb(cont)] + [m.term(k + 1) == nxt for m, nxt in steps if nxt is not None]
        bad = [c for c in alive if not valid(hy, z3.substitute(c, (k, k + 1)))]
        if not bad: break
        ids = {b.get_id() for b in bad}
        alive = [c for c in alive if c.get_id() not in ids]
    return alive
