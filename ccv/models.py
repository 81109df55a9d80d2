"""Assumed contracts of the C++ runtime and libstdc++ (the trusted base).

Each entry states what the function does in terms of the symbolic state; the
list that was actually used in a run is reported in the evidence."""
import re, z3
from core import *
from exe import PathEnd, veq
import ll

def R(st, v=None): return [("ret", v, st)]

def assert_fail(ex, st, a, name):
    msg = cstr(ex, a[0])
    ex.oblige(st, f"assertion holds: {msg}", False, "assert")
    raise PathEnd()
def cstr(ex, p):
    try:
        c = ex.cmem[p.base]; o = p.off; r = bytearray()
        while True:
            x = c[o]
            if isinstance(x[1], Zero): break
            b = x[1] & 255
            if b == 0: break
            r.append(b); o += 1
        return r.decode("latin1")
    except Exception: return "?"
def term(ex, st, a, name): return [("term", "terminate", st)]
def nop(ex, st, a, name): return R(st)

def op_new(ex, st, a, name):
    if not isinstance(a[0], int): raise Unsupported("allocation of symbolic size")
    b = ex.new_block(st, "new", "undef", a[0])
    return R(st, Ptr(b))
def op_delete(ex, st, a, name):
    p = a[0]
    if isinstance(p, Ptr) and isinstance(p.base, Block) and p.base in st.mem:
        del st.mem[p.base]
    return R(st)

# ---- exceptions
def cxa_alloc(ex, st, a, name):
    b = ex.new_block(st, "exc", "undef", a[0] if isinstance(a[0], int) else None)
    return R(st, Ptr(b))
def cxa_throw(ex, st, a, name):
    return [ex.throw(st, a[1].base.name[1:], a[0])]
def cxa_begin(ex, st, a, name):
    st.caught = st.caught + (st.exc,); st.exc = None; st.uncaught = sub(st.uncaught, 1)
    return R(st, st.caught[-1][1])
def cxa_end(ex, st, a, name):
    st.caught = st.caught[:-1]; return R(st)
def cxa_rethrow(ex, st, a, name):
    if not st.caught: return [("term", "terminate", st)]
    e = st.caught[-1]
    return [ex.throw(st, *e)]
def current_exception(ex, st, a, name):
    # sret exception_ptr (8 bytes)
    if st.caught:
        e = st.caught[-1]
        g = Ghost("exception_ptr", exc_id(ex, e), 8)
    else: g = Ghost("exception_ptr", z3.Int("exception_handled_by_the_caller"), 8)
    if a and isinstance(a[0], Ptr): ex.store_raw(st, a[0], 8, g); return R(st)
    raise Unsupported("current_exception abi")
def exc_id(ex, e):
    d = ex.__dict__.setdefault("_excid", {})
    key = e[2] if e[2] is not None else id(e[1].base if isinstance(e[1], Ptr) else e)
    if is_sym(key): return key
    if key not in d: d[key] = 1000 + len(d)
    return d[key]
def uncaught(ex, st, a, name): return R(st, st.uncaught)

# ---- opaque values with copy semantics
def ghost_class(ex, rx, sort, size, moved="fresh", ctor_default=None, move_event=None, copy_event=None):
    """contracts for the special members of class `rx` (demangled name without
    template tail), whose value is one opaque term of `size` bytes"""
    n = rx
    def dst(st, p, t): ex.store_raw(st, p, size, Ghost(sort, t, size))
    def src(st, p):
        v = ex.load_raw(st, p, size, None)
        if isinstance(v, Undef): 
            ex.oblige(st, f"{sort}: source object is alive", False); raise PathEnd()
        if isinstance(v, Ghost) and v.sort == sort: return v.t
        raise Unsupported(f"{sort} read from {v}")
    def copy(ex, st, a, name):
        dst(st, a[0], src(st, a[1]))
        if copy_event: st.emit(copy_event)
        return R(st, None)
    def move(ex, st, a, name):
        t = src(st, a[1]); dst(st, a[0], t)
        if moved == "fresh" and not const_src(a[1]): dst(st, a[1], ex.fresh(sort + "_moved"))
        if move_event: st.emit(move_event)
        return R(st, None)
    def const_src(p): return isinstance(p.base, Block) and p.base.const
    def assign_copy(ex, st, a, name):
        dst(st, a[0], src(st, a[1])); return R(st, a[0])
    def assign_move(ex, st, a, name):
        t = src(st, a[1]); dst(st, a[0], t)
        if not (veq(a[0], a[1])): dst(st, a[1], ex.fresh(sort + "_moved"))
        return R(st, a[0])
    def dtor(ex, st, a, name):
        return R(st)
    cn = re.escape(n.split("::")[-1].split("<")[0]) if not n.startswith("^") else None
    return dict(copy=copy, move=move, assign_copy=assign_copy, assign_move=assign_move, dtor=dtor, src=src, dst=dst)

def install_runtime(ex):
    C = ex.contract
    C(r"^__assert_fail$", assert_fail, "__assert_fail (failing assertion = obligation)")
    C(r"^__clang_call_terminate$", term, "std::terminate"); C(r"^std::terminate\(\)", term, "std::terminate")
    C(r"^abort$", term, "abort")
    C(r"^operator new\(unsigned long\)$", op_new, "operator new: fresh object, no bad_alloc")
    C(r"^operator delete\(void\*(, unsigned long)?\)$", op_delete, "operator delete")
    C(r"^__cxa_allocate_exception$", cxa_alloc, "__cxa_allocate_exception"); C(r"^__cxa_free_exception$", nop, "__cxa_free_exception")
    C(r"^__cxa_throw$", cxa_throw, "__cxa_throw"); C(r"^__cxa_begin_catch$", cxa_begin, "__cxa_begin_catch")
    C(r"^__cxa_end_catch$", cxa_end, "__cxa_end_catch"); C(r"^__cxa_rethrow$", cxa_rethrow, "__cxa_rethrow")
    C(r"^__cxa_guard_acquire$", guard_acquire, "__cxa_guard_acquire/release (a static is initialised once, now or earlier)"); C(r"^__cxa_guard_release$", guard_release, "__cxa_guard_acquire/release (a static is initialised once, now or earlier)")
    C(r"^__cxa_guard_abort$", nop, "__cxa_guard_abort"); C(r"^__cxa_atexit$", lambda ex, st, a, n: R(st, 0), "__cxa_atexit")
    C(r"^std::current_exception\(\)", current_exception, "std::current_exception")
    C(r"^std::uncaught_exceptions\(\)", uncaught, "std::uncaught_exceptions")
    for e in ("runtime_error", "invalid_argument", "logic_error", "out_of_range"):
        C(rf"^std::{e}::{e}\(", exc_ctor, f"std::{e} constructor")
    C(r"^std::(runtime_error|invalid_argument|logic_error|out_of_range|exception)::~", nop, "std exception destructor")
    C(r"^std::__throw_", std_throw, "libstdc++ __throw_* (throws the named exception)")
def guard_acquire(ex, st, a, name):
    st.ghost[("guard", a[0].base)] = st.copy(); return R(st, 1)
def closed(v):
    """does not depend on anything the contract leaves open"""
    if isinstance(v, Ghost): v = v.t
    if isinstance(v, Ptr): return isinstance(v.off, int) and v.idx is None and not isinstance(v.base, Param) and (v.base is NULLR or v.base.name.startswith("@"))
    if not isinstance(v, z3.ExprRef): return isinstance(v, (int, bool, Zero, Undef))
    if z3.is_const(v): return z3.is_int_value(v) or z3.is_true(v) or z3.is_false(v) or v.decl().name().startswith("lit:")
    return all(closed(c) for c in v.children())
def guard_release(ex, st, a, name):
    """the static was initialised now, or by an earlier call (then its parts that depend on that call are arbitrary)"""
    g = a[0].base; was = st.ghost.pop(("guard", g)); ex.store_raw(st, a[0], 1, 1); was.ghost.pop(("guard", g), None)
    obj = ex.gptr("_Z" + g.name[len("@_ZGV"):]).base; cells = st.mem.get(obj, {})
    if len(st.trace) == len(was.trace) and all(closed(v) for n, v in cells.values()): return R(st)
    old = was; old.pc, old.facts = st.pc, st.facts; new = {}
    for o, (n, v) in cells.items():
        if closed(v): new[o] = (n, v); continue
        if isinstance(v, Ghost) and isinstance(v.t, z3.ExprRef): w = Ghost(v.sort, z3.FreshConst(v.t.sort()), v.size)
        elif isinstance(v, z3.ExprRef) and v.sort() == z3.IntSort(): w = ex.fresh_int(old, "static", 8 * n)
        elif isinstance(v, z3.ExprRef): w = z3.FreshConst(v.sort())
        elif isinstance(v, PInt): w = PInt(Ptr(Region("what an earlier call kept")))
        elif isinstance(v, Ptr): w = Ptr(Region("what an earlier call kept"))
        else: raise Unsupported(f"static that keeps {v}")
        new[o] = (n, w)
    old.mem[obj] = new; ex.store_raw(old, a[0], 1, 1)
    return [("ret", None, st), ("ret", None, old)]
def exc_ctor(ex, st, a, name): return R(st)
def std_throw(ex, st, a, name):
    d = ex.dem(name); m = re.match(r"std::__throw_(\w+)\(", d)
    e = m.group(1); e = {"out_of_range_fmt": "out_of_range"}.get(e, e)
    ti = f"_ZTISt{len(e)}{e}"
    b = ex.new_block(st, "exc", "undef", 16)
    return [ex.throw(st, ti, Ptr(b))]

# ---- std::vector growth
def vec_push(ex, st, vp, put):
    """append one element: put(element pointer) writes it; returns pointer to it.
    Modelled in place: element addresses are kept (iterator invalidation is not
    tracked), capacity is unbounded, allocation does not fail."""
    fin = ex.load(st, ex.padd(vp, 8), ll.PTR)
    put(fin)
    return fin
