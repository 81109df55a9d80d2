"""Symbolic execution of LLVM IR functions with contracts.

run(fn, args, st) explores every path of a function.  A callee that has a
contract is replaced by it, every other callee is executed.  Loops whose trip
count is not concrete are replaced by their (automatically derived) inductive
summary; see loop().  Anything not understood raises Unsupported, which makes
the property *undecided* - never violated, never proved."""
import sys, re, z3, itertools
from core import *
import ll
sys.setrecursionlimit(20000)

class Ob:
    __slots__ = ("name", "hyps", "goal", "fn", "kind", "status", "model", "time", "backend")
    def __init__(s, name, hyps, goal, fn, kind): s.name=name; s.hyps=hyps; s.goal=goal; s.fn=fn; s.kind=kind; s.status=None; s.model=None; s.time=0; s.backend=None

class Frame:
    __slots__ = ("fn", "blocks", "allocas")
    def __init__(s, fn): s.fn = fn; s.blocks = []; s.allocas = {}

class Exec:
    MAXPATH = 20000
    def __init__(s, mod):
        s.m = mod; s.smt = Smt(); s.contracts = []; s.ccache = {}; s.obs = []; s.recording = True
        s.iters = []; s.gb = {}; s.cmem = {}; s.fstack = []; s.nfresh = 0; s.used = {}; s.inlined = {}
        s.npaths = 0; s.loops_done = []; s.candidates = []; s.partial = False; s.mutglob = {}; s.at_start = False; s.vslots = {}; s.unroll_cap = 6
        s.finit = {}; s.trace_loop_marker = False; s.hints = None       # hints: state -> ground instances of assumed quantified facts

    # ------------------------------------------------------------ helpers
    def fresh(s, name, sort=None):
        sort = sort or z3.IntSort()
        s.nfresh += 1; n = f"{name}!{s.nfresh}"
        if s.iters:
            f = z3.Function(n, *([z3.IntSort()] * len(s.iters)), sort)
            return f(*s.iters)
        return z3.Const(n, sort)
    def fresh_int(s, st, name, bits):
        v = s.fresh(name)
        st.assume(z3.And(v >= -(1 << bits-1), v < (1 << bits-1)))
        return v
    def oblige(s, st, name, goal, kind="safety"):
        goal = simp(goal) if is_sym(goal) else goal
        if not s.recording:
            if goal is not False: st.assume(goal)
            return
        fn = s.fstack[-1] if s.fstack else "?"
        if goal is True:
            o = Ob(name, None, True, fn, kind); o.status = "trivial"; s.obs.append(o); return
        s.obs.append(Ob(name, (st.pc, st.facts + tuple(s.hints(st)) if s.hints and kind == 'contract' else st.facts), zb(goal), fn, kind))
        if goal is not False: st.assume(goal)
    def dem(s, n): return s.m.dem.get(n) or ll.demangle([n])[n]

    # ------------------------------------------------------------ contracts
    def contract(s, rx, fn=None, name=None, trusted=True):
        """register a contract for every function whose demangled name matches rx"""
        s.contracts.insert(0, (re.compile(rx), fn, name or rx, trusted)); s.ccache.clear()
    def find_contract(s, n):
        if n in s.ccache: return s.ccache[n]
        d = s.dem(n); r = None
        for rx, fn, nm, tr in s.contracts:
            if rx.search(d) or rx.search(n): r = (fn, nm, tr); break
        if r is not None and r[0] is None: r = None      # explicit "inline this"
        s.ccache[n] = r
        return r

    # ------------------------------------------------------------ globals
    def gptr(s, name):
        name = s.m.aliases.get(name, name)
        if name in s.m.funcs or name in s.m.decls:
            r = s.gb.get(name)
            if r is None: r = s.gb[name] = FuncR(name)
            return Ptr(r)
        r = s.gb.get(name)
        if r is None:
            gi = s.m.global_init(name)
            if gi is None: raise Unsupported("global " + name)
            const, ty, init = gi
            if init is None and ty.k != "ptr" and s.m.resolve(ty).k == "opaque": size = None
            else:
                try: size = s.m.size(ty)
                except ll.ParseError: size = None
            r = Block("@" + name, "const" if const and init else ("ext" if init is None else "undef"), size, const=bool(const and init))
            s.gb[name] = r
            if init is not None:
                cells = {}; s.init_cells(cells, 0, ty, init)
                if const: s.cmem[r] = cells
                elif s.at_start or name.startswith("_ZGV") or "7mimicpp" not in name: s.mutglob[r] = cells
                else: r.kind = "sym"; s.mutglob[r] = {}       # state that outlives calls: arbitrary when a contract starts
            else: s.cmem[r] = {}
        return Ptr(r)
    def init_cells(s, cells, off, ty, op):
        rt = s.m.resolve(ty)
        k = op[0]
        if k == "zero":
            sz = s.m.size(ty)
            if sz: cells[off] = (sz, ZERO)
        elif k == "undef":
            pass
        elif k == "agg":
            if rt.k == "struct":
                _, _, offs = s.m.layout(rt)
                for (et, ev), o in zip(op[1], offs): s.init_cells(cells, off + o, et, ev)
            else:
                es = s.m.size(rt.a[1])
                for i, (et, ev) in enumerate(op[1]): s.init_cells(cells, off + i*es, et, ev)
        elif k == "str":
            for i, b in enumerate(op[1]): cells[off + i] = (1, norm(b, 8))
        else:
            cells[off] = (s.m.size(ty), s.val(None, op, ty))

    # ------------------------------------------------------------ operands
    def val(s, env, op, ty):
        k = op[0]
        if k == "local": return env[op[1]]
        if k == "int":
            if ty.k == "int" and ty.a == 1: return bool(op[1])
            return norm(op[1], ty.a)
        if k == "global": return s.gptr(op[1])
        if k == "null": return NULL
        if k == "undef": return UNDEF
        if k == "zero":
            rt = s.m.resolve(ty)
            if rt.k == "ptr": return NULL
            if rt.k == "int": return False if rt.a == 1 else 0
            if rt.k == "struct": return [s.val(env, op, e) for e in rt.a[0]]
            if rt.k in ("array", "vector"): return [s.val(env, op, rt.a[1]) for _ in range(rt.a[0])]
            if rt.k in ("float", "double", "x86_fp80"): return Fp(0.0)
        if k == "fp": return Fp(op[1])
        if k == "agg": return [s.val(env, v, t) for t, v in op[1]]
        if k == "ce":
            if op[1] == "gep":
                ops = op[3]
                base = s.val(env, ops[0][1], ops[0][0])
                return s.gep(op[2], base, [(t, s.val(env, v, t)) for t, v in ops[1:]])
            if op[1] == "cast":
                return s.cast(None, op[2], op[3], s.val(env, op[4], op[3]), op[5])
            if op[1] == "bin" and op[2] == "sub":
                return s.binop(None, "sub", op[3], s.val(env, op[4], op[3]), s.val(env, op[5], op[3]), ())
        raise Unsupported("operand " + str(op)[:80])

    # ------------------------------------------------------------ pointers
    def padd(s, p, d):
        """pointer + d bytes"""
        if isinstance(p, Undef): raise Unsupported("arith on undef pointer")
        if isinstance(p, PInt): return PInt(p.p, add(p.d, d))
        if not isinstance(p, Ptr): raise Unsupported("pointer arithmetic on " + repr(p))
        if isinstance(d, int) and d == 0: return p
        if p.idx is None: return Ptr(p.base, add(p.off, d))
        fam = p.base.fam if isinstance(p.base, Param) else p.base
        off = add(p.off, d)
        return s.normp(p.base, fam, p.idx, off)
    def normp(s, base, fam, idx, off):
        S = fam.stride
        if isinstance(off, int):
            if S and not 0 <= off < S: return Ptr(base, off % S, add(idx, off // S))
            return Ptr(base, off, idx)
        if not S: raise Unsupported("symbolic offset in opaque object")
        t, c = lin(off)
        for _, (x, k) in t.items():
            if k % S: raise Unsupported(f"offset {off} not a multiple of {S}")
        q = unlin({i: (x, k//S) for i, (x, k) in t.items()}, c // S)
        return Ptr(base, c % S, add(idx, q))
    def gep(s, bty, p, idx):
        off = 0; ty = bty
        first = True
        for t, v in idx:
            if isinstance(v, (PInt, Packed, Undef)): raise Unsupported("gep index " + repr(v))
            if first:
                sz = s.m.size(ty)
                off = add(off, mul(v, sz)); first = False; continue
            rt = s.m.resolve(ty)
            if rt.k == "struct":
                _, _, offs = s.m.layout(rt)
                off = add(off, offs[v]); ty = rt.a[0][v]
            else:
                ty = rt.a[1]; off = add(off, mul(v, s.m.size(ty)))
        return s.padd(p, off)
    def same_base(s, a, b):
        """True / False / z3 condition"""
        if a is b: return True
        if isinstance(a, Param) and isinstance(b, Param) and a.fam is b.fam:
            return b_and(*[eq_int(x, y) for x, y in zip(a.params, b.params)])
        return False
    def peq(s, p, q):
        """pointer equality as bool or z3 Bool"""
        for a, b in ((p, q), (q, p)):
            if a.base is NULLR:
                if b.base is NULLR: return eq_int(a.off, b.off)
                if b.idx is not None and not isinstance(b.base, Param) and b.base.stride is None and b.off == 0:
                    return eq_int(b.idx, 0)
                if b.idx is not None and isinstance(b.base, Param) or isinstance(b.base, Family): return False
                return False
        sb = s.same_base(p.base, q.base)
        if sb is False: return False
        c = b_and(sb, eq_int(p.off, q.off))
        if p.idx is not None: c = b_and(c, eq_int(p.idx, q.idx))
        return c
    def pdiff(s, p, q):
        """byte distance p - q within one region"""
        sb = s.same_base(p.base, q.base)
        if sb is not True: raise Unsupported(f"pointer difference across regions {p} {q}")
        d = sub(p.off, q.off)
        if p.idx is not None:
            fam = p.base.fam if isinstance(p.base, Param) else p.base
            if fam.stride is None: raise Unsupported("difference of opaque object addresses")
            d = add(d, mul(sub(p.idx, q.idx), fam.stride))
        return d

    # ------------------------------------------------------------ memory
    def new_block(s, st, name, kind="undef", size=None):
        b = Block(name, kind, size); st.mem[b] = {}
        return b
    def cells(s, st, b):
        c = st.mem.get(b)
        if c is None: c = s.cmem.get(b)
        if c is None and b in s.mutglob:
            c = st.mem[b] = dict(s.mutglob[b])
        if c is None: raise Unsupported(f"access to dead object {b}")
        return c
    def tysize(s, ty): return s.m.size(ty)
    def coerce(s, st, v, ty, size):
        """value v of a cell read with type ty"""
        rt = ty
        if isinstance(v, Zero):
            if rt.k == "ptr": return NULL
            if rt.k == "int": return False if rt.a == 1 else 0
            return Fp(0.0)
        if isinstance(v, Undef): return v
        if rt.k == "ptr":
            if isinstance(v, Ptr): return v
            if isinstance(v, PInt) and v.d == 0: return v.p
            if isinstance(v, int) and v == 0: return NULL
            raise Unsupported(f"integer {v} read as pointer")
        if rt.k == "int":
            if isinstance(v, Ptr): return PInt(v)
            if rt.a == 1:
                if isbool(v): return v
                return b_not(eq_int(v, 0)) if isnum(v) else s.un(v)
            if isbool(v): return ite(v, 1, 0)
            if isinstance(v, (PInt, Packed)) or isnum(v): return v
            if isinstance(v, Ghost): return Packed({0: (size, v)}, size)
            raise Unsupported(f"read {v} as {rt}")
        if rt.k in ("float", "double", "x86_fp80"):
            if isinstance(v, Fp): return v
            if isinstance(v, (Packed, Ghost)) or isnum(v): return Fp(v)
            raise Unsupported(f"read {v} as {rt}")
        raise Unsupported(f"read {v} as {rt}")
    def un(s, v): raise Unsupported(f"value {v}")
    def load(s, st, p, ty):
        rt = s.m.resolve(ty)
        if not isinstance(p, Ptr): raise Unsupported(f"load through {p}")
        if rt.k == "struct":
            _, _, offs = s.m.layout(rt)
            return [s.load(st, s.padd(p, o), e) for e, o in zip(rt.a[0], offs)]
        if rt.k in ("array", "vector"):
            es = s.m.size(rt.a[1])
            return [s.load(st, s.padd(p, i*es), rt.a[1]) for i in range(rt.a[0])]
        size = s.m.size(rt)
        if rt.k == "int" and rt.a == 1: size = 1
        if p.base is NULLR:
            s.oblige(st, "null-dereference", False); raise PathEnd()
        v = s.load_raw(st, p, size, rt)
        return s.coerce(st, v, rt, size)
    def load_raw(s, st, p, size, rt=None):
        b = p.base
        g = getattr(b, "guard", None)
        if g: g(s, st, p, size)
        if isinstance(b, Block):
            off = p.off
            if not isinstance(off, int):
                off = s.concretize(st, off)
            if b.size is not None and not (0 <= off and off + size <= b.size):
                s.oblige(st, "out-of-bounds-read", False); raise PathEnd()
            c = s.cells(st, b)
            e = c.get(off)
            if e is not None:
                if e[0] == size: return e[1]
                if isinstance(e[1], Zero) and e[0] > size: return ZERO
                if isinstance(e[1], Ghost) and e[0] > size:
                    return s.ghost_part(st, e[1], 0, size)
            if e is None:
                cov = [(o, x) for o, x in c.items() if o < off + size and o + x[0] > off]
                if not cov:
                    if b.kind == "sym":
                        v = s.sym_cell(st, b, off, size, rt)
                        d = dict(st.mem[b]); d[off] = (size, v); st.mem[b] = d
                        return v
                    if b.kind == "ext": raise Unsupported(f"read of external {b}")
                    return UNDEF
                for o, x in cov:
                    if isinstance(x[1], Zero) and o <= off and o + x[0] >= off + size: return ZERO
                    if isinstance(x[1], Ghost) and o <= off and o + x[0] >= off + size:
                        return s.ghost_part(st, x[1], off - o, size)
            # composite
            part = {}
            for o, x in c.items():
                if o < off + size and o + x[0] > off:
                    if o < off or o + x[0] > off + size:
                        if isinstance(x[1], Zero):
                            lo = max(o, off); hi = min(o + x[0], off + size); part[lo-off] = (hi-lo, ZERO); continue
                        if isinstance(x[1], int) and not isinstance(x[1], bool) and o <= off and off+size <= o+x[0]:
                            return norm((x[1] >> (8*(off-o))) & ((1 << 8*size)-1), 8*size)
                        if isinstance(x[1], Packed):
                            for po, pc_ in x[1].cells.items():
                                if o + po >= off and o + po + pc_[0] <= off + size: part[o+po-off] = pc_
                                elif o+po < off+size and o+po+pc_[0] > off: raise Unsupported("split packed")
                            continue
                        raise Unsupported(f"partial read {b}+{off} size {size}: {o}:{x}")
                    part[o-off] = x
            if all(isinstance(x[1], int) and not isinstance(x[1], bool) for x in part.values()) and sum(x[0] for x in part.values()) == size:
                v = 0
                for o, x in part.items(): v |= (x[1] & ((1 << 8*x[0])-1)) << (8*o)
                return norm(v, 8*size)
            if len(part) == 1 and 0 in part and part[0][0] == size: return part[0][1]
            if all(isinstance(x[1], Zero) for x in part.values()) and sum(x[0] for x in part.values()) == size: return ZERO
            return Packed(part, size)
        if isinstance(b, (Family, Param)):
            return s.fam_load(st, p, size, rt)
        if isinstance(b, FuncR): raise Unsupported("read of function memory")
        raise Unsupported(f"load from {p}")
    def ghost_part(s, st, g, off, size):
        h = s.ghost_parts.get((g.sort, off, size)) if hasattr(s, "ghost_parts") else None
        if h: return h(s, st, g)
        raise Unsupported(f"raw access into {g} +{off}")
    def sym_cell(s, st, b, off, size, rt):
        if rt is not None and rt.k == "ptr": raise Unsupported(f"unspecified pointer at {b}+{off}")
        if rt is not None and rt.k in ("float", "double"): return Fp(s.fresh("fp"))
        return s.fresh_int(st, f"{b.name}+{off}", 8*size)
    def concretize(s, st, e):
        raise Unsupported(f"symbolic offset {e} in a fixed object")
    def fam_of(s, b): return b.fam if isinstance(b, Param) else b
    def fam_arr(s, st, fam, off):
        d = st.fam.get(fam)
        if d is None: d = st.fam[fam] = {}
        a = d.get(off)
        if a is None:
            a = s.finit.get((fam, off))
            if a is None:
                _, k = fam.fields[off]
                rng = z3.BoolSort() if k == "bool" else z3.IntSort()
                so = rng
                for _ in range(fam.arity + 1): so = z3.ArraySort(z3.IntSort(), so)
                a = z3.Const(f"{fam.name}.{off}", so); s.finit[(fam, off)] = a
            d = dict(d); d[off] = a; st.fam[fam] = d
        return a
    def sel(s, a, ix):
        for i in ix: a = z3.Select(a, zi(i))
        return a
    def bounds(s, st, p, what):
        fam = s.fam_of(p.base)
        if fam.stride is None: return
        n = st.flen.get(fam if not isinstance(p.base, Param) else None)
        if isinstance(p.base, Param): n = fam.plen(*p.base.params) if getattr(fam, "plen", None) else None
        if n is None: return
        if what == "out-of-bounds-write" and getattr(fam, "grow", False) and not isinstance(p.base, Param) and s.smt.entails(st, simp(zi(p.idx) == zi(n))):
            st.flen[fam] = add(n, 1); return       # construction at the end of the storage
        s.oblige(st, what, b_and(simp(zi(p.idx) >= 0), simp(zi(p.idx) < zi(n))))
    def fam_val(s, st, p, off, k, size):
        fam = s.fam_of(p.base)
        if isinstance(k, tuple) and k[0] == "const": return k[1]
        if isinstance(k, tuple) and k[0] == "fn":
            pr = p.base.params if isinstance(p.base, Param) else ()
            return k[1](st, *pr, p.idx)
        ix = (list(p.base.params) if isinstance(p.base, Param) else []) + [p.idx]
        v = simp(s.sel(s.fam_arr(st, fam, off), ix))
        if k == "bool": return v
        if isinstance(k, tuple):
            if k[0] == "ptr": return Ptr(k[1], 0, v)
            if k[0] == "ghost": return Ghost(k[1], v, size)
            if k[0] == "range":
                if is_sym(v): st.assume(z3.And(v >= k[1], v <= k[2]))
                return v
        bits = int(k[1:])
        if is_sym(v): st.assume(z3.And(v >= -(1 << bits-1), v < (1 << bits-1)))
        return v
    def fam_load(s, st, p, size, rt):
        fam = s.fam_of(p.base)
        off = p.off
        if not isinstance(off, int): raise Unsupported("symbolic member offset")
        s.bounds(st, p, "out-of-bounds-read")
        f = fam.fields.get(off)
        if f and f[0] == size: return s.fam_val(st, p, off, f[1], size)
        part = {}
        for o, (sz, k) in fam.fields.items():
            if o < off + size and o + sz > off:
                if o < off or o + sz > off + size:
                    if isinstance(k, tuple) and k[0] == "ghost":
                        return s.ghost_part(st, s.fam_val(st, p, o, k, sz), off - o, size)
                    raise Unsupported(f"partial member read {fam.name}+{off}/{size}")
                part[o-off] = (sz, s.fam_val(st, p, o, k, sz))
        if not part: raise Unsupported(f"no member at {fam.name}+{off} size {size}")
        if len(part) == 1 and 0 in part and part[0][0] == size: return part[0][1]
        return Packed(part, size)
    def store(s, st, p, v, ty):
        rt = s.m.resolve(ty)
        if not isinstance(p, Ptr): raise Unsupported(f"store through {p}")
        if rt.k == "struct":
            _, _, offs = s.m.layout(rt)
            if isinstance(v, Undef): return
            for e, o, x in zip(rt.a[0], offs, v): s.store(st, s.padd(p, o), x, e)
            return
        if rt.k in ("array", "vector"):
            es = s.m.size(rt.a[1])
            for i, x in enumerate(v): s.store(st, s.padd(p, i*es), x, rt.a[1])
            return
        size = s.m.size(rt)
        if p.base is NULLR:
            s.oblige(st, "null-dereference", False); raise PathEnd()
        if isinstance(v, Fp) and isinstance(v.t, (Packed, Ghost)): v = v.t
        if isinstance(v, Packed):
            if len(v.cells) and v.size >= 0:
                s.store_raw(st, p, size, UNDEF)
                for o, (sz, x) in v.cells.items():
                    if o + sz > size:
                        if isinstance(x, Zero): sz = size - o
                        else: continue
                    s.store_raw(st, s.padd(p, o), sz, x)
            return
        s.store_raw(st, p, size, v)
    def store_raw(s, st, p, size, v):
        b = p.base
        g = getattr(b, "guard", None)
        if g: g(s, st, p, size)
        if isinstance(b, Block):
            off = p.off
            if not isinstance(off, int): off = s.concretize(st, off)
            if b.const: s.oblige(st, "write-to-constant", False); raise PathEnd()
            if b.size is not None and not (0 <= off and off + size <= b.size):
                s.oblige(st, "out-of-bounds-write", False); raise PathEnd()
            c = s.cells(st, b)
            d = dict(c)
            e = d.get(off)
            if e is None or e[0] != size:
                for o, x in list(d.items()):
                    if o < off + size and o + x[0] > off:
                        del d[o]
                        if isinstance(x[1], Zero):
                            if o < off: d[o] = (off - o, ZERO)
                            if o + x[0] > off + size: d[off + size] = (o + x[0] - off - size, ZERO)
                        elif isinstance(x[1], int) and not isinstance(x[1], bool):
                            for i in range(x[0]):
                                if not off <= o + i < off + size: d[o+i] = (1, norm((x[1] >> (8*i)) & 255, 8))
                        elif isinstance(x[1], Packed):
                            for po, pc_ in x[1].cells.items():
                                if o+po+pc_[0] <= off or o+po >= off+size: d[o+po] = pc_
                        elif isinstance(x[1], Ghost) and (o < off or o + x[0] > off + size):
                            d[o] = (x[0], UNDEF)   # partially clobbered opaque value
                            if isinstance(v, Undef): pass
                            del d[o]
            if isinstance(v, Undef): d.pop(off, None); 
            else: d[off] = (size, v)
            if isinstance(v, Undef) and b.kind == "sym": d[off] = (size, v)
            st.mem[b] = d
            return
        if isinstance(b, (Family, Param)):
            fam = s.fam_of(b); off = p.off
            s.bounds(st, p, "out-of-bounds-write")
            f = fam.fields.get(off)
            if not f or f[0] != size: 
                if isinstance(v, (Undef,)): return
                # widening store over several members
                raise Unsupported(f"store to {fam.name}+{off} size {size}")
            k = f[1]
            if isinstance(v, Zero): v = False if k == "bool" else (NULL if isinstance(k, tuple) and k[0] == "ptr" else 0)
            if isinstance(k, tuple) and k[0] in ("const", "fn"):
                raise Unsupported(f"write to fixed member {fam.name}+{off}")
            if isinstance(v, Undef): v = s.fresh("undef", z3.BoolSort() if k == "bool" else z3.IntSort())
            if k == "bool": v = zb(v if isbool(v) else b_not(eq_int(v, 0)))
            elif isinstance(k, tuple) and k[0] == "ptr":
                if v.base is NULLR: v = 0
                elif v.base is k[1] and v.off == 0: v = v.idx
                else: raise Unsupported(f"store pointer {v} into {fam.name}+{off}")
            elif isinstance(k, tuple) and k[0] == "ghost":
                if not isinstance(v, Ghost): raise Unsupported(f"store {v} into ghost member")
                v = v.t
            elif isbool(v): v = ite(v, 1, 0)
            if not (isnum(v) or isbool(v)): raise Unsupported(f"store {v} into {fam.name}+{off}")
            a = s.fam_arr(st, fam, off)
            d = dict(st.fam[fam])
            ix = (list(b.params) if isinstance(b, Param) else []) + [p.idx]
            d[off] = s.nstore(a, ix, zi(v) if not isbool(v) else v)
            st.fam[fam] = d
            return
        raise Unsupported(f"store to {p}")
    def nstore(s, a, ix, v):
        if len(ix) == 1: return z3.Store(a, zi(ix[0]), v)
        return z3.Store(a, zi(ix[0]), s.nstore(z3.Select(a, zi(ix[0])), ix[1:], v))
    def copy_range(s, st, dst, src, n):
        """memcpy / trivially copying n bytes"""
        if not isinstance(n, int): raise Unsupported("memcpy of symbolic size")
        if n == 0: return
        cells = s.range_cells(st, src, n)
        if isinstance(dst.base, Block): s.store_raw(st, dst, n, UNDEF)
        for o in sorted(cells):
            s.store_raw(st, s.padd(dst, o), cells[o][0], cells[o][1])
    def range_cells(s, st, src, n):
        b = src.base; out = {}
        if isinstance(b, Block):
            if not isinstance(src.off, int): raise Unsupported("memcpy from symbolic offset")
            for o, x in s.cells(st, b).items():
                if o < src.off + n and o + x[0] > src.off:
                    if o < src.off or o + x[0] > src.off + n:
                        if isinstance(x[1], Zero):
                            lo = max(o, src.off); hi = min(o+x[0], src.off+n); out[lo-src.off] = (hi-lo, ZERO); continue
                        v = s.load_raw(st, src, n); out[0] = (n, v); return out
                    out[o-src.off] = x
            if b.kind == "sym":
                cov = sum(x[0] for x in out.values())
                if cov < n:
                    i = 0
                    while i < n:
                        if i in out: i += out[i][0]; continue
                        j = i
                        while j < n and j not in out: j += 1
                        w = 1
                        for c in (8, 4, 2, 1):
                            if (src.off + i) % c == 0 and i + c <= j: w = c; break
                        # unread padding or members never specified: leave undefined
                        i += w
            return out
        if isinstance(b, (Family, Param)):
            fam = s.fam_of(b)
            if not isinstance(src.off, int): raise Unsupported("symbolic member offset")
            s.bounds(st, src, "out-of-bounds-read")
            for o, (sz, k) in fam.fields.items():
                if o >= src.off and o + sz <= src.off + n: out[o-src.off] = (sz, s.fam_val(st, Ptr(b, o, src.idx), o, k, sz))
                elif o < src.off + n and o + sz > src.off: raise Unsupported("memcpy splits a member")
            if fam.stride and src.off + n > fam.stride: raise Unsupported("memcpy across elements")
            return out
        raise Unsupported(f"memcpy from {src}")

    # ------------------------------------------------------------ integer ops
    def in_range(s, st, e, n):
        if isinstance(e, int): return -(1 << n-1) <= e < (1 << n-1)
        if st is None: return False
        return s.smt.entails(st, z3.And(e >= -(1 << n-1), e < (1 << n-1)))
    def wrap(s, st, e, n):
        if isinstance(e, int): return norm(e, n)
        if s.in_range(st, e, n): return e
        return simp((e + (1 << n-1)) % (1 << n) - (1 << n-1))
    def u(s, st, e, n):
        """signed canonical -> unsigned value"""
        if isinstance(e, int): return e if e >= 0 else e + (1 << n)
        if st is not None and s.smt.entails(st, e >= 0): return e
        return simp(z3.If(e < 0, e + (1 << n), e))
    def num(s, v):
        if isinstance(v, Packed): return s.unpack(v)
        if isinstance(v, Zero): return 0
        if not isnum(v): raise Unsupported(f"arithmetic on {v}")
        return v
    def unpack(s, v):
        r = 0
        hi = 0
        for o, (sz, x) in sorted(v.cells.items()):
            if isinstance(x, Zero): x = 0
            if isbool(x): x = ite(x, 1, 0)
            if not isnum(x): raise Unsupported(f"arithmetic on {v}")
            top = o + sz == v.size
            if top: r = add(r, mul(x, 1 << 8*o))
            else: r = add(r, mul(s.u(None, x, 8*sz), 1 << 8*o))
            hi = max(hi, o + sz)
        return r
    def binop(s, st, op, ty, a, b, fl):
        if ty.k != "int": 
            if ty.k in ("float", "double", "x86_fp80"): return Fp(z3.Function("fp_" + op, z3.IntSort(), z3.IntSort(), z3.IntSort())(fpt(a), fpt(b)))
            raise Unsupported("vector arithmetic")
        n = ty.a
        if isinstance(a, Zero): a = 0
        if isinstance(b, Zero): b = 0
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt): return add(s.pdiff(a.p, b.p), sub(a.d, b.d))
            if op == "add" and isinstance(a, PInt): return PInt(a.p, add(a.d, s.num(b)))
            if op == "add": return PInt(b.p, add(b.d, s.num(a)))
            if op == "sub" and isinstance(a, PInt): return PInt(a.p, sub(a.d, s.num(b)))
            if op == "and" and b == 1 : return 0     # pointer tag bit (member pointers): aligned
            raise Unsupported(f"{op} on pointer value")
        if isinstance(a, Packed) and op in ("lshr", "trunc", "and") or isinstance(a, Packed) or isinstance(b, Packed):
            if op == "lshr" and isinstance(a, Packed) and isinstance(b, int) and b % 8 == 0:
                return Packed({o - b//8: x for o, x in a.cells.items() if o >= b//8}, a.size)
            a = s.num(a) if isinstance(a, Packed) else a; b = s.num(b) if isinstance(b, Packed) else b
        if n == 1 or isbool(a) and isbool(b):
            a = a if isbool(a) else b_not(eq_int(a, 0)); b = b if isbool(b) else b_not(eq_int(b, 0))
            if op == "and": return b_and(a, b)
            if op == "or": return b_or(a, b)
            if op in ("xor", "add", "sub"): 
                if b is True: return b_not(a)
                if a is True: return b_not(b)
                if b is False: return a
                if a is False: return b
                return simp(z3.Xor(zb(a), zb(b)))
            raise Unsupported("i1 " + op)
        a = s.num(a); b = s.num(b)
        con = isinstance(a, int) and isinstance(b, int)
        if op in ("add", "sub", "mul"):
            if op == "mul" and not con and not isinstance(a, int) and not isinstance(b, int): 
                r = simp(a * b)
            else: r = {"add": add, "sub": sub, "mul": mul}[op](a, b)
            if "nsw" in fl and not isinstance(r, int):
                if not s.in_range(st, r, n):
                    s.oblige(st, "no-signed-overflow", simp(z3.And(r >= -(1 << n-1), r < (1 << n-1))))
                return r
            if "nsw" in fl and not s.in_range(st, r, n):
                s.oblige(st, "no-signed-overflow", False); raise PathEnd()
            return s.wrap(st, r, n)
        if op == "sdiv":
            if isinstance(b, int) and b != 0:
                if con: return norm(int(abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1), n)
                q = div_exact(a, b)
                if q is not None: return q
                if b > 0: return simp(z3.If(a >= 0, a / b, -((-a) / b)))
            raise Unsupported("sdiv")
        if op == "udiv":
            if isinstance(b, int) and b > 0:
                a = s.u(st, a, n)
                if isinstance(a, int): return norm(a // b, n)
                q = div_exact(a, b)
                return s.wrap(st, q if q is not None else simp(a / b), n)
            raise Unsupported("udiv")
        if op in ("srem", "urem"):
            if isinstance(b, int) and b > 0:
                if op == "urem":
                    a = s.u(st, a, n)
                    return norm(a % b, n) if isinstance(a, int) else s.wrap(st, simp(a % b), n)
                if con: return norm((abs(a) % b) * (1 if a >= 0 else -1), n)
                return simp(z3.If(a >= 0, a % b, -((-a) % b)))
            raise Unsupported("rem")
        if con:
            ua = a & ((1 << n)-1); ub = b & ((1 << n)-1)
            if op == "and": return norm(ua & ub, n)
            if op == "or": return norm(ua | ub, n)
            if op == "xor": return norm(ua ^ ub, n)
            if op == "shl": return norm(ua << ub, n)
            if op == "lshr": return norm(ua >> ub, n)
            if op == "ashr": return norm(a >> ub, n)
        if op == "xor":
            if isinstance(b, int) and b == -1: return sub(-1, a)
            if isinstance(b, int) and b == 0: return a
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int):
                    if y == 0: return 0
                    if y == -1: return x
                    if y > 0 and (y & (y+1)) == 0: return simp(x % (y + 1))
        if op == "or":
            if isinstance(b, int) and b == 0: return a
            if isinstance(a, int) and a == 0: return b
        if op == "shl" and isinstance(b, int):
            return s.wrap(st, mul(a, 1 << b), n)
        if op == "lshr" and isinstance(b, int):
            return s.wrap(st, simp(zi(s.u(st, a, n)) / (1 << b)), n)
        if op == "ashr" and isinstance(b, int): return simp(a / (1 << b))
        f = z3.Function(f"bv_{op}_{n}", z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = f(zi(a), zi(b))
        if st is not None: st.assume(z3.And(r >= -(1 << n-1), r < (1 << n-1)))
        return r
    def icmp(s, st, pred, ty, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported("comparison of undefined value")
        if ty.k == "ptr" or isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt):
                if a.d != 0: raise Unsupported("compare offset pointer int")
                a = a.p
            if isinstance(b, PInt):
                if b.d != 0: raise Unsupported("compare offset pointer int")
                b = b.p
            if isinstance(a, int) and a == 0: a = NULL
            if isinstance(b, int) and b == 0: b = NULL
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported(f"compare {a} with {b}")
            if pred == "eq": return s.peq(a, b)
            if pred == "ne": return b_not(s.peq(a, b))
            if isinstance(a.base, Family) and a.base is b.base and a.base.stride is None:
                d = sub(a.idx, b.idx)
            else:
                d = s.pdiff(a, b)
            return s.rel(pred[1:], d, 0)
        if isinstance(a, (Packed, Zero)): a = s.num(a)
        if isinstance(b, (Packed, Zero)): b = s.num(b)
        if isbool(a) or isbool(b):
            a = a if isbool(a) else b_not(eq_int(a, 0)); b = b if isbool(b) else b_not(eq_int(b, 0))
            e = a if b is True else b if a is True else b_not(a) if b is False else b_not(b) if a is False else simp(a == b)
            if pred == "eq": return e
            if pred == "ne": return b_not(e)
            a = ite(a, 1, 0); b = ite(b, 1, 0)
        a = s.num(a); b = s.num(b); n = ty.a
        if pred == "eq": return eq_int(a, b)
        if pred == "ne": return b_not(eq_int(a, b))
        if pred[0] == "u": a = s.u(st, a, n); b = s.u(st, b, n)
        return s.rel(pred[1:], a, b)
    def rel(s, r, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[r]
        a = zi(a); b = zi(b)
        return simp({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[r])
    def cast(s, st, op, fty, v, tty):
        if isinstance(v, Undef): return v
        if op == "ptrtoint": return PInt(v)
        if op == "inttoptr":
            if isinstance(v, PInt): return s.padd(v.p, v.d) if v.d != 0 else v.p
            if isinstance(v, int) and v == 0: return NULL
            raise Unsupported(f"inttoptr {v}")
        if op == "bitcast":
            if tty.k in ("double", "float") : return Fp(v)
            if isinstance(v, Fp) and tty.k == "int": return v.t
            return v
        if op in ("fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"): 
            if tty.k == "int": raise Unsupported("float")
            if op == "fpext" and isinstance(v, Fp): return v                      # exact
            return Fp(z3.Function("fp_" + op, z3.IntSort(), z3.IntSort())(fpt(v) if isinstance(v, Fp) else zi(v)))
        fn, tn = fty.a, tty.a
        if isinstance(v, PInt):
            if tn == 64: return v
            raise Unsupported("narrowing of pointer")
        if isinstance(v, Packed):
            if op == "trunc":
                sz = tn // 8
                c = {o: x for o, x in v.cells.items() if o + x[0] <= sz}
                if len(c) == 1 and 0 in c and c[0][0] == sz:
                    x = c[0][1]
                    return 0 if isinstance(x, Zero) else x
                return Packed(c, sz)
            if op in ("zext",) : return Packed(v.cells, tn // 8) if tn % 8 == 0 else v
            v = s.num(v)
        if isinstance(v, Zero): v = 0
        if op == "zext":
            if isbool(v): return ite(v, 1, 0)
            return s.u(st, v, fn)
        if op == "sext":
            if isbool(v): return ite(v, -1, 0)
            return v
        if op == "trunc":
            if tn == 1:
                if isbool(v): return v
                if isinstance(v, int): return bool(v & 1)
                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
                    x, y = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
                    if (x, y) == (1, 0): return simp(v.arg(0))
                    if (x, y) == (0, 1): return b_not(v.arg(0))
                return simp(v % 2 == 1)
            if isbool(v): return ite(v, 1, 0)
            return s.wrap(st, v, tn)
        raise Unsupported("cast " + op)

    # ------------------------------------------------------------ running
    def run(s, name, args, st, contract=True):
        """list of outcomes (kind, value, state)"""
        name = s.m.aliases.get(name, name)
        if contract:
            c = s.find_contract(name)
            if c is not None:
                s.used[s.dem(name)] = (c[1], c[2])
                s.fstack.append("call of " + s.short(name))
                try: return c[0](s, st, args, name)
                except PathEnd: return []
                finally: s.fstack.pop()
        f = s.m.fn(name)
        if f is None: raise Unsupported("no body and no contract for " + s.dem(name))
        s.inlined[name] = s.inlined.get(name, 0) + 1
        if len(s.fstack) > 400: raise Unsupported("call depth")
        fr = Frame(f); env = {}
        if len(args) != len(f.params): raise Unsupported("argument count " + name)
        for (ty, nm, at), v in zip(f.params, args):
            if "byval" in at:
                b = s.new_block(st, "byval", "undef", s.m.size(at["byval"])); fr.blocks.append(b)
                s.copy_range(st, Ptr(b), v, s.m.size(at["byval"])); v = Ptr(b)
            env[nm] = v
        s.fstack.append(s.short(name)); base = st.pc; bfacts = st.facts
        try:
            outs = []
            for o in s.region(fr, f.entry, None, env, st, None, None):
                outs.append(o)
        finally: s.fstack.pop()
        for k, v, t in outs:
            for b in fr.blocks: t.mem.pop(b, None)
        return s.merge(outs, base, bfacts)
    def short(s, name):
        d = s.dem(name)
        return d if len(d) < 160 else name[:160]

    def merge(s, outs, base, bfacts):
        """join outcomes with identical memory and (almost) identical results"""
        if len(outs) < 2: return outs
        res = []
        for k, v, t in outs:
            done = False
            if (k == "ret" and (v is None or isbool(v) or isnum(v))) or k == "term":
                for i, (k2, v2, t2) in enumerate(res):
                    if k2 != k or (v is None) != (v2 is None) or (k == "term" and v != v2): continue
                    if k == "ret" and v is not None and isbool(v) != isbool(v2): continue
                    same = k == "term" or v is None or veq(v, v2)
                    ids2 = {c.get_id() for c in t2.pc}; ids1 = {c.get_id() for c in t.pc}
                    r1 = [c for c in t.pc if c.get_id() not in ids2]; r2 = [c for c in t2.pc if c.get_id() not in ids1]
                    if not same and (len(conj(r1)) > 4 or len(conj(r2)) > 4): continue
                    if not s.same_state(t, t2, base): continue
                    com = [c for c in t2.pc if c.get_id() in ids1]
                    c1 = b_and(*r1); c2 = b_and(*r2)
                    t2 = t2.copy()
                    if not same: v2 = ite(c2, v2, v)
                    c = simp(zb(b_or(c1, c2)))
                    t2.pc = tuple(com) + ((c,) if c is not True else ())
                    res[i] = (k, v2, t2); done = True; break
            if not done: res.append((k, v, t))
        return res
    def same_state(s, a, b, base):
        if a.trace is not b.trace and not veq(a.trace, b.trace): return False
        if a.facts is not b.facts and not (len(a.facts) == len(b.facts) and all(x is y for x, y in zip(a.facts, b.facts))): return False
        if a.exc is not b.exc or a.uncaught is not b.uncaught and not veq(a.uncaught, b.uncaught) or a.caught != b.caught: return False
        if len(a.mem) != len(b.mem): return False
        for r, c in a.mem.items():
            d = b.mem.get(r)
            if d is None: return False
            if c is d: continue
            if c.keys() != d.keys(): return False
            for o in c:
                if c[o][0] != d[o][0] or not veq(c[o][1], d[o][1]): return False
        for x, y in ((a.fam, b.fam), (a.flen, b.flen), (a.ghost, b.ghost)):
            for r in set(x) | set(y):
                if not veq(x.get(r), y.get(r)): return False
        return True

    # region exploration.  yields ('ret',v,st) ('throw',None,st) ('term',why,st)
    # and, inside a loop region, ('back',(prev,env),st) ('exit',(blk,prev,env),st)
    def region(s, fr, blk, prev, env, st, header, body):
        f = fr.fn
        work = [(blk, prev, env, st)]; out = []
        first = True
        while work:
            blk, prev, env, st = work.pop()
            if not first or header is None or blk != header:
                if header is not None and blk == header: out.append(("back", (prev, env), st)); continue
                if body is not None and blk not in body: out.append(("exit", (blk, prev, env), st)); continue
                if blk in f.loops and blk != header:
                    for o in s.loop(fr, blk, prev, env, st):
                        if o[0] == "exit": work.append((o[1][0], o[1][1], o[1][2], o[2]))
                        else: out.append(o)
                    continue
            first = False
            s.npaths += 1
            if s.npaths > s.MAXPATH: raise Unsupported("too many paths")
            try: s.block(fr, blk, prev, env, st, work, out)
            except PathEnd: pass
        return out

    def block(s, fr, blk, prev, env, st, work, out):
        f = fr.fn; code = f.blocks[blk]
        i = 0
        phis = []
        while code[i].op == "phi":
            ty, inc = code[i].a
            for v, l in inc:
                if l == prev: phis.append((code[i].res, s.val(env, v, ty))); break
            else: raise Unsupported("phi")
            i += 1
        if phis:
            env = dict(env)
            for r, v in phis: env[r] = v
        s.block_from(fr, blk, i, env, st, work, out)

    def block_from(s, fr, blk, i, env, st, work, out):
        code = fr.fn.blocks[blk]
        while True:
            ins = code[i]; op = ins.op; a = ins.a; i += 1
            if op == "alloca":
                key = ins.res
                n = 1
                if a[1] is not None:
                    n = s.val(env, a[1][1], a[1][0])
                    if not isinstance(n, int): raise Unsupported("dynamic alloca")
                b = s.new_block(st, ins.res, "undef", s.m.size(a[0]) * n); fr.blocks.append(b); env[ins.res] = Ptr(b)
            elif op == "store":
                v = s.val(env, a[1], a[0]); p = s.val(env, a[2], ll.PTR)
                s.store(st, p, v, a[0])
            elif op == "load":
                env[ins.res] = s.load(st, s.val(env, a[1], ll.PTR), a[0])
            elif op == "gep":
                env[ins.res] = s.gep(a[0], s.val(env, a[1], ll.PTR), [(t, s.val(env, v, t)) for t, v in a[2]])
            elif op == "bin":
                env[ins.res] = s.binop(st, a[0], a[1], s.val(env, a[2], a[1]), s.val(env, a[3], a[1]), a[4])
            elif op == "cast":
                env[ins.res] = s.cast(st, a[0], a[1], s.val(env, a[2], a[1]), a[3])
            elif op == "icmp":
                env[ins.res] = s.icmp(st, a[0], a[1], s.val(env, a[2], a[1]), s.val(env, a[3], a[1]))
            elif op == "fcmp":
                x, y = fpt(s.val(env, a[2], a[1])), fpt(s.val(env, a[3], a[1])); o = z3.Not(z3.Or(FNAN(x), FNAN(y))); k, l = FORD(x), FORD(y); pr = a[0]
                if pr in ("true", "false"): env[ins.res] = pr == "true"
                elif pr in ("ord", "uno"): env[ins.res] = simp(o if pr == "ord" else z3.Not(o))
                else:
                    c = {"eq": k == l, "ne": k != l, "lt": k < l, "le": k <= l, "gt": k > l, "ge": k >= l}[pr[1:]]
                    env[ins.res] = simp(z3.And(o, c) if pr[0] == "o" else z3.Or(z3.Not(o), c))
            elif op == "select":
                c = s.val(env, a[0], ll.INT(1)); x = s.val(env, a[2], a[1]); y = s.val(env, a[3], a[1])
                if isinstance(c, bool): env[ins.res] = x if c else y
                elif (isnum(x) or isbool(x)) and (isnum(y) or isbool(y)): env[ins.res] = ite(c, x, y)
                else:
                    for cc, v in ((c, x), (b_not(c), y)):
                        if s.smt.feasible(st, cc):
                            st2 = st.copy(); st2.assume(cc); e2 = dict(env); e2[ins.res] = v
                            s.try_block(fr, blk, i, e2, st2, work, out)
                    return
            elif op == "extractvalue":
                v = s.val(env, a[1], a[0])
                for j in a[2]: v = v[j]
                env[ins.res] = v
            elif op == "insertvalue":
                v = s.val(env, a[1], a[0])
                def setp(v, ix, x, ty):
                    rt = s.m.resolve(ty)
                    if isinstance(v, Undef): v = [UNDEF] * (len(rt.a[0]) if rt.k == "struct" else rt.a[0])
                    v = list(v)
                    v[ix[0]] = x if len(ix) == 1 else setp(v[ix[0]], ix[1:], x, rt.a[0][ix[0]] if rt.k == "struct" else rt.a[1])
                    return v
                env[ins.res] = setp(v, a[4], s.val(env, a[3], a[2]), a[0])
            elif op == "freeze": env[ins.res] = s.val(env, a[1], a[0])
            elif op == "br":
                if a[0] is None: work.append((a[1], blk, env, st)); return
                c = s.val(env, a[0], ll.INT(1))
                if isinstance(c, Undef): raise Unsupported("branch on undefined value")
                if isnum(c): c = b_not(eq_int(c, 0))
                if c is True: work.append((a[1], blk, env, st)); return
                if c is False: work.append((a[2], blk, env, st)); return
                nc = b_not(c)
                t = s.smt.feasible(st, c); e = s.smt.feasible(st, nc)
                if t and e:
                    st2 = st.copy(); st2.assume(nc); work.append((a[2], blk, dict(env), st2))
                    st.assume(c); work.append((a[1], blk, env, st))
                elif t: work.append((a[1], blk, env, st))
                elif e: work.append((a[2], blk, env, st))
                return
            elif op == "switch":
                v = s.val(env, a[1], a[0])
                if isbool(v): v = ite(v, 1, 0)
                if isinstance(v, Undef): raise Unsupported("switch on undefined value")
                v = s.num(v); bits = a[0].a
                rest = True
                for cv, l in a[3]:
                    c = eq_int(v, norm(cv, bits))
                    if c is False: continue
                    if s.smt.feasible(st, b_and(rest, c)):
                        st2 = st.copy(); st2.assume(b_and(rest, c)); work.append((l, blk, dict(env), st2))
                    rest = b_and(rest, b_not(c))
                    if rest is False: return
                if s.smt.feasible(st, rest):
                    st2 = st.copy(); st2.assume(simp(zb(rest))); work.append((a[2], blk, env, st2))
                return
            elif op == "ret":
                out.append(("ret", None if a[1] is None else s.val(env, a[1], a[0]), st)); return
            elif op in ("call", "invoke"):
                outs = s.call(fr, ins, env, st)
                if op == "call":
                    rets = []
                    for k, v, t in outs:
                        if k == "ret": rets.append((v, t))
                        else: out.append((k, v, t))
                    if len(rets) == 1:
                        v, st = rets[0]
                        if ins.res is not None: env[ins.res] = v
                        continue
                    for v, t in rets:
                        e2 = dict(env)
                        if ins.res is not None: e2[ins.res] = v
                        s.try_block(fr, blk, i, e2, t, work, out)
                    return
                for k, v, t in outs:
                    if k == "ret":
                        e2 = dict(env)
                        if ins.res is not None: e2[ins.res] = v
                        work.append((a["normal"], blk, e2, t))
                    elif k == "throw": work.append((a["unwind"], blk, dict(env), t))
                    else: out.append((k, v, t))
                return
            elif op == "landingpad":
                for val_, t in s.landing(st, a):
                    e2 = dict(env); e2[ins.res] = val_
                    s.try_block(fr, blk, i, e2, t, work, out)
                return
            elif op == "resume":
                out.append(("throw", None, st)); return
            elif op == "unreachable":
                if s.smt.feasible(st): s.oblige(st, "unreachable-code-not-reached", False)
                return
            elif op == "fneg": env[ins.res] = Fp(z3.Function("fp_neg", z3.IntSort(), z3.IntSort())(fpt(s.val(env, a[1], a[0]))))
            elif op == "fence": pass
            elif op == "atomicrmw":
                o, p, ty, v = a
                p = s.val(env, p, ll.PTR); old = s.load(st, p, ty); v = s.val(env, v, ty)
                if o == "xchg": new = v
                elif o in ("add", "sub"): new = s.binop(st, o, ty, old, v, ())
                else: raise Unsupported("atomicrmw " + o)
                s.store(st, p, new, ty); env[ins.res] = old
            else:
                raise Unsupported(f"instruction {op} {ins.txt and ins.txt[:100]}")
    def try_block(s, fr, blk, i, env, st, work, out):
        try: s.block_from(fr, blk, i, env, st, work, out)
        except PathEnd: pass

    # ------------------------------------------------------------ exceptions
    def throw(s, st, tinfo, obj=None, tag=None):
        """outcome: an exception of the given type (None: any type) propagates"""
        st.exc = (tinfo, obj, tag)
        st.uncaught = add(st.uncaught, 1)
        return ("throw", None, st)
    def ti_matches(s, ti, want):
        """True/False/None(unknown)"""
        if ti is None: return None
        if ti == want: return True
        seen = set(); q = [ti]
        while q:
            x = q.pop()
            if x == want: return True
            if x in seen: continue
            seen.add(x)
            gi = s.m.globals.get(x)
            if gi is None or "external" in gi:
                if x in STD_BASES: q += STD_BASES[x]; continue
                if x.startswith("_ZTI"): 
                    continue
            else:
                refs = re.findall(r"@(_ZTI[A-Za-z0-9_]+)", gi); q += refs
        return False
    def landing(s, st, a):
        cleanup, clauses = a
        ti, obj, tag = st.exc
        ep = s.excptr(st)
        res = []
        for w, c in clauses:
            if w == "filter": raise Unsupported("exception filter")
            if c[0] == "null": res.append(([ep, 1 << 20], st)); return res
            name = c[1]
            sel = s.ti_id(name)
            m = s.ti_matches(ti, name)
            if m is True: res.append(([ep, sel], st)); return res
            if m is None:
                b = z3.Bool(f"exc_is({tag},{name})")
                if s.smt.feasible(st, b):
                    t = st.copy(); t.assume(b); res.append(([ep, sel], t))
                st = st.copy(); st.assume(z3.Not(b))
        if cleanup or True: res.append(([ep, 0], st))
        return res
    def excptr(s, st):
        obj = st.exc[1]
        if isinstance(obj, Ptr): return obj
        b = s.new_block(st, "exception", "sym"); st.exc = (st.exc[0], Ptr(b), st.exc[2])
        return Ptr(b)
    def ti_id(s, name):
        d = s.__dict__.setdefault("_tid", {})
        return d.setdefault(name, len(d) + 1)

    # ------------------------------------------------------------ calls
    def call(s, fr, ins, env, st):
        a = ins.a
        if a["callee"][0] == "local": target = env[a["callee"][1]]
        else: target = s.val(env, a["callee"], ll.PTR)
        if not isinstance(target, Ptr): raise Unsupported(f"call through {target}")
        args = []
        for ty, v, at in a["args"]:
            if ty.k == "metadata": args.append(None); continue
            x = s.val(env, v, ty)
            args.append(x)
        if isinstance(target.base, FuncR): name = target.base.name
        elif getattr(target.base, "vcall", None):
            return s.vcall(st, target, args)
        elif target.base is NULLR:
            s.oblige(st, "null-function-call", False); return []
        else: raise Unsupported(f"indirect call to {target}")
        if name.startswith("llvm."):
            return s.intrinsic(st, name, args)
        return s.run(name, args, st)
    def vcall(s, st, target, args):
        return target.base.vcall(s, st, target, args)
    def intrinsic(s, st, name, args):
        R = lambda v=None: [("ret", v, st)]
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            s.copy_range(st, args[0], args[1], args[2]); return R()
        if name.startswith("llvm.memset"):
            n = args[2]
            if args[1] == 0 and isinstance(n, int):
                if n: s.store_raw(st, args[0], n, ZERO)
                return R()
            raise Unsupported("memset")
        if name.startswith("llvm.eh.typeid.for"):
            p = args[0]; nm = p.base.name[1:]
            return R(s.ti_id(nm))
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.assume", "llvm.stackrestore")): return R()
        if name.startswith("llvm.stacksave"): return R(NULL)
        if name.startswith("llvm.trap"): return [("term", "trap", st)]
        if name.startswith("llvm.threadlocal.address"): return R(args[0])
        if name.startswith("llvm.is.constant"): return R(isinstance(args[0], (int, bool)))   # -O0: false for what is not a literal
        m = re.match(r"llvm\.ctlz\.i(\d+)", name)
        if m and isinstance(args[0], int): w = int(m.group(1)); return R(w - (args[0] & (1 << w) - 1).bit_length())
        m = re.match(r"llvm\.(s|u)(min|max)\.i\d+", name)
        if m:
            x, y = args
            c = s.rel("lt", x, y) if m.group(1) == "s" else s.rel("lt", s.u(st, x, 64), s.u(st, y, 64))
            return R(ite(c, x, y) if m.group(2) == "min" else ite(c, y, x))
        raise Unsupported("intrinsic " + name)

    # ------------------------------------------------------------ loops
    def loop(s, fr, h, prev, env, st):
        from loops import do_loop
        return do_loop(s, fr, h, prev, env, st)

# floating point: a value is known by its identity; comparing needs only whether it is NaN and its place in the order (equal for the two zeros)
FNAN = z3.Function("is_nan", z3.IntSort(), z3.BoolSort()); FORD = z3.Function("order_of", z3.IntSort(), z3.IntSort())
def fpt(v):
    if not isinstance(v, Fp) or v.t is None: raise Unsupported(f"floating-point value {v}")
    return zi(v.t) if is_sym(v.t) else z3.Int(f"fp:{v.t}") if isinstance(v.t, (float, int)) else unsupported_fp(v)
def unsupported_fp(v): raise Unsupported(f"floating-point value {v}")

class PathEnd(Exception):
    """the current path ends here (an obligation has been recorded)"""

STD_BASES = {
 "_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
 "_ZTISt16invalid_argument": ["_ZTISt11logic_error"], "_ZTISt12out_of_range": ["_ZTISt11logic_error"], "_ZTISt12length_error": ["_ZTISt11logic_error"],
 "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt18bad_variant_access": ["_ZTISt9exception"], "_ZTISt19bad_optional_access": ["_ZTISt9exception"],
 "_ZTISt12bad_weak_ptr": ["_ZTISt9exception"], "_ZTISt12system_error": ["_ZTISt13runtime_error"], "_ZTISt17bad_function_call": ["_ZTISt9exception"],
 "_ZTISt12format_error": ["_ZTISt13runtime_error"], "_ZTISt8bad_cast": ["_ZTISt9exception"],
}

def conj(cs):
    out = []
    for c in cs:
        st = [c]
        while st:
            x = st.pop()
            if z3.is_and(x): st.extend(x.children())
            else: out.append(x)
    return out

def veq(a, b):
    if a is b: return True
    if a is None or b is None: return False
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef): return False
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return (a.base is b.base or (isinstance(a.base, Param) and isinstance(b.base, Param) and a.base.fam is b.base.fam and all(veq(x, y) for x, y in zip(a.base.params, b.base.params)))) and veq(a.off, b.off) and ((a.idx is None and b.idx is None) or veq(a.idx, b.idx))
    if isinstance(a, Ghost) and isinstance(b, Ghost): return a.sort == b.sort and veq(a.t, b.t)
    if isinstance(a, PInt) and isinstance(b, PInt): return veq(a.p, b.p) and veq(a.d, b.d)
    if isinstance(a, Packed) and isinstance(b, Packed):
        return a.cells.keys() == b.cells.keys() and all(a.cells[k][0] == b.cells[k][0] and veq(a.cells[k][1], b.cells[k][1]) for k in a.cells)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(veq(a[k], b[k]) for k in a)
    if isinstance(a, (Undef, Zero)) and type(a) is type(b): return True
    try: return bool(a == b)
    except Exception: return False
