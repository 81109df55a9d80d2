"""Values, symbolic memory, path states and solver access."""
import z3, itertools, time

class Unsupported(Exception):
    """the verifier cannot handle this construct: undecided, never a violation"""

# ------------------------------------------------------------------ values
class Undef:
    def __repr__(s): return "undef"
UNDEF = Undef()
class Zero:
    def __repr__(s): return "zero"
ZERO = Zero()

class Region:
    n = itertools.count(1)
    def __init__(s, name):
        s.name = name; s.id = next(Region.n)
    def __repr__(s): return f"{type(s).__name__}({s.name}#{s.id})"

class Null(Region): pass
NULLR = Null("null")
class FuncR(Region): pass
class Block(Region):
    """one object with cells at concrete offsets"""
    def __init__(s, name, kind="undef", size=None, const=False, init=None):
        super().__init__(name); s.kind = kind; s.size = size; s.const = const; s.init = init
class Family(Region):
    """indexed collection of equally laid out objects.
    stride!=None: contiguous array; stride None: heap of opaque objects indexed by handle.
    fields: {off: (size, kind)}; kinds: 'i32' ... , 'bool', ('ptr', Family, nullable), ('ghost', sortname), ('pfn', function)"""
    def __init__(s, name, stride, fields, arity=0):
        super().__init__(name); s.stride = stride; s.fields = fields; s.arity = arity
class Param:
    """a region of a parametrised family of regions, e.g. the ratings of candidate i"""
    def __init__(s, fam, params): s.fam = fam; s.params = tuple(params); s.name = fam.name
    def __repr__(s): return f"{s.fam.name}{s.params}"

class Ptr:
    __slots__ = ("base", "idx", "off")
    def __init__(s, base, off=0, idx=None): s.base = base; s.off = off; s.idx = idx
    def __repr__(s): return f"&{s.base}" + (f"[{s.idx}]" if s.idx is not None else "") + (f"+{s.off}" if not (isinstance(s.off, int) and s.off == 0) else "")
NULL = Ptr(NULLR)
class PInt:
    """integer obtained from a pointer"""
    __slots__ = ("p", "d")
    def __init__(s, p, d=0): s.p = p; s.d = d
    def __repr__(s): return f"int({s.p})+{s.d}"
class Packed:
    """several smaller cells read as one integer (ABI coercion)"""
    __slots__ = ("cells", "size")
    def __init__(s, cells, size): s.cells = cells; s.size = size
    def __repr__(s): return f"packed{s.cells}"
class Ghost:
    """opaque value of a modelled type (string, report, user type ...)"""
    __slots__ = ("sort", "t", "size")
    def __init__(s, sort, t, size): s.sort = sort; s.t = t; s.size = size
    def __repr__(s): return f"<{s.sort} {s.t}>"
class Fp:
    __slots__ = ("t",)
    def __init__(s, t): s.t = t

def is_sym(v): return isinstance(v, z3.ExprRef)
def isnum(v): return isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool)
def isbool(v): return isinstance(v, (bool, z3.BoolRef))

def simp(e):
    if isinstance(e, z3.ExprRef):
        e = z3.simplify(e)
        if z3.is_int_value(e): return e.as_long()
        if z3.is_true(e): return True
        if z3.is_false(e): return False
    return e
def b_not(a):
    if isinstance(a, bool): return not a
    return simp(z3.Not(a))
def b_and(*xs):
    r = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def b_or(*xs):
    r = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def zi(x): return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x
def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isbool(a) and isbool(b):
        if a is True and b is False: return c
        if a is False and b is True: return b_not(c)
        return simp(z3.If(c, zb(a), zb(b)))
    if isinstance(a, int) and isinstance(b, int) and a == b: return a
    return simp(z3.If(c, zi(a), zi(b)))
def eq_int(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return simp(zi(a) == zi(b))
def norm(x, n):
    """python int to canonical signed n-bit"""
    x &= (1 << n) - 1
    return x - (1 << n) if x >> (n-1) else x

def lin(e):
    """linear form: ({ast_id: (term, coeff)}, const) of an integer expression"""
    if isinstance(e, int): return {}, e
    terms = {}; const = 0
    st = [(e, 1)]
    while st:
        x, c = st.pop()
        if isinstance(x, int): const += c*x; continue
        if z3.is_int_value(x): const += c * x.as_long()
        elif z3.is_add(x):
            for ch in x.children(): st.append((ch, c))
        elif z3.is_sub(x):
            ch = x.children(); st.append((ch[0], c))
            for y in ch[1:]: st.append((y, -c))
        elif x.decl().kind() == z3.Z3_OP_UMINUS: st.append((x.arg(0), -c))
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)): st.append((x.arg(1), c * x.arg(0).as_long()))
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(1)): st.append((x.arg(0), c * x.arg(1).as_long()))
        else:
            k = x.get_id(); o = terms.get(k)
            terms[k] = (x, (o[1] if o else 0) + c)
    return {k: v for k, v in terms.items() if v[1] != 0}, const
def unlin(terms, const):
    r = None
    for t, c in terms.values():
        u = t if c == 1 else c * t
        r = u if r is None else r + u
    if r is None: return const
    return simp(r + const) if const else simp(r)
def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    return simp(zi(a) + zi(b))
def sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    return simp(zi(a) - zi(b))
def mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    return simp(zi(a) * zi(b))
def div_exact(e, s):
    """e / s if every coefficient is divisible, else None"""
    t, c = lin(e)
    if c % s: return None
    for _, (x, k) in t.items():
        if k % s: return None
    return unlin({i: (x, k // s) for i, (x, k) in t.items()}, c // s)

# ------------------------------------------------------------------ state
class State:
    __slots__ = ("mem", "fam", "flen", "pc", "facts", "trace", "ghost", "exc", "uncaught", "caught")
    def __init__(s):
        s.mem = {}; s.fam = {}; s.flen = {}; s.pc = (); s.facts = (); s.trace = (); s.ghost = {}
        s.exc = None; s.uncaught = 0; s.caught = ()
    def copy(s):
        o = State.__new__(State)
        o.mem = dict(s.mem); o.fam = dict(s.fam); o.flen = dict(s.flen); o.pc = s.pc; o.facts = s.facts
        o.trace = s.trace; o.ghost = dict(s.ghost); o.exc = s.exc; o.uncaught = s.uncaught; o.caught = s.caught
        return o
    def assume(s, c):
        if c is True: return s
        s.pc = s.pc + (zb(c),); return s
    def know(s, c):
        """quantified (heavy) fact: used in obligations only"""
        s.facts = s.facts + (c,); return s
    def emit(s, *ev): s.trace = s.trace + (ev,)

class Smt:
    """light incremental queries used for branch feasibility"""
    def __init__(s):
        s.s = z3.Solver(); s.s.set("timeout", 3000); s.stack = []; s.nq = 0; s.t = 0.0
    def _sync(s, pc):
        i = 0; st = s.stack
        while i < len(st) and i < len(pc) and st[i] is pc[i]: i += 1
        if len(st) > i:
            s.s.pop(len(st) - i); del st[i:]
        for c in pc[i:]:
            s.s.push(); s.s.add(c); st.append(c)
    def check(s, pc, *extra):
        t = time.time()
        s._sync(pc); s.nq += 1
        if extra:
            s.s.push()
            for e in extra: s.s.add(zb(e))
            r = s.s.check(); s.s.pop()
        else: r = s.s.check()
        s.t += time.time() - t
        return r
    def entails(s, st, c):
        if c is True: return True
        if c is False: return s.check(st.pc) == z3.unsat
        return s.check(st.pc, z3.Not(c)) == z3.unsat
    def feasible(s, st, c=True):
        if c is False: return False
        if c is True: return s.check(st.pc) != z3.unsat
        return s.check(st.pc, c) != z3.unsat
