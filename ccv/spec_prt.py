"""Contracts for mimic++/Printer.hpp (C25): which form is chosen for a value, and that every part of it is printed once and in order.

The output goes to an opaque iterator. Its position is a text: every primitive output (the
characters and fields of a std::format_to call, a user printer, a nested print, which is
under its own contract) is appended to the text it starts from, so that the final text
determines every part, its place and the value shown; a lost, doubled or reordered part is
a different text."""
import z3, re
from core import *
from prove import *
import exe, ll, models, strings
from models import R, nop
from spec_seq import new, INT_MAX
from spec_pol import S
I, B = z3.IntSort(), z3.BoolSort()
MAXN = 1 << 56
BITS = dict(strings.INTS, **{"unsigned char": 8, "signed char": 8, "char8_t": 8, "char16_t": 16, "char32_t": 32, "wchar_t": 32})
ENUMS = {"mimicpp::ValueCategory": 32, "mimicpp::Constness": 32}
def bare(t): return re.sub(r"\s+", " ", re.sub(r"^const | const(?=[&]*$)|&+$| const(?=[&]*$)", "", re.sub(r"&+$", "", t.strip()))).strip()
def targs(d, rx):
    m = re.search(rx, d); i = m.end(); dep = 1; j = i
    while dep:
        if not (d[j] == ">" and d[j - 1] == "-"): dep += {"<": 1, ">": -1}.get(d[j], 0)
        j += 1
    return strings.tmpl_args(d[i:j - 1])
def value(ex, st, ty, p):
    """what a value of type ty at p is to an event"""
    t = bare(ty)
    if t in BITS or t in ENUMS:
        w = BITS.get(t) or ENUMS[t]; x = ex.load(st, p, ll.INT(w))
        if isinstance(x, (Ptr, PInt)): return x
        if (t.startswith("unsigned") or t.startswith("char") and t != "char") and is_sym(x): x = ex.u(st, x, w)
        return ite(x, 1, 0) if isbool(x) else ex.num(x)
    if t.startswith("std::__cxx11::basic_string<char,"): return strings.get(ex, st, p)
    if t.startswith("std::basic_string_view<char,"): return strings.view(ex, st, p)
    if t in ("char const*", "char*"):
        q = ex.load(st, p, ll.PTR); x = strings.text_of(q)
        if x is None and isinstance(q, Ptr) and isinstance(q.base, Block): x = strings.lit(literal(ex, st, q))
        if x is None: raise Unsupported("formatted C string")
        return x
    if t.startswith("vu::"): return p
    if re.match(r"char (const )?(\(&\) )?\[\d+\]$", t):
        n = int(re.search(r"\d+", t).group(0)); x = strings.bytes_at(ex, st, p, n); return strings.lit(x[:x.index("\0")])
    raise Unsupported("formatted value of type " + t)
CH, FIELD, PART = z3.Function("char", I, I, I), z3.Function("field", I, I, I), z3.Function("printed", I, I, I, I)
def literal(ex, st, p):
    n = 0
    while strings.bytes_at(ex, st, p, n + 1)[-1] != "\0": n += 1
    return strings.bytes_at(ex, st, p, n)
def obj(x):
    """what identifies a printed object or a formatted value"""
    if isinstance(x, PInt):
        if x.d != 0: raise Unsupported("printed address")
        x = x.p
    if not isinstance(x, Ptr): return zi(x)
    if isinstance(x.base, Family): return z3.Function("object:" + x.base.name, I, I, I)(zi(x.off), zi(x.idx))
    if isinstance(x.base, (Block, Region)) and isinstance(x.off, int): return z3.Int(f"object:{x.base.name}:{x.off}")
    if x is NULL or exe.veq(x, NULL): return z3.Int("object:null")
    raise Unsupported("printed object")
def field(t, spec, v):
    """one formatted value appended to t; a known text is its characters"""
    v = obj(v)
    if not spec and is_sym(v):
        if z3.is_app_of(v, z3.Z3_OP_ITE): c, a, b = v.children(); return z3.If(c, field(t, spec, a), field(t, spec, b))
        if z3.is_const(v) and v.decl().name().startswith("lit:"):
            for x in v.decl().name()[4:]: t = CH(t, ord(x))
            return t
    return (z3.Function("field" + spec, I, I, I) if spec else FIELD)(t, v)
TOK = r"\{\{|\}\}|\{(:[^{}]*)?\}|[^{}]"
def W(f, t, *v):
    """f formatted with v and appended to t: one term per character and field, so that splitting an output changes nothing"""
    t = zi(t); v = list(v)
    for m in re.finditer(TOK, f, re.S):
        x = m.group(0); t = field(t, m.group(1) or "", v.pop(0)) if x[0] == "{" and x != "{{" else CH(t, ord(x[0]))
    if v or re.sub(TOK, "", f, flags=re.S): raise Unsupported("format string " + f)
    return t
def rng(st, t): st.assume(z3.And(t >= -(1 << 63), t < (1 << 63))); return t          # texts are numbered by 64-bit values
def part(t, ty, p): return PART(zi(t), z3.Int("type:" + ty), obj(p))
class Fold:
    """text after k elements of a loop: F(t, 0) = t, F(t, j+1) = step(F(t, j), j); candidate invariants for loop-carried texts:
    k elements are printed, or (first element printed before the loop) k + 1"""
    def __init__(f, s, name, start, step, first=False):
        f.F = z3.Function(name, I, I, I); f.start = zi(start); j, t = z3.Ints("j t"); st = s.st; st.know(z3.ForAll([t], f.F(t, 0) == t, patterns=[f.F(t, 0)])); st.know(z3.ForAll([t, j], z3.Implies(j >= 0, f.F(t, j + 1) == step(f.F(t, j), j)), patterns=[f.F(t, j + 1)]))
        s.ex.candidates.append(lambda ex, st, acc, k, loc: [acc.term(k) == f.F(zi(acc.raw(acc.v0)), k)] if acc.kind == "int" else [])
        if first:
            f.G = z3.Function(name + "_and_one", I, I); st.know(f.G(0) == step(f.start, z3.IntVal(0))); st.know(z3.ForAll([j], z3.Implies(j >= 0, f.G(j + 1) == step(f.G(j), j + 1)), patterns=[f.G(j + 1)]))
            u = st.copy(); q = z3.Int("upto"); u.assume(z3.And(q >= 0, f.F(f.start, q + 1) == f.G(q))); s.ex.oblige(u, "text of a list, first element apart (induction)", z3.And(f.F(f.start, (q + 1) + 1) == f.G(q + 1)), "contract")
            u = st.copy(); u.know(f.F(f.start, z3.IntVal(1)) == step(f.F(f.start, z3.IntVal(0)), z3.IntVal(0))); s.ex.oblige(u, "text of a list, first element apart (base)", f.F(f.start, z3.IntVal(1)) == f.G(0), "contract"); st.know(z3.ForAll([j], z3.Implies(j >= 0, f.F(f.start, j + 1) == f.G(j)), patterns=[f.G(j)]))
            s.ex.candidates.append(lambda ex, st, acc, k, loc: [acc.term(k) == f.G(zi(k))] if acc.kind == "int" else [])
    def __call__(f, n, t=None): return f.F(f.start if t is None else zi(t), zi(n))
def setup(unit):
    ex, st = new(unit); strings.install_strings(ex); s = S(); s.ex = ex; s.st = st; s.unit = unit; C = ex.contract; s.top = True
    def fmt(ex, st, a, name):
        ts = targs(ex.dem(name), r"std::format_to<")[1:]; pos, n, q, vals = a[0], a[1], a[2], a[3:]
        if isinstance(n, Ptr): raise Unsupported("format string by address")
        ex.oblige(st, "as many values as arguments", len(ts) == len(vals), "contract"); return R(st, rng(st, W(strings.bytes_at(ex, st, q, n), pos, *[value(ex, st, t, v) for t, v in zip(ts, vals)])))
    C(r"(^| )std::format_to<vu::Out", fmt, "std::format_to (text is a function of format string and arguments, appended at the output position; no exception)")
    C(r"^mimicpp::custom::Printer<(vu::\w+|char16_t)>::print\(vu::Out, ", lambda ex, st, a, name: R(st, rng(st, part(a[0], "custom " + targs(ex.dem(name), r"mimicpp::custom::Printer<")[0], a[1]))), "opaque user printer (appends at the output position; no exception)")
    def nested(ex, st, a, name):
        t = bare(targs(ex.dem(name), r"::operator\(\)<")[1])
        if s.top or t == "std::nullopt_t": s.top = False; return ex.run(name, a, st, contract=False)
        return R(st, rng(st, part(a[1], t, a[2])))
    C(r"^(vu::Out )?mimicpp::detail::PrintFn::operator\(\)<vu::Out, ", nested, "print of a part (each instance is under its own contract)", trusted=False)
    s.pos = z3.Int("text_so_far"); rng(st, s.pos); return s
class Want:
    """the expected text"""
    def __init__(w, s, st): w.s = s; w.t = s.pos; w.st = st
    def fmt(w, f, *v): w.t = W(f, w.t, *v); return w
    def custom(w, t, p): w.t = part(w.t, "custom " + t, p); return w
    def part(w, t, p): w.t = part(w.t, t, p); return w
    def loop(w, n, step, sep=True): w.t = Fold(w.s, "elements_text", w.t, lambda t, j: step(z3.If(zi(j) == 0, t, W(", ", t)) if sep else t, j), first=True)(n); return w
def block(s, name, cells, size=64): b = s.ex.new_block(s.st, name, "undef", size); s.st.mem[b] = dict(cells); return Ptr(b)
def seq(s, kind, w, name="elements"):
    """a range of n elements of w bytes: (object, first element, n)"""
    fam = Family(name, w, {0: (4 if w >= 4 else w, f"i{8 * min(w, 4)}")}); n = z3.Int(name + ".size"); s.st.flen[fam] = n; s.st.assume(z3.And(n >= 0, n <= MAXN)); at = lambda k: Ptr(fam, 0, k)
    if kind == "vec": p = block(s, "the value", {0: (8, at(0)), 8: (8, at(n)), 16: (8, at(z3.Int("capacity")))}, 24)
    elif kind == "rng": p = block(s, "the value", {0: (8, at(0)), 8: (8, at(n))}, 64)
    elif kind == "span": p = block(s, "the value", {0: (8, at(0)), 8: (8, n)}, 16)
    elif kind == "view": p = block(s, "the value", {0: (8, n), 8: (8, at(0))}, 16)
    elif kind == "str": p = block(s, "the value", {0: (8, at(0)), 8: (8, n)}, 32)
    return p, at, n
ELEM = dict(u=("vu::U", 4), f=("vu::F", 4), n=("vu::N", 4), i=("int", 4), uv=("std::vector<vu::U, std::allocator<vu::U>>", 24), t=("std::tuple<vu::U, vu::F>", 8), o=("std::optional<vu::U>", 8))
RANGES = dict(fr=("rng", "u"), vu_=("vec", "u"), vf=("vec", "f"), vn=("vec", "n"), vi=("vec", "i"), sp=("span", "u"), rg=("rng", "f"), vv=("vec", "uv"), vt=("vec", "t"), vo=("vec", "o"))
TUPLES = dict(tup=("vu::U", "vu::N", "vu::F", "int"), t0=(), pr=("vu::F", "vu::U"), arr=("vu::U",) * 3, ft=("int", "vu::U"), tr=("vu::U", "vu::U"))
OPTS = dict(opt=("vu::U", r"std::optional<(struct )?vu::U>"), optf=("vu::F", r"std::optional<(struct )?vu::F>"), optt=("std::pair<vu::U, vu::F>", r"std::optional<(struct )?std::pair<.*vu::U,.*vu::F ?> ?>"))
INTS = dict(i=32, b=1, ch=8, sz=-64, cat=32, con=32)
CUSTOM = dict(u="vu::U", uf="vu::UF", ur="vu::UR", ut="vu::UT")
DUMPS = dict(ws=("str", 4, "L"), wv=("view", 4, "L"), u8=("view", 1, "u8"), u32=("view", 4, "U"))
def p_print(unit, name, how):
    s = setup(unit); ex, st = s.ex, s.st; plans = []
    def plan(f, g=True): plans.append((g, f))
    if name in CUSTOM: p = block(s, "the value", {0: (4, z3.Int("data"))}); plan(lambda w: w.custom(CUSTOM[name], p))
    elif name == "f": p = block(s, "the value", {0: (4, z3.Int("data"))}); plan(lambda w: w.fmt("{}", p))
    elif name in ("n", "e"): p = block(s, "the value", {0: (4, z3.Int("data"))}); plan(lambda w: w.fmt("{{?}}"))
    elif name in INTS:
        w_ = INTS[name]; x = z3.Bool("value") if w_ == 1 else z3.Int("value"); b = abs(w_)
        if w_ != 1: st.assume(z3.And(x >= -(1 << b - 1), x < (1 << b - 1)))
        v = z3.If(x, 1, 0) if w_ == 1 else z3.If(x < 0, x + (1 << b), x) if w_ < 0 else x
        p = block(s, "the value", {0: (max(1, b // 8), x)}); plan(lambda w: w.fmt("{}", v))
    elif name in ("p", "pc", "pv", "np"):
        q = NULL if name == "np" else Ptr(Region("pointee")); p = block(s, "the value", {0: (8, q)}); plan(lambda w: w.fmt("0x{:0>16x}", q))
    elif name in RANGES:
        kind, e = RANGES[name]; et, ew = ELEM[e]; p, at, n = seq(s, kind, ew)
        plan(lambda w: w.fmt("{{ ").loop(n, lambda t, j: part(t, et, at(j))).fmt(" }}"))
    elif name in TUPLES:
        p = block(s, "the value", {}); acc = [ex.run(unit.fn(rf"^vu::{name}_{i}\("), [p], st.copy())[0][1] for i in range(len(TUPLES[name]))]
        def f(w):
            w.fmt("{{ ")
            for i, (t, q) in enumerate(zip(TUPLES[name], acc)):
                if i: w.fmt(", ")
                w.part(t, q)
            w.fmt(" }}")
        plan(f)
    elif name in OPTS:
        t, rx = OPTS[name]; p = block(s, "the value", {}); q = ex.run(unit.fn(rf"^vu::{name}_v\("), [p], st.copy())[0][1]; r = [o for o, d, m in unit.layout.find(rx, pick=True).mem if re.search(r"\b_M_engaged$", m)]
        if len(r) != 1: raise Unsupported("layout of std::optional")
        h = z3.Bool("has_value"); st.mem[p.base][r[0]] = (1, h)
        plan(lambda w: w.fmt("{{ value: ").part(t, q).fmt(" }}"), h); plan(lambda w: w.fmt("nullopt"), z3.Not(h))
    elif name == "no": p = block(s, "the value", {}); plan(lambda w: w.fmt("nullopt"))
    elif name in ("s", "sv", "cs"):
        t = z3.Int("text"); L = strings.LEN(t); st.assume(z3.And(L >= 0, L <= MAXN))
        if name == "s": b = ex.new_block(st, "the value", "undef", 32); p = Ptr(b); strings.put(ex, st, p, t)
        elif name == "sv": p = block(s, "the value", {0: (8, L), 8: (8, strings.text_ptr(t))})
        else: p = block(s, "the value", {0: (8, strings.text_ptr(t))})
        plan(lambda w: w.fmt('"').fmt("{}", t).fmt('"'))
    elif name in DUMPS:
        kind, w_, prefix = DUMPS[name]; p, at, n = seq(s, kind, w_); A = ex.fam_arr(st, at(0).base, 0); k_ = 8 * w_
        def val(k): v = A[zi(k)]; return z3.If(v < 0, v + (1 << k_), v)
        plan(lambda w: w.fmt(prefix + '"').loop(n, lambda t, j: W("{:#x}", t, val(j))).fmt('"'))
    elif name == "u16":
        p, at, n = seq(s, "view", 2); plan(lambda w: w.fmt('u"').loop(n, lambda t, j: part(t, "custom char16_t", at(j)), sep=False).fmt('"'))
    elif name == "loc":
        file, func, ln, co = (z3.Int(x) for x in ("file", "function", "line", "column")); U = lambda x: ex.u(st, x, 32)
        for x in (ln, co): st.assume(z3.And(x >= -(1 << 31), x <= INT_MAX))
        ul, uc = U(ln), U(co)
        d = block(s, "location", {0: (8, strings.text_ptr(file)), 8: (8, strings.text_ptr(func)), 16: (4, ln), 20: (4, co)}, 24); p = block(s, "the value", {0: (8, d)}, 8); plan(lambda w: w.fmt("{}[{}:{}], {}", file, ul, uc, func))
    else: raise Unsupported("no such printing " + name)
    want = []
    for g, f in plans: w = Want(s, st); f(w); want.append((g, w.t))
    pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::{name}_{how}\("), [s.pos, p], st); specs = [(g, "ret", t, pre) for g, t in want]
    check(ex, pre, outs, specs, f"print({name}, {dict(c='const', l='lvalue', r='rvalue')[how]})"); return ex
def p_string(unit, how):
    """print to a text: a fresh stream, the whole value, the text of that stream"""
    s = setup(unit); ex, st = s.ex, s.st; C = ex.contract; made = []
    def ctor(ex, st, a, name): made.append(a[0]); st.emit("stream"); ex.store_raw(st, a[0], 8, Ghost("stream", 0, 8)); return R(st)
    C(r"^std::__cxx11::basic_ostringstream<.*>::basic_ostringstream\(\)", ctor, "std::ostringstream()")
    C(r"^std::__cxx11::basic_ostringstream<.*>::~basic_ostringstream\(\)", nop, "std::ostringstream destructor")
    C(r"^std::ostreambuf_iterator<.*>::ostreambuf_iterator\(std::basic_ostream|^std::ostreambuf_iterator<.*>::ostreambuf_iterator\(std::ostream", lambda ex, st, a, n: (ex.store_raw(st, a[0], 8, a[1]), ex.store_raw(st, ex.padd(a[0], 8), 1, 0), R(st))[2], "std::ostreambuf_iterator(stream)")
    def nested(ex, st, a, name):
        q = a[1]; q = ex.load(st, q, ll.PTR) if isinstance(q, Ptr) and q.base is not (made[0].base if made else None) else q
        g = ex.load_raw(st, q, 8); v = a[-1]
        if not (isinstance(g, Ghost) and g.sort == "stream"): raise Unsupported("stream")
        ex.store_raw(st, q, 8, Ghost("stream", simp(z3.Function("written", I, I, I)(zi(g.t), z3.Int("the_value"))), 8)); st.emit("print", bare(targs(ex.dem(name), r"::operator\(\)<")[1]), v); 
        return R(st, [q, 0])
    C(r"^(\S+ )*mimicpp::detail::PrintFn::operator\(\)<std::ostreambuf_iterator<", nested, "print to an iterator (under its own contract)", trusted=False)
    def text(ex, st, a, name):
        g = ex.load_raw(st, a[1], 8)
        strings.put(ex, st, a[0], z3.Function("text", I, I)(zi(g.t))); return R(st)
    C(r"^std::__cxx11::basic_ostringstream<.*>::str\(\)", text, "std::ostringstream::str")
    p = block(s, "the value", {0: (4, z3.Int("data"))}); b = ex.new_block(st, "result", "undef", 32); pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::str_{how}\("), [Ptr(b), p], st); sp = pre.copy(); sp.emit("stream"); sp.emit("print", "vu::U", p)
    def post(t, t2, ob): ob("the text printed is the result", simp(zi(strings.get(ex, t, Ptr(b))) == z3.Function("text", I, I)(z3.Function("written", I, I, I)(0, z3.Int("the_value")))))
    check(ex, pre, outs, [(True, "ret", None, sp)], f"print to text ({how})", ignore=(b,), post=post); return ex
def p_enum(unit, which):
    """the texts of value categories and constness"""
    s = setup(unit); ex, st = s.ex, s.st
    def base(ex, st, a, name):
        st.emit("text", strings.view_of(ex, st, a[1], a[2]), a[3]); return R(st, [Ptr(Region("out")), 0] if False else Ptr(Region("out")))
    ex.contract(r"^(.* )?std::(formatter<std::basic_string_view<char.*|__format::__formatter_str<.*)::format<", base, "std::formatter<std::string_view>::format")
    f, c = Ptr(Region("formatter")), Ptr(Region("context")); x = z3.Int("value"); names = dict(cat=[(None, "lvalue"), (None, "rvalue"), (None, "any")], con=[(None, "mutable"), (None, "const"), (None, "any")])[which]
    vs = [ex.run(unit.fn(rf"^vu::{which}_is_{n}[\[(]"), [], State())[0][1] for _, n in names]; st.assume(z3.Or(*[x == v for v in vs])); pre = st.copy(); outs = ex.run(unit.fn(rf"^vu::{which}_text\("), [f, x, c], st); specs = []
    for v, (_, n) in zip(vs, names):
        sp = pre.copy(); sp.emit("text", strings.lit(n), c); specs.append((x == v, "ret", ANY, sp))
    check(ex, pre, outs, specs, f"text of {which}"); return ex
