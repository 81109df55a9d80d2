"""Parser for the subset of textual LLVM IR that clang -O0 emits.

Everything in the file is kept: functions are indexed by name and parsed on
demand.  Nothing is dropped except attributes, alignment and debug metadata
(the latter is used only to map member names to offsets)."""
import re, subprocess

class ParseError(Exception): pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a")
    def __init__(s, k, a=None): s.k = k; s.a = a
    def __repr__(s):
        if s.k == "int": return f"i{s.a}"
        if s.k == "named": return f"%{s.a}"
        if s.k == "struct": return "{" + ",".join(map(repr, s.a[0])) + "}"
        if s.k in ("array", "vector"): return f"[{s.a[0]} x {s.a[1]!r}]"
        return s.k
    def __eq__(s, o): return isinstance(o, Ty) and s.k == o.k and s.a == o.a
    def __hash__(s): return hash((s.k, repr(s.a)))
PTR = Ty("ptr"); VOID = Ty("void")
_ints = {}
def INT(n):
    if n not in _ints: _ints[n] = Ty("int", n)
    return _ints[n]

TOK = re.compile(r'''\s*(?:
  (?P<cstr>c"[^"]*")
 |(?P<str>"[^"]*")
 |(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#\d+)
 |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<float>-?\d+\.\d*(?:e[-+]?\d+)?)
 |(?P<num>-?\d+)
 |(?P<dots>\.\.\.)
 |(?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 |(?P<punct>[(){}\[\]<>,=*:|^])
)''', re.X)

def tokenize(s):
    out = []; p = 0; n = len(s)
    while p < n:
        m = TOK.match(s, p)
        if not m or m.end() == p:
            if s[p:].strip() == "": break
            raise ParseError("tok: " + s[p:p+60])
        k = m.lastgroup; t = m.group(k)
        out.append((k, t)); p = m.end()
    return out

def unq(t):
    t = t[1:]
    return t[1:-1] if t.startswith('"') else t

PARAM_ATTRS = {"noundef","nonnull","zeroext","signext","noalias","nocapture","readonly","readnone","writeonly","returned","inreg","nest","immarg","noext","dead_on_unwind","writable","swiftself","allocptr","nofree"}
PARAM_ATTRS_ARG = {"align","dereferenceable","dereferenceable_or_null","sret","byval","byref","elementtype","nofpclass","range","initializes","captures"}

class Cur:
    __slots__ = ("t", "i")
    def __init__(s, toks): s.t = toks; s.i = 0
    def peek(s, o=0): return s.t[s.i+o] if s.i+o < len(s.t) else (None, None)
    def next(s):
        r = s.t[s.i]; s.i += 1; return r
    def acc(s, txt):
        if s.i < len(s.t) and s.t[s.i][1] == txt: s.i += 1; return True
        return False
    def exp(s, txt):
        k, t = s.next()
        if t != txt: raise ParseError(f"expected {txt} got {t}: {' '.join(x[1] for x in s.t)[:200]}")
    def eof(s): return s.i >= len(s.t)

def parse_type(c):
    k, t = c.next()
    if k == "word":
        if t == "ptr":
            if c.peek()[1] == "addrspace":
                c.next(); c.exp("("); c.next(); c.exp(")")
            return PTR
        if t == "void": return VOID
        if re.fullmatch(r"i\d+", t): return INT(int(t[1:]))
        if t in ("float","double","x86_fp80","half","fp128","metadata","label","token","opaque"): return Ty(t)
        raise ParseError("type word " + t)
    if k == "loc": return Ty("named", unq(t))
    if t == "{":
        el = []
        if not c.acc("}"):
            while True:
                el.append(parse_type(c))
                if c.acc("}"): break
                c.exp(",")
        return Ty("struct", (tuple(el), False))
    if t == "<":
        if c.peek()[1] == "{":
            c.next(); el = []
            if not c.acc("}"):
                while True:
                    el.append(parse_type(c))
                    if c.acc("}"): break
                    c.exp(",")
            c.exp(">")
            return Ty("struct", (tuple(el), True))
        n = int(c.next()[1]); c.exp("x"); e = parse_type(c); c.exp(">")
        return Ty("vector", (n, e))
    if t == "[":
        n = int(c.next()[1]); c.exp("x"); e = parse_type(c); c.exp("]")
        return Ty("array", (n, e))
    raise ParseError("type " + str(t))

def parse_full_type(c):
    """type possibly followed by a function type parameter list (call sites)"""
    ty = parse_type(c)
    if c.peek()[1] == "(" :
        # function type
        d = 0
        while True:
            t = c.next()[1]
            if t == "(": d += 1
            if t == ")":
                d -= 1
                if d == 0: break
        return Ty("fn", ty)
    return ty

def skip_attrs(c):
    attrs = {}
    while True:
        k, t = c.peek()
        if k == "word" and t in PARAM_ATTRS: c.next(); attrs[t] = True
        elif k == "word" and t in PARAM_ATTRS_ARG:
            c.next()
            if c.peek()[1] == "(":
                c.next()
                if t in ("sret","byval","byref","elementtype"):
                    attrs[t] = parse_type(c); c.exp(")")
                else:
                    d = 1; v = []
                    while d:
                        x = c.next()[1]
                        if x == "(": d += 1
                        elif x == ")": d -= 1
                        v.append(x)
                    attrs[t] = v
            else: c.next()
        elif k == "str":      # "attr"="x"
            c.next()
            if c.acc("="): c.next()
        else: return attrs

# ---------------------------------------------------------------- constants / operands
# operand: ('local',name) ('global',name) ('int',v) ('null',) ('undef',) ('zero',)
#          ('agg',[ (ty,op) ]) ('str',bytes) ('ce',op,...) ('fp',txt) ('bool',b) ('meta',)
CAST = {"bitcast","ptrtoint","inttoptr","trunc","zext","sext","addrspacecast"}
def parse_val(c, ty):
    k, t = c.next()
    if k == "loc": return ("local", unq(t))
    if k == "glob": return ("global", unq(t))
    if k == "num":
        if ty.k in ("float","double"): return ("fp", t)
        return ("int", int(t))
    if k in ("float","hex"): return ("fp", t)
    if k == "cstr": return ("str", cbytes(t[2:-1]))
    if k == "meta": return ("meta",)
    if k == "word":
        if t == "true": return ("int", 1)
        if t == "false": return ("int", 0)
        if t == "null": return ("null",)
        if t in ("undef","poison"): return ("undef",)
        if t == "zeroinitializer": return ("zero",)
        if t == "getelementptr":
            while c.peek()[1] in ("inbounds","nuw","nusw"): c.next()
            if c.peek()[1] == "inrange":
                c.next(); c.exp("(")
                while not c.acc(")"): c.next()
            c.exp("(")
            bty = parse_type(c); c.exp(",")
            ops = []
            while True:
                if c.peek()[1] == "inrange": c.next()
                ot = parse_type(c); ops.append((ot, parse_val(c, ot)))
                if c.acc(")"): break
                c.exp(",")
            return ("ce", "gep", bty, ops)
        if t in CAST:
            c.exp("("); ot = parse_type(c); v = parse_val(c, ot); c.exp("to"); tt = parse_type(c); c.exp(")")
            return ("ce", "cast", t, ot, v, tt)
        if t in ("sub","add","xor","and","or","shl","mul","icmp"):
            while c.peek()[1] in ("nsw","nuw"): c.next()
            pred = None
            if t == "icmp": pred = c.next()[1]
            c.exp("("); at = parse_type(c); a = parse_val(c, at); c.exp(","); bt = parse_type(c); b = parse_val(c, bt); c.exp(")")
            return ("ce", "bin", t, at, a, b, pred)
        if t in ("dso_local_equivalent","no_cfi"):
            return parse_val(c, ty)
        raise ParseError("val word " + t)
    if t == "{" or t == "[" or t == "<":
        close = {"{":"}","[":"]","<":">"}[t]
        el = []
        packed = False
        if t == "<" and c.peek()[1] == "{":
            c.next(); close = "}"; packed = True
        if not c.acc(close):
            while True:
                et = parse_type(c); el.append((et, parse_val(c, et)))
                if c.acc(close): break
                c.exp(",")
        if packed: c.exp(">")
        return ("agg", el)
    raise ParseError("val " + str((k, t)))

def cbytes(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i+1] == "\\": out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

class Ins:
    __slots__ = ("op", "res", "a", "line", "txt")
    def __init__(s, op, res, a, line): s.op = op; s.res = res; s.a = a; s.line = line; s.txt = None
    def __repr__(s): return s.txt or s.op

class Func:
    def __init__(s, name, hdr, lines):
        s.name = name; s.hdr = hdr; s.lines = lines; s._parsed = False; s.blocks = None; s.order = None
        s.params = None; s.ret = None; s.retattrs = {}
        s.noexcept = False
    def parse(s):
        if not s._parsed:
            parse_fn(s); s._parsed = True
        return s

ANYLINK = re.compile(r"^define\b(.*?)(@(?:\"[^\"]*\"|[-a-zA-Z$._0-9]+))\(")

def parse_header(f):
    h = f.hdr
    m = ANYLINK.match(h)
    pre = h[len("define"):m.start(2)]
    c = Cur(tokenize(pre))
    # skip linkage words until a type parses last
    words = {"weak_odr","linkonce_odr","dso_local","internal","private","hidden","protected","weak","linkonce","unnamed_addr","local_unnamed_addr","external","available_externally","default","fastcc","ccc","tailcc","dso_preemptable"}
    while c.peek()[1] in words: c.next()
    f.retattrs = skip_attrs(c)
    f.ret = parse_type(c)
    # params
    p = m.end() ; d = 1; q = p; inq = False
    while d:
        ch = h[q]
        if ch == '"': inq = not inq
        elif not inq:
            if ch == "(": d += 1
            elif ch == ")": d -= 1
        q += 1
    ptxt = h[p:q-1]
    c = Cur(tokenize(ptxt)); f.params = []; f.vararg = False
    n = 0
    while not c.eof():
        if c.peek()[0] == "dots": c.next(); f.vararg = True; break
        ty = parse_type(c); at = skip_attrs(c)
        if c.peek()[0] == "loc": nm = unq(c.next()[1])
        else: nm = str(n)
        if nm.isdigit(): n = int(nm) + 1
        f.params.append((ty, nm, at))
        if not c.acc(","): break
    f.nextnum = n
    f.tail = h[q:]

def parse_fn(f):
    parse_header(f)
    blocks = {}; order = []
    cur = None; unn = f.nextnum
    LBL = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):(\s*;.*)?$')
    i = 0; L = f.lines
    first = True
    while i < len(L):
        ln = L[i]; i += 1
        s = ln.strip()
        if not s or s.startswith(";"): continue
        m = LBL.match(ln) if not ln.startswith(" ") else None
        if m:
            nm = m.group(1)
            if nm.startswith('"'): nm = nm[1:-1]
            cur = []; blocks[nm] = cur; order.append(nm); first = False
            continue
        if cur is None:
            nm = str(f.nextnum)
            cur = []; blocks[nm] = cur; order.append(nm)
        # multi-line instructions
        if s.startswith("switch") or " = switch" in s:
            while not s.rstrip().endswith("]"):
                s += " " + L[i].strip(); i += 1
        elif "invoke " in s:
            if " unwind label " not in s:
                s += " " + L[i].strip(); i += 1
        elif "landingpad" in s:
            while i < len(L) and re.match(r"^\s+(cleanup|catch|filter)\b", L[i]):
                s += " " + L[i].strip(); i += 1
        s = strip_meta(s)
        try:
            ins = parse_ins(s)
        except ParseError as e:
            ins = Ins("unparsed", None, str(e) + " :: " + s, 0)
            m2 = re.match(r"^(%\S+) =", s)
            if m2: ins.res = unq(m2.group(1))
        ins.txt = s
        cur.append(ins)
    f.blocks = blocks; f.order = order; f.entry = order[0]
    succ = {}
    for b, il in blocks.items():
        t = il[-1]; ss = []
        if t.op == "br": ss = [t.a[1], t.a[2]] if t.a[0] is not None else [t.a[1]]
        elif t.op == "switch": ss = [t.a[2]] + [x[1] for x in t.a[3]]
        elif t.op == "invoke": ss = [t.a["normal"], t.a["unwind"]]
        succ[b] = ss
    f.succ = succ
    compute_loops(f)

def compute_loops(f):
    # reachable, dominators, natural loops
    order = []; seen = set()
    st = [(f.entry, iter(f.succ[f.entry]))]; seen.add(f.entry)
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x); st.append((x, iter(f.succ[x]))); break
        else:
            order.append(b); st.pop()
    rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for x in f.succ[b]: preds[x].append(b)
    idom = {f.entry: f.entry}; ch = True
    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]: a = idom[a]
            while idx[b] > idx[a]: b = idom[b]
        return a
    while ch:
        ch = False
        for b in rpo[1:]:
            n = None
            for p in preds[b]:
                if p in idom: n = p if n is None else inter(p, n)
            if idom.get(b) != n: idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for h in f.succ[b]:
            if dom(h, b):
                body = loops.setdefault(h, {h})
                stk = [b]
                while stk:
                    x = stk.pop()
                    if x in body: continue
                    body.add(x); stk.extend(preds[x])
    f.loops = loops

def strip_meta(s):
    # remove trailing ', !dbg !123' etc. (metadata attachments) and attribute groups
    s = re.sub(r'(, ![a-zA-Z_.]+ ![-0-9a-zA-Z._]+)+\s*$', '', s)
    return s

def parse_callargs(c):
    args = []
    c.exp("(")
    if c.acc(")"): return args
    while True:
        ty = parse_type(c)
        at = skip_attrs(c)
        if ty.k == "metadata":
            # skip metadata operand
            d = 0
            while True:
                k, t = c.peek()
                if d == 0 and t in (",", ")"): break
                if t == "(": d += 1
                if t == ")": d -= 1
                c.next()
            args.append((ty, ("meta",), at))
        else:
            args.append((ty, parse_val(c, ty), at))
        if c.acc(")"): break
        c.exp(",")
    return args

FLAGS = {"nsw","nuw","exact","inbounds","fast","nnan","ninf","nsz","arcp","contract","afn","reassoc","disjoint","nneg","nusw","samesign"}
BIN = {"add","sub","mul","sdiv","udiv","srem","urem","and","or","xor","shl","lshr","ashr","fadd","fsub","fmul","fdiv","frem"}
CASTI = {"zext","sext","trunc","ptrtoint","inttoptr","bitcast","fptosi","fptoui","sitofp","uitofp","fpext","fptrunc","addrspacecast"}

def parse_ins(s):
    c = Cur(tokenize(s))
    res = None
    if c.peek()[0] == "loc" and c.peek(1)[1] == "=":
        res = unq(c.next()[1]); c.next()
    k, op = c.next()
    if op in ("tail","musttail","notail"): op = c.next()[1]
    if op == "alloca":
        c.acc("inalloca")
        ty = parse_type(c); n = None
        if c.acc(","):
            if c.peek()[1] != "align":
                nt = parse_type(c); n = (nt, parse_val(c, nt))
        return Ins("alloca", res, (ty, n), 0)
    if op == "load":
        at = c.acc("atomic"); c.acc("volatile")
        ty = parse_type(c); c.exp(","); pt = parse_type(c)
        return Ins("load", res, (ty, parse_val(c, pt)), 0)
    if op == "store":
        at = c.acc("atomic"); c.acc("volatile")
        ty = parse_type(c); v = parse_val(c, ty); c.exp(","); pt = parse_type(c)
        return Ins("store", res, (ty, v, parse_val(c, pt)), 0)
    if op == "getelementptr":
        while c.peek()[1] in FLAGS: c.next()
        bty = parse_type(c); c.exp(",")
        pt = parse_type(c); base = parse_val(c, pt); idx = []
        while c.acc(","):
            t = parse_type(c); idx.append((t, parse_val(c, t)))
        return Ins("gep", res, (bty, base, idx), 0)
    if op in BIN:
        fl = set()
        while c.peek()[1] in FLAGS: fl.add(c.next()[1])
        ty = parse_type(c); a = parse_val(c, ty); c.exp(","); b = parse_val(c, ty)
        return Ins("bin", res, (op, ty, a, b, fl), 0)
    if op == "fneg":
        while c.peek()[1] in FLAGS: c.next()
        ty = parse_type(c); return Ins("fneg", res, (ty, parse_val(c, ty)), 0)
    if op in CASTI:
        while c.peek()[1] in FLAGS: c.next()
        ty = parse_type(c); v = parse_val(c, ty); c.exp("to"); tt = parse_type(c)
        return Ins("cast", res, (op, ty, v, tt), 0)
    if op in ("icmp","fcmp"):
        while c.peek()[1] in FLAGS: c.next()
        pred = c.next()[1]; ty = parse_type(c); a = parse_val(c, ty); c.exp(","); b = parse_val(c, ty)
        return Ins(op, res, (pred, ty, a, b), 0)
    if op == "br":
        if c.acc("label"): return Ins("br", None, (None, unq(c.next()[1]), None), 0)
        ty = parse_type(c); v = parse_val(c, ty); c.exp(","); c.exp("label"); a = unq(c.next()[1]); c.exp(","); c.exp("label"); b = unq(c.next()[1])
        return Ins("br", None, (v, a, b), 0)
    if op == "switch":
        ty = parse_type(c); v = parse_val(c, ty); c.exp(","); c.exp("label"); d = unq(c.next()[1]); c.exp("[")
        cs = []
        while not c.acc("]"):
            t = parse_type(c); cv = parse_val(c, t); c.exp(","); c.exp("label"); cs.append((cv[1], unq(c.next()[1])))
        return Ins("switch", None, (ty, v, d, cs), 0)
    if op == "ret":
        ty = parse_type(c)
        return Ins("ret", None, (ty, None if ty.k == "void" else parse_val(c, ty)), 0)
    if op == "unreachable": return Ins("unreachable", None, None, 0)
    if op == "resume":
        ty = parse_type(c); return Ins("resume", None, (ty, parse_val(c, ty)), 0)
    if op == "phi":
        ty = parse_type(c); inc = []
        while True:
            c.exp("["); v = parse_val(c, ty); c.exp(","); l = unq(c.next()[1]); c.exp("]"); inc.append((v, l))
            if not c.acc(","): break
        return Ins("phi", res, (ty, inc), 0)
    if op == "select":
        while c.peek()[1] in FLAGS: c.next()
        ct = parse_type(c); cv = parse_val(c, ct); c.exp(","); t1 = parse_type(c); a = parse_val(c, t1); c.exp(","); t2 = parse_type(c); b = parse_val(c, t2)
        return Ins("select", res, (cv, t1, a, b), 0)
    if op in ("call","invoke"):
        while c.peek()[1] in FLAGS or c.peek()[1] in ("fastcc","ccc","coldcc"): c.next()
        skip_attrs(c)
        rt = parse_full_type(c)
        if rt.k == "fn": rt = rt.a
        if c.peek()[1] == "asm":
            return Ins("asm", res, s, 0)
        cal = parse_val(c, PTR)
        args = parse_callargs(c)
        d = dict(ret=rt, callee=cal, args=args)
        if op == "invoke":
            while not c.acc("to"): c.next()
            c.exp("label"); d["normal"] = unq(c.next()[1]); c.exp("unwind"); c.exp("label"); d["unwind"] = unq(c.next()[1])
        return Ins(op, res, d, 0)
    if op == "landingpad":
        ty = parse_type(c); cl = []; cleanup = False
        while not c.eof():
            w = c.next()[1]
            if w == "cleanup": cleanup = True
            elif w in ("catch","filter"):
                t = parse_type(c); cl.append((w, parse_val(c, t)))
        return Ins("landingpad", res, (cleanup, cl), 0)
    if op == "extractvalue":
        ty = parse_type(c); v = parse_val(c, ty); ix = []
        while c.acc(","): ix.append(int(c.next()[1]))
        return Ins("extractvalue", res, (ty, v, ix), 0)
    if op == "insertvalue":
        ty = parse_type(c); v = parse_val(c, ty); c.exp(","); t2 = parse_type(c); v2 = parse_val(c, t2); ix = []
        while c.acc(","): ix.append(int(c.next()[1]))
        return Ins("insertvalue", res, (ty, v, t2, v2, ix), 0)
    if op == "freeze":
        ty = parse_type(c); return Ins("freeze", res, (ty, parse_val(c, ty)), 0)
    if op == "atomicrmw":
        c.acc("volatile"); o = c.next()[1]; pt = parse_type(c); p = parse_val(c, pt); c.exp(","); ty = parse_type(c); v = parse_val(c, ty)
        return Ins("atomicrmw", res, (o, p, ty, v), 0)
    if op == "fence": return Ins("fence", None, None, 0)
    raise ParseError("ins " + op)

# ---------------------------------------------------------------- module
class Module:
    def __init__(s, path):
        s.path = path
        txt = open(path).read()
        s.types = {}; s.funcs = {}; s.decls = {}; s.globals = {}; s.aliases = {}
        s.meta = {}
        lines = txt.split("\n"); i = 0; n = len(lines)
        GL = re.compile(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$')
        while i < n:
            ln = lines[i]
            if ln.startswith("define"):
                m = ANYLINK.match(ln)
                nm = unq(m.group(2)); j = i + 1
                while lines[j] != "}": j += 1
                s.funcs[nm] = Func(nm, ln, lines[i+1:j]); i = j + 1; continue
            if ln.startswith("declare"):
                m = re.search(r"(@(?:\"[^\"]*\"|[-a-zA-Z$._0-9]+))\(", ln)
                s.decls[unq(m.group(1))] = ln
            elif ln.startswith("%"):
                m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                s.types[unq(m.group(1))] = m.group(2)
            elif ln.startswith("@"):
                m = GL.match(ln)
                nm = m.group(1)
                if nm.startswith('"'): nm = nm[1:-1]
                s.globals[nm] = m.group(2)
            elif ln.startswith("!"):
                m = re.match(r"^(!\d+) = (.*)$", ln)
                if m: s.meta[m.group(1)] = m.group(2)
            i += 1
        s._ty = {}; s._lay = {}; s._gl = {}
        for k, v in list(s.globals.items()):
            if re.match(r".*\balias\b", v.split("(")[0]):
                m = re.search(r"(@(?:\"[^\"]*\"|[-a-zA-Z$._0-9]+))\s*$", v)
                if m: s.aliases[k] = unq(m.group(1))
        s.dem = demangle(list(s.funcs) + list(s.decls))
    def fn(s, name):
        name = s.aliases.get(name, name)
        f = s.funcs.get(name)
        return f.parse() if f else None
    def named(s, nm):
        t = s._ty.get(nm)
        if t is None:
            d = s.types[nm]
            t = Ty("opaque") if d.strip() == "opaque" else parse_type(Cur(tokenize(d)))
            s._ty[nm] = t
        return t
    def resolve(s, t):
        while t.k == "named": t = s.named(t.a)
        return t
    def layout(s, t):
        """(size, align, offsets or None)"""
        key = repr(t)
        r = s._lay.get(key)
        if r: return r
        if t.k == "named": r = s.layout(s.named(t.a))
        elif t.k == "int":
            b = (t.a + 7) // 8
            p = 1
            while p < b: p *= 2
            p = min(p, 16); r = (((b + p - 1)//p)*p, p, None)
        elif t.k == "ptr": r = (8, 8, None)
        elif t.k == "float": r = (4, 4, None)
        elif t.k == "double": r = (8, 8, None)
        elif t.k in ("x86_fp80","fp128"): r = (16, 16, None)
        elif t.k == "array" or t.k == "vector":
            sz, al, _ = s.layout(t.a[1]); r = (sz * t.a[0], al, None)
        elif t.k == "struct":
            el, packed = t.a; off = 0; offs = []; mal = 1
            for e in el:
                sz, al, _ = s.layout(e)
                if packed: al = 1
                off = (off + al - 1)//al*al
                offs.append(off); off += sz; mal = max(mal, al)
            off = (off + mal - 1)//mal*mal
            r = (off, mal, offs)
        else: raise ParseError("layout of " + repr(t))
        s._lay[key] = r
        return r
    def size(s, t): return s.layout(t)[0]
    def global_init(s, nm):
        """(is_const, type, init operand or None)"""
        r = s._gl.get(nm)
        if r is None:
            d = s.globals.get(nm)
            if d is None: return None
            c = Cur(tokenize(strip_meta(re.sub(r", (comdat|align|section|no_sanitize).*$", "", d))))
            const = None; ext = False
            while True:
                k, t = c.next()
                if t in ("constant","global"): const = (t == "constant"); break
                if t in ("external","extern_weak"): ext = True
                if t == "(":
                    while c.next()[1] != ")": pass
            ty = parse_type(c)
            init = None
            if not ext and not c.eof(): init = parse_val(c, ty)
            r = (const, ty, init); s._gl[nm] = r
        return r

_demcache = {}
def demangle(names):
    names = [n for n in names if n not in _demcache]
    if names:
        out = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        for a, b in zip(names, out): _demcache[a] = b.replace("[abi:cxx11]", "")
    return _demcache
