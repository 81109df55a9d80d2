"""Contracts for the sets of sequences an expectation joins (C21): sequence::detail::Config."""
import z3
from core import *
from prove import *
import exe, ll, strings, spec_ctl
from models import R
from spec_seq import SeqObj, new
from spec_ctl import off_of, install_shared_ptr
K = dict(l="Lazy", g="Greedy")
def partitions(ws):
    """all ways in which sequences of the given kinds may coincide: lists of group numbers"""
    def rec(i, cur, kinds):
        if i == len(ws): yield list(cur); return
        for g in range(len(kinds) + 1):
            if g < len(kinds) and kinds[g] != ws[i]: continue
            yield from rec(i + 1, cur + [g], kinds if g < len(kinds) else kinds + [ws[i]])
    return list(rec(0, [], []))
def setup(unit):
    ex, st = new(unit); install_shared_ptr(ex); strings.install_strings(ex); ex.tags = {}; ex.force_unroll = True      # loops over the (few) sequences run to their end
    def k_tag(ex, st, a, name):
        """tag() is the sequence's address (proved by p_tag): the same for the same sequence, different for different ones"""
        if not (isinstance(a[0], Ptr) and a[0].base in ex.tags and a[0].off == 0): raise Unsupported("sequence object " + repr(a[0]))
        return R(st, ex.tags[a[0].base])
    ex.contract(r"^mimicpp::sequence::detail::BasicSequence<.*>::tag\(\) const", k_tag, "BasicSequence::tag (proved separately: the sequence's own address)", trusted=False)
    return ex, st
def mkseq(ex, st, i, tags):
    b = ex.new_block(st, f"sequence{i}", "undef", 64); t = z3.Int(f"tag{i}"); st.assume(z3.And(t > 0, t < 1 << 64))
    for u in tags: st.assume(t != u)
    tags.append(t); ex.tags[b] = t; return Ptr(b)
def OWNER(b):
    if not hasattr(b, "owner"): b.owner = Region("owner of " + b.name)
    return b.owner
def content(ex, unit, w, seqs):
    d = {}
    for i, q in enumerate(seqs):
        o = off_of(ex, unit, f"vu::at_{w}_{i}"); d[o] = (8, q); d[o + 8] = (8, Ptr(OWNER(q.base)))
    return d
def base_off(ex, unit, w):
    st = State(); b = Block("probe", "sym"); st.mem[b] = {}; return ex.run(unit.fn(rf"^vu::seqs_{w}[\[(]"), [Ptr(b)], st)[0][1].off
def p_config(unit, what, arg):
    """what: one / dir (from the interfaces) or cat (concat of two sets)"""
    words = arg.split("_") if what == "cat" else [arg]; w = "".join(words); first = None
    for part in partitions(w):
        if what == "cat":       # each operand is a set already built: no repeats inside
            if any(len(set(p)) < len(p) for p in (part[:len(words[0])], part[len(words[0]):])): continue
        ex, st = setup(unit); tags = []; qs = {}
        for i, g in enumerate(part):
            if g not in qs: qs[g] = mkseq(ex, st, g, tags)
        seqs = [qs[g] for g in part]
        def place(b, word, ss, off):
            d = content(ex, unit, word, ss) if ss else {}
            st.mem[b] = {o + off: v for o, v in d.items()}
        if what == "cat":
            a = []; k = 0
            for wd in words:
                b = ex.new_block(st, "set", "undef", max(16 * len(wd), 1)); place(b, wd, seqs[k:k + len(wd)], base_off(ex, unit, wd) if wd else 0); k += len(wd); a.append(Ptr(b))
        else:
            rec = unit.layout.find(r"mimicpp::sequence::detail::BasicSequenceInterface<.*Lazy.*>"); om = rec.off("m_Sequence", r"shared_ptr"); ifs = {}; a = []
            for g, q in qs.items():
                b = ex.new_block(st, f"interface{g}", "undef", rec.size); st.mem[b] = {om: (8, q), om + 8: (8, Ptr(OWNER(q.base)))}; ifs[g] = Ptr(b)
            a = [ifs[g] for g in part]
        o = ex.new_block(st, "result", "undef", max(16 * len(w), 1)); pre = st.copy()
        dup = len(set(part)) < len(part); lab = f"{what} {arg} with sequences {part}::"
        outs = ex.run(unit.fn(rf"^vu::{what}_{arg}\("), [Ptr(o)] + a, st)
        sp = pre.copy()
        if dup: sp.exc = ("_ZTISt16invalid_argument", None, None); sp.uncaught = add(sp.uncaught, 1); specs = [(True, "throw", None, sp)]
        else:
            off = base_off(ex, unit, w) if w else 0
            sp.mem[o] = {k2 + off: v for k2, v in content(ex, unit, w, seqs).items()} if w else {}
            specs = [(True, "ret", None, sp)]
        check(ex, pre, outs, specs, lab, ignore=(o,) if dup else ())
        if first is None: first = ex
        else: first.obs += ex.obs; first.inlined |= ex.inlined; first.used.update(ex.used)
    return first
