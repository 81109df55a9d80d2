"""Contracts for the string matchers of mimic++/Matcher.hpp (C23) over arbitrary texts."""
import z3, re
from core import *
from prove import *
import exe, ll, models, strings
from strings import LEN, CH, TOUP
import spec_mat as M
from spec_mat import setup, run_family, mk_policy
from spec_pol import fun
I = z3.IntSort()
def arg(s, kind, name):
    """an argument holding the text `name`: s std::string, v std::string_view, p const char*"""
    ex, st = s.ex, s.st; t = z3.Int(name); b = ex.new_block(st, name, "undef"); p = Ptr(b); st.assume(z3.And(LEN(t) >= 0, LEN(t) <= (1 << 62)))
    if kind != "p": ex.text_kind = {**getattr(ex, "text_kind", {}), str(t): kind}       # may contain NUL characters
    if kind == "s": strings.put(ex, st, p, t)
    else:
        if kind == "v": ex.store(st, p, LEN(t), ll.INT(64)); ex.store(st, ex.padd(p, 8), strings.text_ptr(t), ll.PTR)
        else: ex.store(st, p, strings.text_ptr(t), ll.PTR)
    return p, t
def verdict(rel, ci, T, P):
    i, k = z3.Ints("at start"); n, m = LEN(T), LEN(P)
    f = (lambda c: simp((TOUP(c) + 128) % 256 - 128)) if ci else (lambda c: c)
    def same(j, l): return f(CH(T, j)) == f(CH(P, l))
    rng = lambda body: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), body))
    if rel == "eq": return z3.And(n == m, rng(same(i, i)))
    if rel == "st": return z3.And(n >= m, rng(same(i, i)))
    if rel == "en": return z3.And(n >= m, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), same(n - m + i, i))))
def found(s, ci, T, P):
    """some position matches; MATCH(a): the pattern occurs at position a (defined by its two directions, the negative one with a witness)"""
    ex, st = s.ex, s.st; i, a = z3.Ints("i a"); n, m = LEN(T), LEN(P); B = z3.BoolSort()
    f = (lambda c: simp((TOUP(c) + 128) % 256 - 128)) if ci else (lambda c: c)
    MATCH = z3.Function("occurs_at", I, B); W = z3.Function("differs_in", I, I); F = z3.Bool("occurs"); S0 = z3.Int("occurrence")
    def ax(a): return [z3.Implies(MATCH(a), z3.And(a >= 0, a + m <= n, F)),
        z3.Implies(z3.And(z3.Not(MATCH(a)), a >= 0, a + m <= n), z3.And(W(a) >= 0, W(a) < m, f(CH(T, a + W(a))) != f(CH(P, W(a)))))]
    for x in ax(a): st.know(z3.ForAll([a], x, patterns=[MATCH(a)]))
    st.know(z3.ForAll([a, i], z3.Implies(z3.And(MATCH(a), i >= 0, i < m), f(CH(T, a + i)) == f(CH(P, i))), patterns=[z3.MultiPattern(MATCH(a), CH(P, i))]))
    st.know(z3.Implies(F, MATCH(S0)))
    def hints(st):          # positions the code looked at
        seen = {}; todo = list(st.pc); done = set()
        while todo:
            x = todo.pop()
            if x.get_id() in done or not z3.is_app(x): continue
            done.add(x.get_id()); todo += x.children()
            if x.decl().eq(CH) and x.arg(0).eq(T): seen[x.arg(1).get_id()] = x.arg(1)
        return [y for x in seen.values() for y in ax(x)]
    ex.hints = hints
    def cand(ex, st, acc, k, loc):
        if isinstance(acc.kind, tuple) and acc.kind[0] == "ptr" and isinstance(acc.kind[1], Param) and acc.kind[1].fam is strings.CHARS:
            A = acc.term(k); return [z3.And(A >= 0, A <= n), z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < A), z3.Not(MATCH(a))), patterns=[MATCH(a)])]
    ex.candidates.append(cand)
    return F
def p_str(unit, name):
    s = setup(unit); ex = s.ex; rel, kinds = name.split("_"); ci = len(rel) == 3
    t, T = arg(s, kinds[0], "target"); p, P = arg(s, kinds[1], "pattern")
    mk_policy(s, name, p, moved=(p.base,))
    d = run_family(s, name, t, found(s, ci, T, P) if rel[-2:] == 'co' else verdict(rel[-2:], ci, T, P), None)
    ex.fstack.append(name)
    for k in "mn":
        x = d[k]
        if x.decl().name() != "vformat1": raise Unsupported("description is not one formatted value")
        ex.oblige(s.st, "description shows the pattern", x.children()[1].eq(fun("printed", I, I)(P)), "contract")
    ex.oblige(s.st, "description and description of the negation differ", not d["m"].eq(d["n"]), "contract"); ex.fstack.pop()
    return ex
