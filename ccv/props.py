"""Which contracts decide which property."""
import spec_seq as S, spec_ctl as C
LG = ("Lazy", "Greedy")
W = ("", "l", "lg", "gll", "lglg", "ggllgl"); W1 = W[1:]
def each(f, xs, *rest): return [("seq", f, (x, *rest)) for x in xs]
PROPS = {}
def prop(pid, tasks, **kw): PROPS[pid] = dict(tasks=tasks, **kw)

SEQ_CORE = each(S.p_is_consumable, LG) + each(S.p_set, LG, "set_satisfied", 1) + each(S.p_set, LG, "set_saturated", 2) + each(S.p_consume, LG) + each(S.p_add, LG) + each(S.p_ctor, LG)
prop("C01", SEQ_CORE + each(C.p_is_applicable, W1) + each(C.p_consume, W1) + each(C.p_ctor, W1))
prop("C02", each(S.p_dtor, LG) + SEQ_CORE)
prop("C03", each(S.p_is_consumable, LG) + each(S.p_priority, LG) + each(S.p_order, LG))
prop("C04", [("seq", C.p_times, (w,)) for w in ("times2", "times1", "at_least", "at_most", "once", "twice", "times_default")]
     + each(C.p_is_satisfied, W) + each(C.p_is_saturated, W) + each(C.p_is_applicable, W) + each(C.p_consume, W) + each(C.p_ctor, W) + each(S.p_is_consumable, LG))
prop("C05", each(C.p_ctor, W1) + each(C.p_consume, W1) + each(S.p_set, LG, "set_satisfied", 1) + each(S.p_set, LG, "set_saturated", 2) + each(S.p_consume, LG) + each(S.p_add, LG))
prop("C06", each(C.p_state, W) + each(S.p_priority, LG) + each(S.p_is_consumable, LG) + each(S.p_tag, LG))
import spec_best as BE, spec_call as CA, spec_exp as E
def exp(f, *a): return [("exp", f, a), ("exv", f, a)]       # signatures int(int, char&) and void()
prop("C07", [("seq", BE.p_better, ()), ("seq", BE.p_lemma_count, ())] + exp(BE.p_pick))
prop("C08", exp(CA.p_handle_call) + exp(CA.p_make_match_report) + exp(CA.p_evaluate) + exp(BE.p_pick))
prop("C09", exp(CA.p_make_match_report) + exp(CA.p_handle_call))
prop("C10", exp(CA.p_evaluate))
prop("C11", exp(CA.p_push) + exp(CA.p_remove) + exp(CA.p_scoped))
prop("C12", [("exp", E.p_basic, (n,)) for n in (0, 1, 2, 3, 5)] + [("exp", E.p_report, (n, k)) for n in (0, 1, 2, 3, 5) for k in ("app", "ina", "sat")] + [("exv", E.p_basic, (n,)) for n in (0, 2, 5)] + [("exv", E.p_report, (n, "app")) for n in (0, 2)])
prop("C22", exp(CA.p_handle_call) + exp(CA.p_push) + exp(CA.p_remove))

import spec_pol as P, spec_mat as M, spec_str as ST, spec_rng as RG, spec_rpt as RT
PURE = ["matchers, predicates, comparators and conversions given by the user are pure (they do not change their operands); where they may throw, the contract says what happens then"]
def fam(unit, f, names): return [(unit, f, (n,)) for n in names.split()]
prop("C13", [("pol", P.p_category, ()), ("pol", P.p_init, ())] + fam("pol", P.p_req, "req0 req1 req2 req1p req2p req0p req3 req5") + fam("pol", P.p_effect, "eff0 eff2 eff20 eff11 eff210 eff0201 effall effinv effinvn eff534 eff3 effall6"), assumptions=PURE)
prop("C14", fam("pol", P.p_fin, "retv retl retr retcr retrr retw retwv reti resv resov resoq resr resrv resi app20 app1 app102 app2201 appall thrv thrl thri arg0 arg1 arg2 arg2v app53 appall6 arg3 arg5 arg4v"), assumptions=PURE)
prop("C15", [("mat", M.p_rel, ("-", "-")), ("mat", M.p_rel, ("l", "-")), ("mat", M.p_rel, ("-", "i"))] + [("mat", M.p_rel, ("-", k)) for k in "dfmx"] + fam("mat", M.p_pred, "pred predm") + fam("mat", M.p_inst, "inst instc") + [("mat", M.p_wild, ())] + fam("cat", RT.p_catch_matcher, "new old"), assumptions=PURE)
prop("C23", fam("str", ST.p_str, "ico_ss ico_vv co_ss co_vv co_ps eq_ss eq_vs eq_sv eq_pv eq_sp st_ss st_vv st_pp en_ss en_vv en_sp ieq_ss ieq_vv ieq_ps ist_ss ist_vv ien_ss ien_vv"), assumptions=["std::toupper is a pure function of the character"])
prop("C24", fam("rng", RG.p_rng, "eq_vv eq_ss eq_sv eq_vs eqi_vv un_vv un_ss each_vl each_sr each_vn any_vl any_sr any_vn size_vi size_vu size_vl size_sz size_vs size_vc sorted_vi sorted_v sorted_s empty_v empty_s empty_n"),
     assumptions=["comparators and element matchers given by the user are pure and do not throw", "std::ranges::is_permutation answers whether its two ranges are permutations of each other"])

import spec_cfg as CF
prop("C21", [("cfg", CF.p_config, ("one", w)) for w in ("l", "g")] + [("cfg", CF.p_config, ("dir", w)) for w in ("ll", "gg", "lg", "lll", "lgl", "llll", "glgl")]
     + [("cfg", CF.p_config, ("cat", w)) for w in ("_", "_l", "l_", "ll_", "_ll", "l_l", "l_g", "ll_l", "l_ll", "lg_l", "ll_ll", "lg_gl", "lll_l")] + each(S.p_tag, LG))

import spec_bld as BL
_b = dict(B0="p1r p1l p2r p2l s1 s2 fr fl t", B1="p1r p1l p2r p2l s1 s2 fr", B2="p1r p1l p2r p2l s1 s2 t", B3="p1r p1l p2r p2l s1 s2", B4="p1r p1l p2r p2l s1 s2 fl t")
prop("C20", [("bld", BL.p_step, (b, o)) for b, os in _b.items() for o in os.split()] + [("bld", BL.p_finalize, (b,)) for b in ("F0", "F1", "B2", "B3")] + [("bld", BL.p_args, (n,)) for n in ("mmm", "vsm", "vsw", "wmw")] + exp(CA.p_scoped), assumptions=PURE + ["construction, copying and moving of user policies, finalizers, matchers and values do not throw"])

import spec_rep as RP
prop("C16", [("rep", RP.p_move, (c, "mv")) for c in ("call", "exp", "match")] + [("rep", RP.p_eq_call, ()), ("rep", RP.p_eq_exp, ()), ("rep", RP.p_eq_match, ()), ("rep", RP.p_eq_ctl, ()), ("rep", RP.p_eq_info, (3,)), ("rep", RP.p_eq_info, (6,)), ("rep", RP.p_eq_info, (0,))] + fam("rep", RP.p_make, "none one two six three"), assumptions=["equal texts are equal values of std::string (its == is trusted)"])

import spec_rpt as RT
_k = "no inapp full unful error unh"
prop("C17", fam("rpt", RT.p_default, _k) + fam("rpt", RT.p_basic, _k) + fam("rpt", RT.p_handover, _k) + fam("rpt", RT.p_install, "inst inst2") + [("rpt", RT.p_current, ())] + fam("adp", RT.p_gtest, "gfail gsucc gwarn") + fam("cat", RT.p_catch, "cfail csucc cwarn") + fam("bst", RT.p_boost, "bfail bsucc bwarn"),
     assumptions=["the success and warning functions given to an adaptable reporter return, its fail function does not", "an installed reporter keeps the [[noreturn]] promise of the report methods", "stream output and the stringify_* functions do not throw"])

import spec_mck as MK
_q = "n c l cl r cr nx cx lx clx rx crx v o rf rr w wx"
prop("C19", fam("mck", MK.p_call, _q + " z") + fam("mck", MK.p_expect, _q) + [("mck", MK.p_set, (n, h)) for n in ("O1", "O2", "O3", "O4") for h in ("", "move", "assign")] + fam("mck", MK.p_kill, "O1 O2 O3 O4") + fam("mck", MK.p_interface, "foo bar val none many ovl1 ovl2 ovl3"),
     assumptions=["copies and moves of the caller's arguments into by-value parameters carry the value and do not throw", "std::make_shared yields a fresh object"])

import spec_wat as WA
_w = "L R LBn RBn LRBn RLBn LBt RBt LRBt RLBt LBv RBv LRBv RLBv"
prop("C18", [("wat", WA.p_op, (n, *o.split(" "))) for n in _w.split() for o in ("ctor", "copy", "move", "acopy", "acopy self", "amove", "amove self", "dtor")] + [("wat", WA.p_op, (n, o, "moved")) for n, o in (("L", "acopy"), ("L", "dtor"), ("LBt", "dtor"), ("LRBv", "dtor"), ("LRBt", "acopy"))] + fam("wat", WA.p_expect, "L R"),
     assumptions=["the watched type's own operations do not throw and carry its value", "a relocation watcher is not moved from a second time", "std::make_shared yields a fresh object"])

import spec_prt as PR
prop("C25", [("prt", PR.p_print, (n, h)) for n in "u uf ur ut f n e i b ch sz cat con p pc pv np tup t0 pr arr ft tr opt optf optt no vu_ vf vn vi sp rg fr vv vt vo s sv cs ws wv u16 u8 u32 loc".split() for h in "clr"] + fam("prt", PR.p_string, "c l r") + fam("prt", PR.p_enum, "cat con"),
     assumptions=["user printers and formatters write to the output they are given, return the position behind it, leave the value alone and do not throw", "std::format_to writes the text of its format string and arguments"])

import spec_rpp as RX
prop("C26", [("rpp", RX.p_times, ())] + fam("rpp", RX.p_state, "app ina sat") + [("rpp", RX.p_call, ()), ("rpp", RX.p_exp, ())] + fam("rpp", RX.p_match, "app ina sat") + fam("rpp", RX.p_msg, "no inapp full unful unh") + [("prt", PR.p_print, ("loc", "c"))] + fam("prt", PR.p_enum, "cat con"),
     assumptions=["a report printer instantiated with an opaque output iterator behaves as with std::ostreambuf_iterator (same template)", "std::format_to writes the text of its format string and arguments", "counts of a report are 0 .. 2^31-1"])

# ---- proofs a property's argument uses from others: when one does not go through, the bounded harness of the property decides
DEPS = dict(C01="C08 C10 C12 C05 C03 C02 C04 C21", C02="C05 C01 C21 C17 C12 C08", C03="C07 C05 C01 C08 C12 C10", C04="C12 C10 C08 C11 C20 C05", C05="C01 C12 C08 C21 C20", C06="C01 C04 C05 C12 C10",
    C07="C08 C10 C12 C03 C06 C01 C05 C04 C11", C08="C10 C12 C07 C09 C11 C17 C13 C06 C04", C09="C10 C12 C08 C17 C07 C16", C10="C12 C06 C13 C08 C04 C01", C11="C04 C12 C20 C17 C08 C10", C12="C04 C06 C13 C10 C08",
    C13="C12 C10 C08 C15 C20 C19", C14="C12 C08 C20 C19 C13", C15="C13 C24", C16="C08 C10 C12 C25 C13 C06", C17="C08 C09 C11 C02 C18", C18="C12 C17 C08", C19="C08 C12 C11 C20 C13", C20="C11 C12 C04 C05 C13 C14",
    C21="C01 C04 C05 C20", C22="C10 C12 C07", C23="C15", C24="C15", C25="C26", C26="C25 C16 C08")
def relied_on(pid):
    seen = {repr(t) for t in PROPS[pid]["tasks"]}; out = []
    for d in DEPS.get(pid, "").split():
        for t in PROPS[d]["tasks"]:
            if repr(t) not in seen: seen.add(repr(t)); out.append(t)
    return out
