// instantiation unit: sets of sequences (sequence::detail::Config)
#include "mimic++/mimic++.hpp"
namespace vu
{
	using namespace mimicpp; namespace d = sequence::detail;
	using l = LazySequence; using g = GreedySequence; using L = l::SequenceT; using G = g::SequenceT;
	template <typename... S> using C = d::Config<S...>;
	template <typename... S> using Cfg = std::tuple<std::shared_ptr<S>...>;
	void one_l(void* o, l& a) { ::new (o) C<L>(expect::in_sequence(a)); }
	void one_g(void* o, g& a) { ::new (o) C<G>(expect::in_sequence(a)); }
#define TWO(A, B) void dir_##A##B(void* o, A& a, B& b) { ::new (o) auto(expect::in_sequences(a, b)); }
	TWO(l, l) TWO(g, g) TWO(l, g)
	void dir_lll(void* o, l& a, l& b, l& c) { ::new (o) auto(expect::in_sequences(a, b, c)); }
	void dir_lgl(void* o, l& a, g& b, l& c) { ::new (o) auto(expect::in_sequences(a, b, c)); }
	void dir_llll(void* o, l& a, l& b, l& c, l& e) { ::new (o) auto(expect::in_sequences(a, b, c, e)); }
	void dir_glgl(void* o, g& a, l& b, g& c, l& e) { ::new (o) auto(expect::in_sequences(a, b, c, e)); }
#define CAT(N, A, B) void cat_##N(void* o, const A& a, const B& b) { ::new (o) auto(a.concat(b)); }
	using X0 = C<>; using Xl = C<L>; using Xg = C<G>; using Xll = C<L, L>; using Xlg = C<L, G>; using Xgl = C<G, L>; using Xlll = C<L, L, L>;
	CAT(_, X0, X0) CAT(_l, X0, Xl) CAT(l_, Xl, X0) CAT(_ll, X0, Xll) CAT(l_l, Xl, Xl) CAT(l_g, Xl, Xg) CAT(ll_l, Xll, Xl) CAT(l_ll, Xl, Xll) CAT(lg_l, Xlg, Xl) CAT(ll_ll, Xll, Xll) CAT(lg_gl, Xlg, Xgl) CAT(lll_l, Xlll, Xl) CAT(ll_, Xll, X0)
#define P(W, I, ...) const void* at_##W##_##I(const Cfg<__VA_ARGS__>& t) { return &std::get<I>(t); }
	P(l, 0, L) P(g, 0, G)
	P(ll, 0, L, L) P(ll, 1, L, L) P(gg, 0, G, G) P(gg, 1, G, G) P(lg, 0, L, G) P(lg, 1, L, G) P(gl, 0, G, L) P(gl, 1, G, L)
	P(lll, 0, L, L, L) P(lll, 1, L, L, L) P(lll, 2, L, L, L) P(lgl, 0, L, G, L) P(lgl, 1, L, G, L) P(lgl, 2, L, G, L)
	P(llll, 0, L, L, L, L) P(llll, 1, L, L, L, L) P(llll, 2, L, L, L, L) P(llll, 3, L, L, L, L)
	P(glgl, 0, G, L, G, L) P(glgl, 1, G, L, G, L) P(glgl, 2, G, L, G, L) P(glgl, 3, G, L, G, L)
	P(lggl, 0, L, G, G, L) P(lggl, 1, L, G, G, L) P(lggl, 2, L, G, G, L) P(lggl, 3, L, G, G, L)
	const auto& seqs_ll(const Xll& c) { return c.sequences(); } const auto& seqs_l(const Xl& c) { return c.sequences(); } const auto& seqs_lg(const Xlg& c) { return c.sequences(); } const auto& seqs_gl(const Xgl& c) { return c.sequences(); } const auto& seqs_lll(const Xlll& c) { return c.sequences(); }
	const auto& seqs_g(const Xg& c) { return c.sequences(); } const auto& seqs_gg(const C<G, G>& c) { return c.sequences(); } const auto& seqs_lgl(const C<L, G, L>& c) { return c.sequences(); }
	const auto& seqs_llll(const C<L, L, L, L>& c) { return c.sequences(); } const auto& seqs_glgl(const C<G, L, G, L>& c) { return c.sequences(); } const auto& seqs_lggl(const C<L, G, G, L>& c) { return c.sequences(); }
}
