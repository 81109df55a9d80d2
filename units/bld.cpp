// instantiation unit: building expectations over opaque policies and finalizers
#include "mimic++/mimic++.hpp"
namespace vu
{
	using namespace mimicpp; namespace d = sequence::detail;
#define USER(T) T(const T&); T(T&&) noexcept; ~T(); int data;
	struct A { A(const A&); A& operator=(const A&); ~A(); int data; friend bool operator==(const A&, const A&); };
	struct B { USER(B) };
	using Sig = int(A&, B&); using Info = call::info_for_signature_t<Sig>; using Coll = ExpectationCollection<Sig>;
	struct P1 { USER(P1) bool is_satisfied() const noexcept; bool matches(const Info&) const; std::optional<StringT> describe() const; void consume(const Info&); };
	struct P2 { USER(P2) bool is_satisfied() const noexcept; bool matches(const Info&) const; std::optional<StringT> describe() const; void consume(const Info&); };
	struct Fin { USER(Fin) int finalize_call(const Info&); };
	using l = LazySequence; using g = GreedySequence; using L = l::SequenceT; using G = g::SequenceT;
	template <typename... S> using C = d::Config<S...>;
	template <bool t, typename S, typename F, typename... P> using Bld = BasicExpectationBuilder<t, S, Sig, F, P...>; using IF = expectation_policies::InitFinalize;
	using B0 = Bld<false, C<>, IF>; using B1 = Bld<true, C<L>, IF, P1>; using B2 = Bld<false, C<>, Fin, P2, P1>; using B3 = Bld<true, C<L, G>, Fin, P1, P2, P2>; using B4 = Bld<false, C<G>, IF, P1, P2>;
#define OP(N, X, PARAM) void N##_##X(void* o, N& b, PARAM x) { ::new (o) auto(std::move(b) && static_cast<PARAM>(x)); }
#define ALL(N) OP(N, p1r, P1&&) OP(N, p1l, const P1&) OP(N, p2r, P2&&) OP(N, p2l, P2&) OP(N, s1, C<L>&&) OP(N, s2, C<G CM L>&&)
#define CM ,
	ALL(B0) ALL(B1) ALL(B2) ALL(B3) ALL(B4)
	OP(B0, fr, Fin&&) OP(B0, fl, const Fin&) OP(B1, fr, Fin&&) OP(B4, fl, Fin&)
	OP(B0, t, mimicpp::detail::TimesConfig&&) OP(B2, t, mimicpp::detail::TimesConfig&&) OP(B4, t, mimicpp::detail::TimesConfig&&)
	using F0 = Bld<true, C<>, Fin>; using F1 = Bld<false, C<L>, Fin, P1>;
#define FINAL(N) void N##_finalize(void* o, N& b, const std::source_location& at) { ::new (o) ScopedExpectation(std::move(b).finalize(at)); }
	FINAL(F0) FINAL(F1) FINAL(B2) FINAL(B3)
	// positional arguments
	using Sig2 = void(A&, const std::string&, B&); using Info2 = call::info_for_signature_t<Sig2>; using Coll2 = ExpectationCollection<Sig2>;
	struct MA { USER(MA) bool matches(A&) const; StringT describe() const; }; struct MS { USER(MS) bool matches(const std::string&) const; StringT describe() const; }; struct MB { USER(MB) bool matches(B&) const; StringT describe() const; };
	template <bool t, class c, class s, class f, class... P> std::tuple<P...> tup(const BasicExpectationBuilder<t, c, s, f, P...>&);
#define MK(N, X, Y, Z) \
	using N##_T = decltype(mimicpp::detail::make_expectation_builder<Sig2>(std::declval<std::shared_ptr<Coll2>>(), std::declval<X>(), std::declval<Y>(), std::declval<Z>())); using N##_P = decltype(tup(std::declval<const N##_T&>())); \
	void N##_make(void* o, std::shared_ptr<Coll2> c, X x, Y y, Z z) { ::new (o) N##_T(mimicpp::detail::make_expectation_builder<Sig2>(std::move(c), static_cast<X>(x), static_cast<Y>(y), static_cast<Z>(z))); } \
	const void* N##_at0(const N##_P& t) { return &std::get<0>(t); } const void* N##_at1(const N##_P& t) { return &std::get<1>(t); } const void* N##_at2(const N##_P& t) { return &std::get<2>(t); } static_assert(3 == std::tuple_size_v<N##_P>); \
	bool N##_ask0(const std::tuple_element_t<0, N##_P>& p, const Info2& i) { return p.matches(i); } bool N##_ask1(const std::tuple_element_t<1, N##_P>& p, const Info2& i) { return p.matches(i); } bool N##_ask2(const std::tuple_element_t<2, N##_P>& p, const Info2& i) { return p.matches(i); }
	using WC = const std::remove_cvref_t<decltype(matches::_)>&;
	MK(mmm, MA&&, const MS&, MB&&) MK(vsm, A&&, std::string&&, MB&) MK(vsw, const A&, const std::string&, WC) MK(wmw, WC, MS&&, WC)
	Info2 mkinfo(A& a, const std::string& s, B& b, std::source_location at) { return Info2{.args = {std::ref(a), std::cref(s), std::ref(b)}, .fromCategory = ValueCategory::any, .fromConstness = Constness::any, .fromSourceLocation = at}; }
	// layout probes
	template <typename... S> using Cfg = std::tuple<std::shared_ptr<S>...>; template <typename... S> using Ent = std::tuple<std::tuple<std::shared_ptr<S>, sequence::Id>...>;
#define PS(W, I, ...) const void* at_##W##_##I(const Cfg<__VA_ARGS__>& t) { return &std::get<I>(t); } const void* ent_seq_##W##_##I(const Ent<__VA_ARGS__>& t) { return &std::get<0>(std::get<I>(t)); } const void* ent_id_##W##_##I(const Ent<__VA_ARGS__>& t) { return &std::get<1>(std::get<I>(t)); }
	PS(l, 0, L) PS(g, 0, G) PS(gl, 0, G, L) PS(gl, 1, G, L) PS(ll, 0, L, L) PS(ll, 1, L, L) PS(lgl, 0, L, G, L) PS(lgl, 1, L, G, L) PS(lgl, 2, L, G, L) PS(lggl, 0, L, G, G, L) PS(lggl, 1, L, G, G, L) PS(lggl, 2, L, G, G, L) PS(lggl, 3, L, G, G, L) PS(lg, 0, L, G) PS(lg, 1, L, G) PS(ggl, 0, G, G, L) PS(ggl, 1, G, G, L) PS(ggl, 2, G, G, L)
#define CS(W, ...) const auto& seqs_##W(const C<__VA_ARGS__>& c) { return c.sequences(); }
	CS(l, L) CS(g, G) CS(gl, G, L) CS(ll, L, L) CS(lgl, L, G, L) CS(lggl, L, G, G, L) CS(lg, L, G) CS(ggl, G, G, L)
#define PP(W, I, ...) const void* pol_##W##_##I(const std::tuple<__VA_ARGS__>& t) { return &std::get<I>(t); }
#define PP1(W, ...) PP(W, 0, __VA_ARGS__)
#define PP2(W, ...) PP1(W, __VA_ARGS__) PP(W, 1, __VA_ARGS__)
#define PP3(W, ...) PP2(W, __VA_ARGS__) PP(W, 2, __VA_ARGS__)
#define PP4(W, ...) PP3(W, __VA_ARGS__) PP(W, 3, __VA_ARGS__)
	PP1(1, P1) PP1(2, P2) PP2(11, P1, P1) PP2(12, P1, P2) PP2(21, P2, P1) PP3(211, P2, P1, P1) PP3(212, P2, P1, P2) PP3(122, P1, P2, P2) PP4(1221, P1, P2, P2, P1) PP4(1222, P1, P2, P2, P2) PP3(121, P1, P2, P1)
}
