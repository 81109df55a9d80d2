// instantiation unit: mocks and interface mocks over opaque argument types
#include "mimic++/mimic++.hpp"
namespace vu
{
	using namespace mimicpp;
#define USER(T) T(const T&); T(T&&) noexcept; ~T(); int data;
	struct A { USER(A) }; struct B { USER(B) }; struct C { USER(C) }; struct D { USER(D) };
	struct MA { USER(MA) bool matches(A&) const; StringT describe() const; }; struct MB { USER(MB) bool matches(B&) const; StringT describe() const; }; struct MC { USER(MC) bool matches(C&) const; StringT describe() const; }; struct MD { USER(MD) bool matches(const D&) const; StringT describe() const; };
	using Loc = std::source_location;
#define P4 A, B&, C&&, const D&
#define P4N A& a, B& b, C& c, const D& d
#define F4 a, b, std::move(c), d
	template <typename I, typename P, std::size_t... i> bool all(const P& p, const I& info, std::index_sequence<i...>) { return (std::get<i>(p).matches(info) && ...); }
	template <bool t, class c, class s, class f, class... Q> auto policies(const BasicExpectationBuilder<t, c, s, f, Q...>&) -> std::tuple<Q...>;
	template <typename P, typename I> bool ask(const P& p, const I& i) { return all(p, i, std::make_index_sequence<std::tuple_size_v<P>>{}); }
	template <typename S> const void* arg_probe(const S&);
	// one signature, every qualification
#define ONE(N, RET, Q, CAST) \
	using N##_M = Mock<RET(P4) Q>; void N##_make(void* o) { ::new (o) N##_M{}; } \
	RET N##_call(N##_M& m, P4N, const Loc& at) { return static_cast<N##_M CAST>(m)(F4, at); } RET N##_here(N##_M& m, P4N) { return static_cast<N##_M CAST>(m)(F4); } \
	using N##_B = decltype(std::declval<N##_M CAST>().expect_call(std::declval<MA>(), std::declval<const MB&>(), std::declval<MC>(), std::declval<MD&>())); using N##_P = decltype(policies(std::declval<const N##_B&>())); \
	void N##_expect(void* o, N##_M& m, MA& a, MB& b, MC& c, MD& d) { ::new (o) N##_B(static_cast<N##_M CAST>(m).expect_call(std::move(a), std::as_const(b), std::move(c), d)); } \
	bool N##_ask(const N##_P& p, const call::info_for_signature_t<RET(P4)>& i) { return ask(p, i); }
	ONE(n, int, , &) ONE(c, int, const, const&) ONE(l, int, &, &) ONE(cl, int, const&, const&) ONE(r, int, &&, &&) ONE(cr, int, const&&, const&&)
	ONE(nx, int, noexcept, &) ONE(cx, int, const noexcept, const&) ONE(lx, int, & noexcept, &) ONE(clx, int, const& noexcept, const&) ONE(rx, int, && noexcept, &&) ONE(crx, int, const&& noexcept, const&&)
	ONE(v, void, , &) ONE(o, A, const, const&) ONE(rf, B&, &, &) ONE(rr, C&&, const&, const&)
	// many arguments
#define P7 P4, A&, B, D&&
#define P7N P4N, A& e, B& f, D& g
#define F7 F4, e, f, std::move(g)
#define ONE7(N, RET, Q, CAST) \
	using N##_M = Mock<RET(P7) Q>; void N##_make(void* o) { ::new (o) N##_M{}; } \
	RET N##_call(N##_M& m, P7N, const Loc& at) { return static_cast<N##_M CAST>(m)(F7, at); } RET N##_here(N##_M& m, P7N) { return static_cast<N##_M CAST>(m)(F7); } \
	using N##_B = decltype(std::declval<N##_M CAST>().expect_call(std::declval<MA>(), std::declval<const MB&>(), std::declval<MC>(), std::declval<MD&>(), std::declval<MA>(), std::declval<const MB&>(), std::declval<MD&>())); using N##_P = decltype(policies(std::declval<const N##_B&>())); \
	void N##_expect(void* o, N##_M& m, MA& a, MB& b, MC& c, MD& d, MA& e, MB& f, MD& g) { ::new (o) N##_B(static_cast<N##_M CAST>(m).expect_call(std::move(a), std::as_const(b), std::move(c), d, std::move(e), std::as_const(f), g)); } \
	bool N##_ask(const N##_P& p, const call::info_for_signature_t<RET(P7)>& i) { return ask(p, i); }
	ONE7(w, int, const, const&) ONE7(wx, A, && noexcept, &&)
	// calls without arguments
	using z_M = Mock<int()>; void z_make(void* o) { ::new (o) z_M{}; } int z_call(z_M& m, const Loc& at) { return m(at); } int z_here(z_M& m) { return m(); }
	// overload sets
#define SET(N, ...) using N = Mock<__VA_ARGS__>; void N##_make(void* o) { ::new (o) N{}; } void N##_move(void* o, N& m) { ::new (o) N{std::move(m)}; } void N##_assign(N& o, N& m) { o = std::move(m); } void N##_kill(N& m) { m.~N(); }
	SET(O1, int(A&), int(A&) const) SET(O2, int(A&) &, int(A&) const&, int(A&) &&, int(A&) const&&) SET(O3, int(A&), int(B&) const, int(A&, B&) noexcept) SET(O4, int(B&) const, int(A&) & noexcept, int(A&) const& noexcept, int(A&) && noexcept)
#define UA(N, X, CAST) int N##_##X(N& m, A& a, const Loc& at) { return static_cast<N CAST>(m)(a, at); } using N##_##X##_B = decltype(std::declval<N CAST>().expect_call(std::declval<MA&>())); using N##_##X##_P = decltype(policies(std::declval<const N##_##X##_B&>())); \
	void N##_##X##_expect(void* o, N& m, MA& x) { ::new (o) N##_##X##_B(static_cast<N CAST>(m).expect_call(x)); } bool N##_##X##_ask(const N##_##X##_P& p, const call::info_for_signature_t<int(A&)>& i) { return ask(p, i); }
#define UB(N, X, CAST) int N##_##X(N& m, B& b, const Loc& at) { return static_cast<N CAST>(m)(b, at); } using N##_##X##_B = decltype(std::declval<N CAST>().expect_call(std::declval<MB&>())); using N##_##X##_P = decltype(policies(std::declval<const N##_##X##_B&>())); \
	void N##_##X##_expect(void* o, N& m, MB& x) { ::new (o) N##_##X##_B(static_cast<N CAST>(m).expect_call(x)); } bool N##_##X##_ask(const N##_##X##_P& p, const call::info_for_signature_t<int(B&)>& i) { return ask(p, i); }
#define UAB(N, X, CAST) int N##_##X(N& m, A& a, B& b, const Loc& at) { return static_cast<N CAST>(m)(a, b, at); } using N##_##X##_B = decltype(std::declval<N CAST>().expect_call(std::declval<MA&>(), std::declval<MB&>())); using N##_##X##_P = decltype(policies(std::declval<const N##_##X##_B&>())); \
	void N##_##X##_expect(void* o, N& m, MA& x, MB& y) { ::new (o) N##_##X##_B(static_cast<N CAST>(m).expect_call(x, y)); } bool N##_##X##_ask(const N##_##X##_P& p, const call::info_for_signature_t<int(A&, B&)>& i) { return ask(p, i); }
	UA(O1, l, &) UA(O1, cl, const&) UA(O1, r, &&) UA(O1, cr, const&&)
	UA(O2, l, &) UA(O2, cl, const&) UA(O2, r, &&) UA(O2, cr, const&&)
	UA(O3, l, &) UA(O3, r, &&) UB(O3, lb, &) UB(O3, clb, const&) UB(O3, crb, const&&) UAB(O3, lab, &) UAB(O3, rab, &&)
	UA(O4, l, &) UA(O4, cl, const&) UA(O4, r, &&) UA(O4, cr, const&&) UB(O4, lb, &) UB(O4, clb, const&) UB(O4, crb, const&&)
	// interface mocks
	struct Itf
	{
		virtual ~Itf() = default; virtual int foo(P4) = 0; virtual void bar(B&) const noexcept = 0; virtual A val(A) = 0; virtual int none() = 0; virtual int many(P7) const = 0;
		virtual int ovl(A&) & = 0; virtual int ovl(A&) const& = 0; virtual int ovl(A, B&) = 0;
	};
	struct Imp : Itf
	{
		MOCK_METHOD(foo, int, (P4)); MOCK_METHOD(bar, void, (B&), const noexcept); MOCK_METHOD(val, A, (A)); MOCK_METHOD(none, int, ()); MOCK_METHOD(many, int, (P7), const);
		MOCK_OVERLOADED_METHOD(ovl, ADD_OVERLOAD(int, (A&), &), ADD_OVERLOAD(int, (A&), const&), ADD_OVERLOAD(int, (A, B&)));
	};
	void imp_make(void* o) { ::new (o) Imp{}; }
	int imp_foo(Imp& i, P4N) { return i.Imp::foo(F4); } void imp_bar(const Imp& i, B& b) { i.Imp::bar(b); } A imp_val(Imp& i, A& a) { return i.Imp::val(a); } int imp_many(const Imp& i, P7N) { return i.Imp::many(F7); } int imp_none(Imp& i) { return i.Imp::none(); }
	int imp_ovl1(Imp& i, A& a) { return i.Imp::ovl(a); } int imp_ovl2(const Imp& i, A& a) { return i.Imp::ovl(a); } int imp_ovl3(Imp& i, A& a, B& b) { return i.Imp::ovl(a, b); }
	const void* imp_foo_at(const Imp& i) { return &i.foo_; } const void* imp_bar_at(const Imp& i) { return &i.bar_; } const void* imp_val_at(const Imp& i) { return &i.val_; } const void* imp_many_at(const Imp& i) { return &i.many_; } const void* imp_none_at(const Imp& i) { return &i.none_; } const void* imp_ovl_at(const Imp& i) { return &i.ovl_; }
	// construction of call infos and access to their parts
#define INFO(N, R, ...) using N = call::info_for_signature_t<R(__VA_ARGS__)>; const void* N##_cat(const N& i) { return &i.fromCategory; } const void* N##_con(const N& i) { return &i.fromConstness; } const void* N##_loc(const N& i) { return &i.fromSourceLocation; }
#define ARG(N, I) const void* N##_a##I(const N& i) { return &std::get<I>(i.args); }
	INFO(I4, int, P4) ARG(I4, 0) ARG(I4, 1) ARG(I4, 2) ARG(I4, 3) INFO(I7, int, P7) ARG(I7, 0) ARG(I7, 1) ARG(I7, 2) ARG(I7, 3) ARG(I7, 4) ARG(I7, 5) ARG(I7, 6) INFO(Ia, int, A&) ARG(Ia, 0) INFO(Ib, int, B&) ARG(Ib, 0) INFO(Iab, int, A&, B&) ARG(Iab, 0) ARG(Iab, 1) INFO(Iz, int) INFO(Iv, A, A) ARG(Iv, 0) INFO(Iavb, int, A, B&) ARG(Iavb, 0) ARG(Iavb, 1)
	template <typename I, typename... T> void mk(void* o, int cat, int con, const Loc& at, T&... t) { ::new (o) I{.args = {std::ref(t)...}, .fromCategory = static_cast<ValueCategory>(cat), .fromConstness = static_cast<Constness>(con), .fromSourceLocation = at}; }
	void I7_mk(void* o, int x, int y, const Loc& at, P7N) { mk<I7>(o, x, y, at, a, b, c, d, e, f, g); }
	void I4_mk(void* o, int x, int y, const Loc& at, P4N) { mk<I4>(o, x, y, at, a, b, c, d); } void Ia_mk(void* o, int x, int y, const Loc& at, A& a) { mk<Ia>(o, x, y, at, a); } void Ib_mk(void* o, int x, int y, const Loc& at, B& b) { mk<Ib>(o, x, y, at, b); } void Iab_mk(void* o, int x, int y, const Loc& at, A& a, B& b) { mk<Iab>(o, x, y, at, a, b); }
}
