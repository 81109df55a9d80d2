// instantiation unit: object watchers
#include "mimic++/mimic++.hpp"
namespace vu
{
	using namespace mimicpp; using L = LifetimeWatcher; using R = RelocationWatcher;
	// opaque watched types: nothrow, throwing, with a virtual destructor
	struct Bn { Bn(); Bn(const Bn&); Bn(Bn&&) noexcept; Bn& operator=(const Bn&); Bn& operator=(Bn&&) noexcept; ~Bn(); int data; };
	struct Bt { Bt(); Bt(const Bt&); Bt(Bt&&) noexcept(false); Bt& operator=(const Bt&); Bt& operator=(Bt&&) noexcept(false); ~Bt() noexcept(false); int data; };
	struct Bv { Bv(); Bv(const Bv&); Bv(Bv&&) noexcept(false); Bv& operator=(const Bv&); Bv& operator=(Bv&&) noexcept(false); virtual ~Bv() noexcept(false); int data; };
#define OPS(N, T) void N##_ctor(void* o) { ::new (o) T{}; } void N##_copy(void* o, const T& x) { ::new (o) T(x); } void N##_move(void* o, T& x) { ::new (o) T(std::move(x)); } T& N##_acopy(T& o, const T& x) { return o = x; } T& N##_amove(T& o, T& x) { return o = std::move(x); } void N##_dtor(T& x) noexcept(std::is_nothrow_destructible_v<T>) { x.N::~N(); }
	OPS(L, L) OPS(R, R)
	using LB = decltype(std::declval<L&>().expect_destruct()); using RB = decltype(std::declval<R&>().expect_relocate());
	void L_expect(void* o, L& l) { ::new (o) LB(l.expect_destruct()); } void R_expect(void* o, R& r) { ::new (o) RB(r.expect_relocate()); }
	template <bool t, class c, class s, class f, class... Q> auto policies(const BasicExpectationBuilder<t, c, s, f, Q...>&) -> std::tuple<Q...>; template <bool t, class c, class s, class f, class... Q> constexpr bool times_set(const BasicExpectationBuilder<t, c, s, f, Q...>*) { return t; }
	using LP = decltype(policies(std::declval<const LB&>())); using RP = decltype(policies(std::declval<const RB&>())); using Info = call::info_for_signature_t<void()>;
	template <typename I, typename P, std::size_t... i> bool all(const P& p, const I& info, std::index_sequence<i...>) { return (std::get<i>(p).matches(info) && ...); }
	bool L_ask(const LP& p, const Info& i) { return all(p, i, std::make_index_sequence<std::tuple_size_v<LP>>{}); } bool R_ask(const RP& p, const Info& i) { return all(p, i, std::make_index_sequence<std::tuple_size_v<RP>>{}); }
	bool L_fixed() { return times_set(static_cast<const LB*>(nullptr)); } bool R_fixed() { return times_set(static_cast<const RB*>(nullptr)); }
	void mk(void* o, const std::source_location& at) { ::new (o) Info{.args = {}, .fromCategory = ValueCategory::any, .fromConstness = Constness::non_const, .fromSourceLocation = at}; }
#define WATCHED(N, ...) using N = Watched<__VA_ARGS__>; OPS(N, N)
#define AT(N, B) const void* N##_base(const N& w) { return static_cast<const B*>(&w); }
#define ATL(N) const void* N##_L(const N& w) { return static_cast<const L*>(&w); }
#define ATR(N) const void* N##_R(const N& w) { return static_cast<const R*>(&w); }
#define W1(B) WATCHED(L##B, B, L) AT(L##B, B) ATL(L##B) WATCHED(R##B, B, R) AT(R##B, B) ATR(R##B) WATCHED(LR##B, B, L, R) AT(LR##B, B) ATL(LR##B) ATR(LR##B) WATCHED(RL##B, B, R, L) AT(RL##B, B) ATL(RL##B) ATR(RL##B)
	W1(Bn) W1(Bt) W1(Bv)
	const void* logic() { return &typeid(std::logic_error); }
}
