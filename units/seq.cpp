// instantiation unit: sequences and control policies
#include "mimic++/Sequence.hpp"
#include "mimic++/ControlPolicy.hpp"
namespace vu
{
	using LazyT = mimicpp::sequence::detail::LazyStrategy;
	using GreedyT = mimicpp::sequence::detail::GreedyStrategy;
	using Id = mimicpp::sequence::Id;
	using L = mimicpp::LazySequence::SequenceT;
	using G = mimicpp::GreedySequence::SequenceT;
}
template class mimicpp::sequence::detail::BasicSequence<mimicpp::sequence::Id, mimicpp::sequence::detail::LazyStrategy{}>;
template class mimicpp::sequence::detail::BasicSequence<mimicpp::sequence::Id, mimicpp::sequence::detail::GreedyStrategy{}>;
template class mimicpp::ControlPolicy<>;
template class mimicpp::ControlPolicy<vu::L>;
template class mimicpp::ControlPolicy<vu::L, vu::G>;
template class mimicpp::ControlPolicy<vu::G, vu::L, vu::L>;
template class mimicpp::ControlPolicy<vu::L, vu::G, vu::L, vu::G>;
template class mimicpp::ControlPolicy<vu::G, vu::G, vu::L, vu::L, vu::G, vu::L>;
namespace vu
{
	// plain entry points for inline functions of the library (forwarders only)
	void times2(mimicpp::detail::TimesConfig& out, int a, int b) { out = mimicpp::expect::times(a, b); }
	void times1(mimicpp::detail::TimesConfig& out, int a) { out = mimicpp::expect::times(a); }
	void at_least(mimicpp::detail::TimesConfig& out, int a) { out = mimicpp::expect::at_least(a); }
	void at_most(mimicpp::detail::TimesConfig& out, int a) { out = mimicpp::expect::at_most(a); }
	void once(mimicpp::detail::TimesConfig& out) { out = mimicpp::expect::once(); }
	void twice(mimicpp::detail::TimesConfig& out) { out = mimicpp::expect::twice(); }
	void times_default(mimicpp::detail::TimesConfig& out) { out = mimicpp::detail::TimesConfig{}; }
	int tmin(const mimicpp::detail::TimesConfig& t) { return t.min(); }
	int tmax(const mimicpp::detail::TimesConfig& t) { return t.max(); }
	bool better(std::span<const mimicpp::sequence::rating> a, std::span<const mimicpp::sequence::rating> b) { return mimicpp::sequence::detail::has_better_rating(a, b); }
}
#include <new>
namespace vu
{
	void ctor_Lazy(void* p) { ::new (p) L; }
	void ctor_Greedy(void* p) { ::new (p) G; }
	// member addresses inside the standard tuples and pointers (layout probes)
	template <typename... S> using Ent = std::tuple<std::tuple<std::shared_ptr<S>, Id>...>;
	template <typename... S> using Cfg = std::tuple<std::shared_ptr<S>...>;
#define PROBE(NAME, IDX, ...) \
	const void* ent_seq_##NAME##_##IDX(const Ent<__VA_ARGS__>& t) { return &std::get<0>(std::get<IDX>(t)); } \
	const void* ent_id_##NAME##_##IDX(const Ent<__VA_ARGS__>& t) { return &std::get<1>(std::get<IDX>(t)); } \
	const void* cfg_##NAME##_##IDX(const Cfg<__VA_ARGS__>& t) { return &std::get<IDX>(t); }
	PROBE(l, 0, L)
	PROBE(lg, 0, L, G) PROBE(lg, 1, L, G)
	PROBE(gll, 0, G, L, L) PROBE(gll, 1, G, L, L) PROBE(gll, 2, G, L, L)
	PROBE(lglg, 0, L, G, L, G) PROBE(lglg, 1, L, G, L, G) PROBE(lglg, 2, L, G, L, G) PROBE(lglg, 3, L, G, L, G)
	PROBE(ggllgl, 0, G, G, L, L, G, L) PROBE(ggllgl, 1, G, G, L, L, G, L) PROBE(ggllgl, 2, G, G, L, L, G, L) PROBE(ggllgl, 3, G, G, L, L, G, L) PROBE(ggllgl, 4, G, G, L, L, G, L) PROBE(ggllgl, 5, G, G, L, L, G, L)
	using State = mimicpp::control_state_t;
	const mimicpp::state_saturated* st_sat(const State& s) { return std::get_if<mimicpp::state_saturated>(&s); }
	const mimicpp::state_applicable* st_app(const State& s) { return std::get_if<mimicpp::state_applicable>(&s); }
	const mimicpp::state_inapplicable* st_inapp(const State& s) { return std::get_if<mimicpp::state_inapplicable>(&s); }
}
