// instantiation unit: comparison matchers, predicates, wildcard and negation over opaque values
#include "mimic++/mimic++.hpp"
#include "matcher.inc"
namespace vu
{
	using namespace mimicpp;
	struct U { U(const U&) = delete; int data; };
	struct V { V(const V&); V(V&&) noexcept; ~V(); int data; };
	bool operator==(const U&, const V&); bool operator!=(const U&, const V&); bool operator<(const U&, const V&); bool operator<=(const U&, const V&); bool operator>(const U&, const V&); bool operator>=(const U&, const V&);
	struct Pred { Pred(const Pred&); Pred(Pred&&) noexcept; ~Pred(); int data; bool operator()(const U&) const; };
	struct PredM { PredM(const PredM&); PredM(PredM&&) noexcept; ~PredM(); int data; bool operator()(U&) const; };
}
template <> struct mimicpp::custom::Printer<vu::V> { template <typename Out> static Out print(Out out, const vu::V&); };
namespace vu
{
	MATCHER(eq, U&, V&&, CALL(matches::eq)) MATCHER(ne, U&, V&&, CALL(matches::ne)) MATCHER(lt, const U&, V&&, CALL(matches::lt)) MATCHER(le, U&, V&&, CALL(matches::le)) MATCHER(gt, U&, V&&, CALL(matches::gt)) MATCHER(ge, U&, V&&, CALL(matches::ge))
	MATCHER(eql, U&, const V&, CALL(matches::eq)) MATCHER(gel, U&, const V&, CALL(matches::ge)) MATCHER(nel, U&, const V&, CALL(matches::ne)) MATCHER(ltl, U&, const V&, CALL(matches::lt)) MATCHER(lel, U&, const V&, CALL(matches::le)) MATCHER(gtl, U&, const V&, CALL(matches::gt))
	MATCHER(ieq, int&, const int&, CALL(matches::eq)) MATCHER(ine, int&, int&&, CALL(matches::ne)) MATCHER(ilt, int&, int&&, CALL(matches::lt)) MATCHER(ile, int&, int&&, CALL(matches::le)) MATCHER(igt, int&, int&&, CALL(matches::gt)) MATCHER(ige, int&, int&&, CALL(matches::ge))
	MATCHER(deq, double&, const double&, CALL(matches::eq)) MATCHER(dne, double&, const double&, CALL(matches::ne)) MATCHER(dlt, double&, const double&, CALL(matches::lt)) MATCHER(dle, double&, const double&, CALL(matches::le)) MATCHER(dgt, double&, const double&, CALL(matches::gt)) MATCHER(dge, double&, const double&, CALL(matches::ge))
	MATCHER(feq, const float&, double&&, CALL(matches::eq)) MATCHER(fne, const float&, double&&, CALL(matches::ne)) MATCHER(flt, const float&, double&&, CALL(matches::lt)) MATCHER(fle, const float&, double&&, CALL(matches::le)) MATCHER(fgt, const float&, double&&, CALL(matches::gt)) MATCHER(fge, const float&, double&&, CALL(matches::ge))
	MATCHER(meq, int&, unsigned&&, CALL(matches::eq)) MATCHER(mne, int&, unsigned&&, CALL(matches::ne)) MATCHER(mlt, int&, unsigned&&, CALL(matches::lt)) MATCHER(mle, int&, unsigned&&, CALL(matches::le)) MATCHER(mgt, int&, unsigned&&, CALL(matches::gt)) MATCHER(mge, int&, unsigned&&, CALL(matches::ge))
	MATCHER(xeq, long&, const int&, CALL(matches::eq)) MATCHER(xne, long&, const int&, CALL(matches::ne)) MATCHER(xlt, long&, const int&, CALL(matches::lt)) MATCHER(xle, long&, const int&, CALL(matches::le)) MATCHER(xgt, long&, const int&, CALL(matches::gt)) MATCHER(xge, long&, const int&, CALL(matches::ge))
	MATCHER(pred, U&, Pred&&, CALL(matches::predicate)) MATCHER(predm, U&, const PredM&, CALL(matches::predicate)) MATCHER(inst, U&, U&, CALL(matches::instance)) MATCHER(instc, const U&, const U&, CALL(matches::instance))
	bool wild(U& u) { return matches::_.matches(u); } bool wildc(const U& u) { return detail::matches_hook::matches(matches::_, u); } bool wildr(int&& u) { return matches::_.matches(std::move(u)); }
}
