#include "registry.hpp"
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
#include <opengm/inference/alphaexpansion.hxx>
#include <opengm/inference/alphabetaswap.hxx>
#include <opengm/inference/qpbo.hxx>
namespace reg { namespace {
template<class ACC, opengm::BoostMaxFlowAlgorithm A> void cuts(const char* alg) {
   typedef opengm::MinSTCutBoost<size_t, double, A> C; typedef opengm::GraphCut<SumGm, ACC, C> G; typedef typename G::Parameter GP; const std::string a = alg;
   add<G>("GraphCut" + a, EXACT | FRESH, Dir<ACC>::sub, Dir<ACC>::drawSub, [](Rng&, const RefModel&) { return GP(); });
   { typedef opengm::AlphaExpansion<SumGm, G> S; typedef typename S::Parameter P; add<S>("AlphaExpansion" + a, RESET | START | RANDOM | SERIAL, Dir<ACC>::met, Dir<ACC>::drawMet, [](Rng& r, const RefModel& m) { P p; const size_t how = r.below(4), L = m.labels.empty() ? 0 : m.labels[0]; if(how == 1) { p.labelInitialType_ = P::RANDOM_LABEL; p.randSeedLabel_ = (unsigned)r.below(100); } else if(how == 2) p.labelInitialType_ = P::LOCALOPT_LABEL; else if(how == 3) { p.labelInitialType_ = P::EXPLICIT_LABEL; for(size_t i = 0; i < m.labels.size(); ++i) p.label_.push_back(r.below(L)); } const size_t o = r.below(3); if(o == 1) { p.orderType_ = P::RANDOM_ORDER; p.randSeedOrder_ = (unsigned)r.below(100); } else if(o == 2) { std::vector<size_t> q(L); std::iota(q.begin(), q.end(), size_t(0)); r.shuffle(q); p.orderType_ = P::EXPLICIT_ORDER; p.labelOrder_.assign(q.begin(), q.end()); } return p; }); }
   { typedef opengm::AlphaBetaSwap<SumGm, G> S; typedef typename S::Parameter P; add<S>("AlphaBetaSwap" + a, RESET | START, Dir<ACC>::met, Dir<ACC>::drawMet, [](Rng&, const RefModel&) { return P(); }); }
}
template<opengm::BoostMaxFlowAlgorithm A> void roof(const char* alg) { typedef opengm::QPBO<SumGm, opengm::MinSTCutBoost<size_t, double, A> > S; typedef typename S::Parameter P; add<S>(std::string("QPBO") + alg, FRESH, binary, drawBin, [](Rng&, const RefModel&) { return P(); }); }
struct Fill { Fill() { cuts<opengm::Minimizer, opengm::KOLMOGOROV>("-bk"); cuts<opengm::Maximizer, opengm::PUSH_RELABEL>("-pr"); cuts<opengm::Minimizer, opengm::EDMONDS_KARP>("-ek"); roof<opengm::PUSH_RELABEL>("-pr"); roof<opengm::KOLMOGOROV>("-bk"); } } fill; } }
