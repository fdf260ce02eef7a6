#include "registry.hpp"
#include <opengm/inference/astar.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/messagepassing/messagepassing_trbp.hxx>
namespace reg { namespace {
template<class P> void schedule(Rng& r, P& p, const RefModel& m) {
   p.maximumNumberOfSteps_ = 1 + r.below(12); p.damping_ = r.chance(0.5) ? 0 : 0.5; p.bound_ = r.chance(0.5) ? 0 : 1e-3; p.useNormalization_ = true; const bool ac = acyclic(m);
   const size_t how = r.below(3); if(how == 0 && ac) p.isAcyclic_ = opengm::Tribool::Maybe; else p.isAcyclic_ = opengm::Tribool::False; p.inferSequential_ = how == 2;
   if(r.chance(0.5)) { p.sortedNodeList_.resize(m.labels.size()); std::iota(p.sortedNodeList_.begin(), p.sortedNodeList_.end(), size_t(0)); r.shuffle(p.sortedNodeList_); }
}
template<class GM, class ACC> void exact() {
   typedef Draw<GM> D;
   { typedef opengm::AStar<GM, ACC> S; typedef typename S::Parameter P; add<S>("AStar", RESET | EXACT | FRESH, anyModel, D::any, [](Rng& r, const RefModel& m) { P p; p.heuristic_ = r.below(3); if(r.chance(0.5)) { std::vector<size_t> o(m.labels.size()); std::iota(o.begin(), o.end(), size_t(0)); r.shuffle(o); p.nodeOrder_.assign(o.begin(), o.end()); } p.numberOfOpt_ = 1 + r.below(3); return p; }); }
   { typedef opengm::DynamicProgramming<GM, ACC> S; typedef typename S::Parameter P; add<S>("DynamicProgramming", EXACT | FRESH, acyclic, D::tree, [](Rng& r, const RefModel& m) { P p; if(r.chance(0.4)) { std::vector<size_t> o(m.labels.size()); std::iota(o.begin(), o.end(), size_t(0)); r.shuffle(o); o.resize(r.below(o.size() + 1)); p.roots_.assign(o.begin(), o.end()); } return p; }); }
   { typedef opengm::BeliefPropagationUpdateRules<GM, ACC> U; typedef opengm::MessagePassing<GM, ACC, U, opengm::MaxDistance> S; typedef typename S::Parameter P; add<S>("BeliefPropagation", RESET, anyModel, D::any, [](Rng& r, const RefModel& m) { P p; schedule(r, p, m); return p; }); }
   { typedef opengm::TrbpUpdateRules<GM, ACC> U; typedef opengm::MessagePassing<GM, ACC, U, opengm::MaxDistance> S; typedef typename S::Parameter P; add<S>("TRBP", RESET, anyModel, D::any, [](Rng& r, const RefModel& m) { P p; schedule(r, p, m); return p; }); }
}
struct Fill { Fill() { exact<SumGm, opengm::Minimizer>(); exact<SumGm, opengm::Maximizer>(); exact<ProdGm, opengm::Maximizer>(); } } fill; } }
