#include "registry.hpp"
#include <cstdlib>
#include <opengm/inference/gibbs.hxx>
#include <opengm/inference/icm.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/self_fusion.hxx>
#include <opengm/inference/fusion_based_inf.hxx>
#include <opengm/inference/partition-move.hxx>
namespace reg { namespace {
template<class GM, class ACC> void fuse() {
   typedef Draw<GM> D; namespace pg = opengm::proposal_gen;
   { typedef opengm::Gibbs<GM, ACC> S; typedef typename S::Parameter P; add<S>("Gibbs", RESET | START | RANDOM | SERIAL, someVariables, D::some, [](Rng& r, const RefModel& m) { P p; p.maxNumberOfSamplingSteps_ = r.below(40); p.numberOfBurnInSteps_ = r.below(10); p.variableProposal_ = r.chance(0.5) ? P::CYCLIC : P::RANDOM; if(r.chance(0.5)) for(size_t i = 0; i < m.labels.size(); ++i) p.startPoint_.push_back(r.below(m.labels[i])); return p; }); }
   { typedef opengm::ICM<GM, ACC> I; typedef opengm::SelfFusion<I> S; typedef typename S::Parameter P; add<S>("SelfFusion-icm", START | RANDOM | SERIAL, someVariables, D::some, [](Rng& r, const RefModel&) { return P(1 + r.below(2), S::LazyFlipperFusion, typename I::Parameter(), 1 + r.below(3), false, false, false, 100.0, 1 + r.below(8)); }); }
   { typedef opengm::BeliefPropagationUpdateRules<GM, ACC> U; typedef opengm::MessagePassing<GM, ACC, U, opengm::MaxDistance> I; typedef opengm::SelfFusion<I> S; typedef typename S::Parameter P; add<S>("SelfFusion-bp", START | RANDOM | SERIAL, someVariables, D::some, [](Rng& r, const RefModel&) { typename I::Parameter ip(1 + r.below(8), 0.0, r.chance(0.5) ? 0.0 : 0.5); ip.useNormalization_ = true; return P(1 + r.below(2), S::LazyFlipperFusion, ip, 1 + r.below(3), false, false, false, 100.0, 1 + r.below(8)); }); }
   { typedef pg::AlphaExpansionGen<GM, ACC> G; typedef opengm::FusionBasedInf<GM, G> S; typedef typename S::Parameter P; add<S>("Fusion-expansion", START, someVariables, D::some, [](Rng& r, const RefModel&) { return P(typename G::Parameter(), typename S::FusionParameter(S::FusionMoverType::LazyFlipperFusion, 1 + r.below(3)), r.below(20), r.below(8)); }); }
   { typedef pg::UpDownGen<GM, ACC> G; typedef opengm::FusionBasedInf<GM, G> S; typedef typename S::Parameter P; add<S>("Fusion-updown", START, someVariables, D::some, [](Rng& r, const RefModel&) { return P(typename G::Parameter(r.chance(0.5) ? "up" : "down"), typename S::FusionParameter(S::FusionMoverType::LazyFlipperFusion, 1 + r.below(3)), r.below(20), r.below(8)); }); }
   { typedef pg::RandomGen<GM, ACC> G; typedef opengm::FusionBasedInf<GM, G> S; typedef typename S::Parameter P; add<S>("Fusion-random", START | RANDOM | SERIAL, someVariables, D::some, [](Rng& r, const RefModel&) { return P(typename G::Parameter(), typename S::FusionParameter(S::FusionMoverType::LazyFlipperFusion, 1 + r.below(3)), r.below(20), r.below(8)); }); }
}
struct Fill { Fill() { fuse<SumGm, opengm::Minimizer>(); fuse<ProdGm, opengm::Maximizer>();
   typedef opengm::PartitionMove<SumGm, opengm::Minimizer> S; typedef S::Parameter P; add<S>("PartitionMove", 0, multicut, drawMulticut, [](Rng&, const RefModel&) { return P(); }); } } fill; } }
