#include "registry.hpp"
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/infandflip.hxx>
#include <opengm/inference/greedygremlin.hxx>
namespace reg { namespace {
std::vector<size_t> labeling(Rng& r, const RefModel& m) { std::vector<size_t> l; for(size_t i = 0; i < m.labels.size(); ++i) l.push_back(r.below(m.labels[i])); return l; }
template<class GM, class ACC> void local() {
   typedef Draw<GM> D;
   { typedef opengm::ICM<GM, ACC> S; typedef typename S::Parameter P; add<S>("ICM", RESET | START, anyModel, D::any, [](Rng& r, const RefModel& m) { P p(r.chance(0.5) ? S::SINGLE_VARIABLE : S::FACTOR); if(r.chance(0.5)) { const std::vector<size_t> l = labeling(r, m); p.startPoint_.assign(l.begin(), l.end()); } return p; }); }
   { typedef opengm::LazyFlipper<GM, ACC> S; typedef typename S::Parameter P; add<S>("LazyFlipper", RESET | START, someVariables, D::some, [](Rng& r, const RefModel& m) { P p(size_t(1 + r.below(4))); if(r.chance(0.4)) { const std::vector<size_t> l = labeling(r, m); p.startingPoint_.assign(l.begin(), l.end()); } return p; }); }
   { typedef opengm::Bruteforce<GM, ACC> S; typedef typename S::Parameter P; add<S>("Bruteforce", RESET | EXACT | FRESH, anyModel, D::any, [](Rng&, const RefModel&) { return P(); }); }
   { typedef opengm::ICM<GM, ACC> I; typedef opengm::InfAndFlip<GM, ACC, I> S; typedef typename S::Parameter P; add<S>("InfAndFlip", START | PRINTS | FRESH, someVariables, D::some, [](Rng& r, const RefModel&) { P p(size_t(r.below(4))); p.warmStartableInf_ = r.chance(0.5); return p; }); }
   { typedef opengm::GreedyGremlin<GM, ACC> S; typedef typename S::Parameter P; add<S>("GreedyGremlin", FRESH, anyModel, D::any, [](Rng&, const RefModel&) { return P(); }); }
}
struct Fill { Fill() { local<SumGm, opengm::Minimizer>(); local<SumGm, opengm::Maximizer>(); local<ProdGm, opengm::Maximizer>(); local<ProdGm, opengm::Minimizer>(); } } fill; } }
