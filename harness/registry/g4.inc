#include "registry.hpp"
#include <opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx>
#include <opengm/functions/view_fix_variables_function.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx>
#include <opengm/inference/trws/trws_trws.hxx>
#include <opengm/inference/trws/trws_adsal.hxx>
#include <opengm/inference/trws/smooth_nesterov.hxx>
namespace reg { namespace {
template<class P> void smooth(Rng& r, P& p) {
   p.maxNumberOfIterations() = 1 + r.below(6); p.numberOfInternalIterations() = 1 + r.below(3); p.decompositionType() = P::Storage::GENERALSTRUCTURE; p.isAbsolutePrecision() = true; p.setPrecision(r.chance(0.5) ? 1e-6 : 0.01 + r.unit()); p.maxPrimalBoundIterationNumber() = 1 + r.below(30); p.maxNumberOfPresolveIterations() = 1 + r.below(20); p.lazyLPPrimalBoundComputation() = r.chance(0.5); p.setFastComputations(r.chance(0.5));
   typedef typename P::SmoothingParametersType SP; const int st = (int)r.below(3); p.smoothingStrategy() = st == 0 ? SP::ADAPTIVE_DIMINISHING : st == 1 ? SP::WC_DIMINISHING : SP::ADAPTIVE_PRECISIONORIENTED;
}
template<class ACC> void dual() {
   typedef Draw<SumGm> D;
   { typedef opengm::DDDualVariableBlock<marray::Marray<double> > B; typedef typename opengm::DualDecompositionBase<SumGm, B>::SubGmType Sub; typedef opengm::DynamicProgramming<Sub, ACC> I; typedef opengm::DualDecompositionSubGradient<SumGm, I, B> S; typedef typename S::Parameter P;
     add<S>("DualDecomposition", 0, unaryAndPairs, D::up, [](Rng& r, const RefModel& m) { P p; p.decompositionId_ = acyclic(m) && r.chance(0.3) ? P::TREE : P::SPANNINGTREES; p.maximalNumberOfIterations_ = 1 + r.below(12); p.stepsizeStride_ = r.chance(0.5) ? 1 : 0.1 + r.unit(); p.useAdaptiveStepsize_ = r.chance(0.3); if(r.chance(0.3)) p.minimalAbsAccuracy_ = r.unit(); return p; }, 1e-6); }
   { typedef opengm::TRWSi<SumGm, ACC> S; typedef typename S::Parameter P; add<S>("TRWSi", 0, unaryAndPairs, D::up, [](Rng& r, const RefModel&) { P p(1 + r.below(10)); p.decompositionType() = P::Storage::GENERALSTRUCTURE; p.precision() = r.chance(0.5) ? 0 : r.unit(); p.isAbsolutePrecision() = true; p.fastComputations() = r.chance(0.5); p.canonicalNormalization() = r.chance(0.5); return p; }, 1e-7); }
   { typedef opengm::ADSal<SumGm, ACC> S; typedef typename S::Parameter P; add<S>("ADSal", NOTSTEP, unaryAndPairs, D::up, [](Rng& r, const RefModel&) { P p; smooth(r, p); return p; }, 1e-7); }
   { typedef opengm::NesterovAcceleratedGradient<SumGm, ACC> S; typedef typename S::Parameter P; add<S>("Nesterov", NOTSTEP, unaryAndPairs, D::up, [](Rng& r, const RefModel&) { P p; smooth(r, p); p.gradientStep_ = r.chance(0.5) ? P::ADAPTIVE_STEP : r.chance(0.5) ? P::WC_STEP : P::JOJIC_STEP; return p; }, 1e-7); }
}
struct Fill { Fill() { dual<opengm::Minimizer>(); dual<opengm::Maximizer>(); } } fill; } }
