// The command line tool for minimising sums against the solvers called directly with the same parameters.
#include <sstream>
#include <set>
#include <iomanip>
#include "common.hpp"
#define main tool_main
#include <../src/interfaces/commandline/double/opengm_min_sum.cxx>
#undef main
#include <opengm/inference/dynamicprogramming.hxx>
namespace c41 { int minSum(int n, char** a) { return tool_main(n, a); }
typedef opengm::ExplicitFunction<double,size_t,size_t> Ex; typedef opengm::PottsFunction<double,size_t,size_t> Po; typedef opengm::PottsNFunction<double,size_t,size_t> PoN; typedef opengm::PottsGFunction<double,size_t,size_t> PoG;
typedef opengm::TruncatedSquaredDifferenceFunction<double,size_t,size_t> Tsq; typedef opengm::TruncatedAbsoluteDifferenceFunction<double,size_t,size_t> Tab;
typedef opengm::GraphicalModel<double, opengm::Adder, opengm::meta::TypeListGenerator<Ex, Po, PoN, PoG, Tsq, Tab, opengm::FoEFunction<double,size_t,size_t> >::type, opengm::DiscreteSpace<size_t,size_t> > Gm;
typedef opengm::Minimizer Min; typedef std::vector<size_t> Lab;
static double val(Ctx& c) { return c.rng.range(-40, 40) * 0.25; }
enum Shape { TREE, PAIRWISE, ANY, BINARY_SUBMODULAR, METRIC, GRID };
static Gm model(Ctx& c, Shape shape, size_t maxN = 5) {
   const size_t w0 = 2 + c.rng.below(2), h0 = 2 + c.rng.below(2), n = shape == GRID ? w0 * h0 : 1 + c.rng.below(maxN); const size_t k = 2 + c.rng.below(2); Lab L; for(size_t i = 0; i < n; ++i) L.push_back(shape == BINARY_SUBMODULAR ? 2 : shape == METRIC || shape == GRID ? k : 1 + c.rng.below(3));
   Gm gm(opengm::DiscreteSpace<size_t,size_t>(L.begin(), L.end()));
   for(size_t i = 0; i < n; ++i) { Ex e(&L[i], &L[i] + 1, 0.0); for(size_t l = 0; l < L[i]; ++l) e(l) = val(c); gm.addFactor(gm.addFunction(e), &i, &i + 1); }
   if(shape == GRID) { for(size_t y = 0; y < h0; ++y) for(size_t x = 0; x < w0; ++x) for(int d = 0; d < 2; ++d) { const size_t v[] = {x + y * w0, d ? x + (y + 1) * w0 : x + 1 + y * w0}; if(d ? y + 1 == h0 : x + 1 == w0) continue; gm.addFactor(gm.addFunction(Tab(k, k, 2, c.rng.below(20) * 0.25)), v, v + 2); } return gm; }
   const size_t P = shape == TREE ? n - 1 : n < 2 ? 0 : n + c.rng.below(3); std::set<std::pair<size_t,size_t> > seen;
   for(size_t p = 0; p < P; ++p) { size_t v[2]; if(shape == TREE) { v[1] = p + 1; v[0] = c.rng.below(p + 1); } else { v[0] = c.rng.below(n); v[1] = c.rng.below(n); if(v[0] == v[1]) continue; if(v[0] > v[1]) std::swap(v[0], v[1]); } if(!seen.insert(std::make_pair(v[0], v[1])).second) continue;
      const size_t sh[] = {L[v[0]], L[v[1]]}; Gm::FunctionIdentifier id; const size_t kind = c.rng.below(shape == METRIC || shape == BINARY_SUBMODULAR ? 3 : 6); const double w = c.rng.below(20) * 0.25;
      if(kind == 0) id = gm.addFunction(Po(sh[0], sh[1], 0, w)); else if(kind == 1) id = gm.addFunction(Tab(sh[0], sh[1], 2, w)); else if(kind == 2) { if(shape == METRIC || shape == BINARY_SUBMODULAR) { id = gm.addFunction(PoN(sh, sh + 2, 0, w)); } else id = gm.addFunction(Tsq(sh[0], sh[1], 3, w)); }
      else if(kind == 3) { const double q[] = {val(c), val(c)}; id = gm.addFunction(PoG(sh, sh + 2, q)); }
      else { Ex e(sh, sh + 2, 0.0); for(size_t i = 0; i < e.size(); ++i) e(i) = val(c); id = gm.addFunction(e); }
      gm.addFactor(id, v, v + 2); }
   if(shape == ANY && n >= 3 && c.rng.chance(0.6)) { Lab v; for(size_t i = 0; i < n; ++i) v.push_back(i); c.rng.shuffle(v); v.resize(3); std::sort(v.begin(), v.end()); size_t sh[] = {L[v[0]], L[v[1]], L[v[2]]}; Ex e(sh, sh + 3, 0.0); for(size_t i = 0; i < e.size(); ++i) e(i) = val(c); gm.addFactor(gm.addFunction(e), v.begin(), v.end()); }
   return gm; }
template<class INF> Lab direct(Gm& gm, const typename INF::Parameter& p) { INF inf(gm, p); inf.infer(); Lab l; inf.arg(l); return l; }
typedef opengm::MessagePassing<Gm, Min, opengm::BeliefPropagationUpdateRules<Gm, Min>, opengm::MaxDistance> BP;
typedef opengm::MessagePassing<Gm, Min, opengm::TrbpUpdateRules<Gm, Min>, opengm::MaxDistance> TRBP;
typedef opengm::MinSTCutBoost<size_t, double, opengm::PUSH_RELABEL> PR; typedef opengm::MinSTCutBoost<size_t, double, opengm::EDMONDS_KARP> EK; typedef opengm::MinSTCutBoost<size_t, double, opengm::KOLMOGOROV> KO;
static std::string text(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
struct Job { std::vector<std::string> args; Lab want; bool exact, judged; Job() : exact(false), judged(true) {} 
   Job& o(const std::string& a) { args.push_back(a); return *this; } Job& o(const std::string& a, const std::string& b) { args.push_back(a); args.push_back(b); return *this; } };
template<class CUT> void cuts(Ctx& c, Gm& gm, Job& j, int which) {
   typedef opengm::GraphCut<Gm, Min, CUT> GC;
   if(which == 0) { typename GC::Parameter p; j.want = direct<GC>(gm, p); }
   else if(which == 1) { typedef opengm::AlphaExpansion<Gm, GC> AE; typename AE::Parameter p; p.maxNumberOfSteps_ = 1000; p.randSeedOrder_ = 0; p.randSeedLabel_ = 0;
      if(c.rng.chance(0.3)) { p.maxNumberOfSteps_ = c.rng.below(4); j.o("--maxIt", str(p.maxNumberOfSteps_)); }
      if(c.rng.chance(0.3)) { p.labelInitialType_ = AE::Parameter::LOCALOPT_LABEL; j.o("--labelInitialType", "LOCALOPT"); } else if(c.rng.chance(0.3)) { p.labelInitialType_ = AE::Parameter::RANDOM_LABEL; p.randSeedLabel_ = 1 + c.rng.below(99); j.o("--labelInitialType", "RANDOM").o("--randSeedLabel", str(p.randSeedLabel_)); }
      if(c.rng.chance(0.3)) { p.orderType_ = AE::Parameter::RANDOM_ORDER; p.randSeedOrder_ = 1 + c.rng.below(99); j.o("--orderType", "RANDOM").o("--randSeedOrder", str(p.randSeedOrder_)); }
      j.want = direct<AE>(gm, p); }
   else { typedef opengm::AlphaBetaSwap<Gm, GC> AB; typename AB::Parameter p; p.maxNumberOfIterations_ = 1000; if(c.rng.chance(0.4)) { p.maxNumberOfIterations_ = c.rng.below(3); j.o("--maxIt", str(p.maxNumberOfIterations_)); } j.want = direct<AB>(gm, p); } }
static void vec(const Scratch& s, const std::string& file, const std::string& ds, const Lab& v, bool h5) {
   if(h5) { hid_t f = exists(s(file)) ? marray::hdf5::openFile(s(file), marray::hdf5::READ_WRITE) : marray::hdf5::createFile(s(file)); marray::hdf5::save(f, ds, v); marray::hdf5::closeFile(f); }
   else { std::ofstream o(s(file).c_str(), std::ios::app); o << "%" << ds << "\n"; for(size_t i = 0; i < v.size(); ++i) o << v[i] << "; "; o << "\n"; } }
// labels read from a result file (text or HDF5)
static Lab states(Ctx& c, const Scratch& s, const std::string& file, const std::string& k) {
   VF_CHECK(exists(s(file)), k + "/no-result", "the tool succeeded without writing " << file); Lab l;
   if(file.size() > 3 && file.substr(file.size() - 3) == ".h5") { try { hid_t f = marray::hdf5::openFile(s(file)); marray::hdf5::loadVec(f, "states", l); marray::hdf5::closeFile(f); } catch(const std::exception& e) { c.fail(k + "/unreadable", e.what()); throw Abort(); } return l; }
   std::istringstream in(slurp(s(file))); std::string line; bool at = false; while(std::getline(in, line)) { if(at) { std::istringstream q(line); size_t v; char ch; while(q >> v >> ch) l.push_back(v); at = false; } if(line == "%states") at = true; } return l; }
template<class D, class P> Lab dd(Gm& gm, const P& base) { typename D::Parameter p; p.maximalNumberOfIterations_ = base.its; p.stepsizeScale_ = base.scale; p.stepsizeStride_ = base.stride; p.stepsizeExponent_ = base.exponent; p.minimalAbsAccuracy_ = base.abs; p.useProjectedAdaptiveStepsize_ = base.rule == 0; if(base.rule == 1) p.useAdaptiveStepsize_ = true; if(base.rule == 2) { p.stepsizePrimalDualGapStride_ = false; p.stepsizeNormalizedSubgradient_ = true; } if(base.rule == 3) { p.stepsizePrimalDualGapStride_ = false; p.stepsizeNormalizedSubgradient_ = false; }
   p.numberOfBlocks_ = base.blocks; p.k_ = 4; p.maximalDualOrder_ = std::numeric_limits<size_t>::max(); p.decompositionId_ = base.decomp == 0 ? opengm::DualDecompositionBaseParameter::TREE : base.decomp == 1 ? opengm::DualDecompositionBaseParameter::SPANNINGTREES : base.decomp == 2 ? opengm::DualDecompositionBaseParameter::BLOCKS : opengm::DualDecompositionBaseParameter::KFANS; return direct<D>(gm, p); }
struct DDp { size_t its, blocks; double scale, stride, exponent, abs; int rule, decomp; };
template<class P> void smooth(Ctx& c, Job& j, P& p, const char* start) {   // options shared by ADSal and Nesterov
   p.maxNumberOfIterations() = 1 + c.rng.below(6); j.o("--maxIt", str(p.maxNumberOfIterations())); double precision = 0; bool rel = false; 
   if(c.rng.chance(0.4)) { precision = 0.25 * c.rng.below(4); j.o("--precision", text(precision)); if(c.rng.chance(0.5)) { rel = true; j.o("--relative", "1"); } } p.isAbsolutePrecision() = !rel; p.setPrecision(precision);
   if(c.rng.chance(0.3)) { p.numberOfInternalIterations() = 1 + c.rng.below(4); j.o("--numberOfInternalIterations", str(p.numberOfInternalIterations())); }
   if(c.rng.chance(0.3)) { p.setStartSmoothingValue(0.5 + c.rng.below(4)); j.o(std::string("--") + start, text(p.startSmoothingValue())); }
   if(c.rng.chance(0.3)) { p.maxNumberOfPresolveIterations() = c.rng.below(4); j.o("--maxNumberOfPresolveIterations", str(p.maxNumberOfPresolveIterations())); }
   p.lazyLPPrimalBoundComputation() = false; if(c.rng.chance(0.2)) { p.lazyLPPrimalBoundComputation() = true; j.o("--lazyLPPrimalBoundComputation", "1"); }
   p.setFastComputations(true); if(c.rng.chance(0.2)) { p.setFastComputations(false); j.o("--slowComputations", "1"); } p.setCanonicalNormalization(true); if(c.rng.chance(0.2)) { p.setCanonicalNormalization(false); j.o("--noNormalization", "1"); } }
template<class GEN, class SET> void fusion(Ctx& c, Gm& gm, Job& j, SET set) { typedef opengm::FusionBasedInf<Gm, GEN> I; typename I::Parameter p; p.fusionParam_.fusionSolver_ = I::FusionMover::LazyFlipperFusion; p.numIt_ = 100; p.numStopIt_ = 0; p.fusionParam_.maxSubgraphSize_ = 2; j.o("-f", "LF");
   p.numIt_ = 1 + c.rng.below(12); j.o("--numIt", str(p.numIt_)); if(c.rng.chance(0.5)) { p.numStopIt_ = 1 + c.rng.below(9); j.o("--numStopIt", str(p.numStopIt_)); } if(c.rng.chance(0.4)) { p.fusionParam_.maxSubgraphSize_ = 1 + c.rng.below(3); j.o("--maxSS", str(p.fusionParam_.maxSubgraphSize_)); } set(j, p); j.want = direct<I>(gm, p); const Lab again = direct<I>(gm, p); j.judged = again == j.want; }
struct Nothing { template<class P> void operator()(Job&, P&) const {} };
}
using namespace c41;
static const char* const algos[] = {"ICM", "BRUTEFORCE", "BELIEFPROPAGATION", "TRBP", "ASTAR", "LAZYFLIPPER", "INFANDFLIP", "TRWSi", "ADSal", "Nesterov", "PARTITIONMOVE", "GreedyGremlin", "SelfFusion", "Fusion", "GRAPHCUT", "ALPHAEXPANSION", "ALPHABETASWAP", "QPBO", "DDSubgradient"};
static const size_t nAlgos = sizeof(algos) / sizeof(*algos);
VF_SCENARIO(min_sum_algorithms, 152, 2280) {
   Scratch s; const size_t a = c.caseNo % nAlgos; const std::string name = algos[a];
   const Shape shape = name == "Fusion" && (c.caseNo / nAlgos) % 9 >= 6 ? GRID : name == "GRAPHCUT" ? BINARY_SUBMODULAR : name == "QPBO" ? BINARY_SUBMODULAR : name == "ALPHAEXPANSION" || name == "ALPHABETASWAP" || name == "PARTITIONMOVE" ? METRIC : name == "TRWSi" || name == "ADSal" || name == "Nesterov" ? (c.rng.chance(0.3) ? TREE : PAIRWISE) : name == "TRBP" || name == "DDSubgradient" ? (c.rng.chance(0.4) ? TREE : PAIRWISE) : name == "ASTAR" || name == "BELIEFPROPAGATION" || name == "SelfFusion" || name == "INFANDFLIP" ? (c.rng.chance(0.4) ? TREE : PAIRWISE) : ANY;
   Gm gm = model(c, shape); const size_t n = gm.numberOfVariables(); c.desc << name << " on " << tables(gm).str(); tables(gm).digest(c); c.digest(a); opengm::hdf5::save(gm, s("m.h5"), "gm"); Job j; const std::string K = "tool-" + name;
   Lab x0; for(size_t i = 0; i < n; ++i) x0.push_back(c.rng.below(gm.numberOfLabels(i))); const bool h5 = c.rng.chance(0.5); const std::string xf = h5 ? "x.h5" : "x.txt"; if(c.rng.chance(0.5)) vec(s, xf, "other", Lab(3, 7), h5); vec(s, xf, "start", x0, h5);
   if(name == "ICM") { opengm::ICM<Gm, Min>::Parameter p; if(c.rng.chance(0.6)) { p.startPoint_ = x0; j.o(c.rng.chance(0.5) ? "-x0" : "--startingpoint", xf + ":start"); } j.want = direct<opengm::ICM<Gm, Min> >(gm, p); }
   else if(name == "BRUTEFORCE") { opengm::Bruteforce<Gm, Min>::Parameter p; j.want = direct<opengm::Bruteforce<Gm, Min> >(gm, p); j.exact = true; }
   else if(name == "BELIEFPROPAGATION" || name == "TRBP") { size_t it = 100; double bound = 0, damping = 0; bool seq = false; if(c.rng.chance(0.7)) { it = 1 + c.rng.below(12); j.o("--maxIt", str(it)); } if(c.rng.chance(0.5)) { bound = 0.001 * c.rng.below(400); j.o("--bound", text(bound)); } if(c.rng.chance(0.5)) { damping = 0.125 * c.rng.below(7); j.o("--damping", text(damping)); } if(c.rng.chance(0.4)) { seq = true; j.o("--sequential"); }
      if(name == "TRBP") { TRBP::Parameter p; p.maximumNumberOfSteps_ = it; p.bound_ = bound; p.damping_ = damping; p.inferSequential_ = seq; j.want = direct<TRBP>(gm, p); } else { BP::Parameter p; p.maximumNumberOfSteps_ = it; p.bound_ = bound; p.damping_ = damping; p.inferSequential_ = seq; j.want = direct<BP>(gm, p); } }
   else if(name == "ASTAR") { typedef opengm::AStar<Gm, Min> I; I::Parameter p; const size_t h = c.rng.below(4); if(h == 1) { p.heuristic_ = I::Parameter::STANDARDHEURISTIC; j.o("--heuristic", "STANDARD"); } else if(h == 2) { p.heuristic_ = I::Parameter::FASTHEURISTIC; j.o("--heuristic", "FAST"); } else if(h == 3) { p.heuristic_ = I::Parameter::DEFAULTHEURISTIC; j.o("--heuristic", "DEFAULT"); }
      if(c.rng.chance(0.4)) { Lab o; for(size_t i = 0; i < n; ++i) o.push_back(i); c.rng.shuffle(o); vec(s, xf, "order", o, h5); p.nodeOrder_.assign(o.begin(), o.end()); j.o("--nodeorder", xf + ":order"); } j.want = direct<I>(gm, p); j.exact = true; }
   else if(name == "LAZYFLIPPER") { typedef opengm::LazyFlipper<Gm, Min> I; I::Parameter p; if(c.rng.chance(0.6)) { p.maxSubgraphSize_ = 1 + c.rng.below(4); j.o("--maxsize", str(p.maxSubgraphSize_)); } if(c.rng.chance(0.5)) { p.startingPoint_ = x0; j.o("-x0", xf + ":start"); } j.want = direct<I>(gm, p); }
   else if(name == "INFANDFLIP") { typedef opengm::MessagePassing<Gm, Min, opengm::BeliefPropagationUpdateRules<Gm, Min>, opengm::MaxDistance> LBP; typedef opengm::InfAndFlip<Gm, Min, LBP> I; I::Parameter p; p.maxSubgraphSize_ = 2; p.subPara_.maximumNumberOfSteps_ = 1000; p.subPara_.damping_ = 0.5; p.subPara_.bound_ = 0.00001; j.o("--inf", "LBP"); if(c.rng.chance(0.5)) { p.maxSubgraphSize_ = 1 + c.rng.below(3); j.o("--maxsize", str(p.maxSubgraphSize_)); } p.subPara_.maximumNumberOfSteps_ = 1 + c.rng.below(20); j.o("--maxIt", str(p.subPara_.maximumNumberOfSteps_)); j.want = direct<I>(gm, p); }
   else if(name == "TRWSi") { typedef opengm::TRWSi<Gm, Min> I; const size_t it = 1 + c.rng.below(20); j.o("--maxIt", str(it)); I::Parameter p; p.maxNumberOfIterations_ = it; p.precision() = 0; p.isAbsolutePrecision() = true; p.fastComputations() = true; p.canonicalNormalization() = true; p.setTreeAgreeMaxStableIter(0); p.decompositionType() = opengm::trws_base::DecompositionStorage<Gm>::GENERALSTRUCTURE;
      if(c.rng.chance(0.3)) { p.precision() = 0.5 * c.rng.below(8); j.o("--precision", text(p.precision())); if(c.rng.chance(0.5)) { p.isAbsolutePrecision() = false; j.o("--relative", "1"); } } if(c.rng.chance(0.3)) { p.decompositionType() = opengm::trws_base::DecompositionStorage<Gm>::EDGESTRUCTURE; j.o("-d", "EDGE"); } if(c.rng.chance(0.3)) { p.fastComputations() = false; j.o("--slowComputations", "1"); } if(c.rng.chance(0.3)) { p.canonicalNormalization() = false; j.o("--noNormalization", "1"); } if(c.rng.chance(0.3)) { const size_t t = 1 + c.rng.below(4); p.setTreeAgreeMaxStableIter(t); j.o("--treeAgreeMaxStableIter", str(t)); } j.want = direct<I>(gm, p); }
   else if(name == "ADSal") { typedef opengm::ADSal<Gm, Min> I; I::Parameter p; p.decompositionType() = opengm::trws_base::DecompositionStorage<Gm>::GENERALSTRUCTURE; smooth(c, j, p, "ADSal_startSmoothing"); p.lazyDerivativeComputation() = false; if(c.rng.chance(0.3)) { p.lazyDerivativeComputation() = true; j.o("--lazyDerivativeComputation", "1"); } j.want = direct<I>(gm, p); }
   else if(name == "Nesterov") { typedef opengm::NesterovAcceleratedGradient<Gm, Min> I; I::Parameter p; p.decompositionType() = opengm::trws_base::DecompositionStorage<Gm>::GENERALSTRUCTURE; smooth(c, j, p, "Nesterov_startSmoothing"); if(c.rng.chance(0.3)) { p.plainGradient_ = true; j.o("--plainGradient"); } j.want = direct<I>(gm, p); }
   else if(name == "PARTITIONMOVE") { typedef opengm::PartitionMove<Gm, Min> I; std::vector<size_t> L(n, n); Gm q(opengm::DiscreteSpace<size_t,size_t>(L.begin(), L.end())); for(size_t i = 0; i < n; ++i) for(size_t k = i + 1; k < n; ++k) if(c.rng.chance(0.7)) { const size_t v[] = {i, k}; q.addFactor(q.addFunction(Po(n, n, 0, val(c))), v, v + 2); } gm = q; unlink(s("m.h5").c_str()); opengm::hdf5::save(gm, s("m.h5"), "gm"); I::Parameter p; j.want = direct<I>(gm, p); }
   else if(name == "GreedyGremlin") { typedef opengm::GreedyGremlin<Gm, Min> I; I::Parameter p; j.want = direct<I>(gm, p); }
   else if(name == "SelfFusion") { typedef opengm::SelfFusion<BP> I; I::Parameter p; p.fusionSolver_ = I::LazyFlipperFusion; j.o("-i", "LBP").o("--fusion", "LF"); p.infParam_.maximumNumberOfSteps_ = 10; p.numStopIt_ = 10; p.infParam_.damping_ = 0.5; p.maxSubgraphSize_ = 2; if(c.rng.chance(0.6)) { p.infParam_.maximumNumberOfSteps_ = 1 + c.rng.below(8); j.o("--numIt", str(p.infParam_.maximumNumberOfSteps_)); } if(c.rng.chance(0.4)) { p.numStopIt_ = 1 + c.rng.below(4); j.o("--numStopIt", str(p.numStopIt_)); } if(c.rng.chance(0.4)) { p.infParam_.damping_ = 0.25 * c.rng.below(4); j.o("--dampingLBP", text(p.infParam_.damping_)); } if(c.rng.chance(0.4)) { p.maxSubgraphSize_ = 1 + c.rng.below(3); j.o("--maxSS", str(p.maxSubgraphSize_)); } p.reducedInf_ = p.connectedComponents_ = p.tentacles_ = false; j.want = direct<I>(gm, p); }
   else if(name == "Fusion") { using namespace opengm::proposal_gen; const size_t g = (c.caseNo / nAlgos) % 9; c.count("fusion generator " + str(g)); const double sigma = 0.5 + c.rng.below(4); const float temp = 0.5f + c.rng.below(3); const bool so = c.rng.chance(0.5), to = c.rng.chance(0.5);
      struct Sig { bool so, to, lm; double s; float t; void operator()(Job& j, opengm::FusionBasedInf<Gm, EnergyBlurGen<Gm, Min> >::Parameter& p) const { p.proposalParam_.sigma_ = so ? s : 20.0; p.proposalParam_.temp_ = to ? t : 1.0f; p.proposalParam_.useLocalMargs_ = lm; if(so) j.o("--sigma", text(s)); if(to) j.o("--temperature", text(t)); }
         void operator()(Job& j, opengm::FusionBasedInf<Gm, BlurGen<Gm, Min> >::Parameter& p) const { p.proposalParam_.sigma_ = so ? s : 20.0; if(so) j.o("--sigma", text(s)); } void operator()(Job& j, opengm::FusionBasedInf<Gm, NonUniformRandomGen<Gm, Min> >::Parameter& p) const { p.proposalParam_.temp_ = to ? t : 1.0f; if(to) j.o("-temp", text(t)); } };
      Sig sg = {so, to, false, sigma, temp}; const char* gens[] = {"A-EXP", "AB-SWAP", "UP-DOWN", "RANDOM", "RANDOMLF", "NU_RANDOM", "BLUR", "ENERGYBLUR", "NU_ENERGYBLUR"}; if(g || c.rng.chance(0.5)) j.o("-g", gens[g]);
      if(g == 0) fusion<AlphaExpansionGen<Gm, Min> >(c, gm, j, Nothing()); else if(g == 1) fusion<AlphaBetaSwapGen<Gm, Min> >(c, gm, j, Nothing()); else if(g == 2) fusion<UpDownGen<Gm, Min> >(c, gm, j, Nothing()); else if(g == 3) fusion<RandomGen<Gm, Min> >(c, gm, j, Nothing()); else if(g == 4) fusion<RandomLFGen<Gm, Min> >(c, gm, j, Nothing()); else if(g == 5) fusion<NonUniformRandomGen<Gm, Min> >(c, gm, j, sg); else if(g == 6) fusion<BlurGen<Gm, Min> >(c, gm, j, sg); else { sg.lm = g == 8; fusion<EnergyBlurGen<Gm, Min> >(c, gm, j, sg); } }
   else if(name == "QPBO") { typedef opengm::QPBO<Gm, PR> I; const size_t m = c.rng.below(3); if(m == 0) { I::Parameter p; j.o("-mf", "BOOST_PUSH_RELABEL"); j.want = direct<I>(gm, p); } else if(m == 1) { typedef opengm::QPBO<Gm, EK> J; J::Parameter p; j.o("-mf", "BOOST_EDMONDS_KARP"); j.want = direct<J>(gm, p); } else { typedef opengm::QPBO<Gm, KO> J; J::Parameter p; j.want = direct<J>(gm, p); } }
   else if(name == "DDSubgradient") { DDp d = {100, 2, 1.0, 1.0, 0.5, 0.0, 0, 0}; d.its = 1 + c.rng.below(30); j.o("--maxIt", str(d.its)); if(c.rng.chance(0.4)) { d.scale = 0.5 + 0.25 * c.rng.below(4); j.o("--ssScale", text(d.scale)); } if(c.rng.chance(0.4)) { d.stride = 0.25 + 0.25 * c.rng.below(4); j.o("--ssStride", text(d.stride)); } if(c.rng.chance(0.4)) { d.exponent = 0.25 + 0.25 * c.rng.below(3); j.o("--ssExponent", text(d.exponent)); } if(c.rng.chance(0.3)) { d.abs = 0.25 * c.rng.below(5); j.o("--absStop", text(d.abs)); }
      const char* rules[] = {"ProjectedAdaptive", "Adaptive", "StepLength", "StepSize"}; if(c.rng.chance(0.6)) { d.rule = (int)c.rng.below(4); j.o("--stepsizeRule", rules[d.rule]); } const char* dec[] = {"Tree", "SpanningTrees", "Blocks", "KFans"}; if(c.rng.chance(0.6)) { d.decomp = (int)c.rng.below(4); j.o("--decomp", dec[d.decomp]); if(d.decomp == 2) { d.blocks = 1 + c.rng.below(3); j.o("--numBlocks", str(d.blocks)); } }
      typedef opengm::DDDualVariableBlock<marray::View<double, false> > B; typedef opengm::DualDecompositionBase<Gm, B>::SubGmType S; const size_t sub = d.decomp >= 2 ? 2 : c.rng.below(3);
      if(sub == 0) { typedef opengm::DualDecompositionSubGradient<Gm, opengm::DynamicProgramming<S, Min>, B> D; j.o("--subInf", "DPTree"); j.want = dd<D>(gm, d); }
      else if(sub == 1) { typedef opengm::MessagePassing<S, Min, opengm::BeliefPropagationUpdateRules<S, Min> > M; typedef opengm::DualDecompositionSubGradient<Gm, M, B> D; if(c.rng.chance(0.5)) j.o("--subInf", "DPHTree"); j.judged = false; }
      else { typedef opengm::DualDecompositionSubGradient<Gm, opengm::AStar<S, Min>, B> D; j.o("--subInf", "ASTAR"); j.want = dd<D>(gm, d); } }
   else { const int which = name == "GRAPHCUT" ? 0 : name == "ALPHAEXPANSION" ? 1 : 2; j.exact = which == 0; const size_t m = c.rng.below(4); if(m == 0) { j.o("-mf", "BOOST_PUSH_RELABEL"); cuts<PR>(c, gm, j, which); } else if(m == 1) { j.o("--maxflow", "BOOST_EDMONDS_KARP"); cuts<EK>(c, gm, j, which); } else { if(m == 2) j.o("-mf", "BOOST_KOLMOGOROV"); cuts<KO>(c, gm, j, which); } }
   c.count("runs of " + name);
   std::vector<std::string> args = A("-m", c.rng.chance(0.5) ? "m.h5:gm" : "m.h5", "-a", name.c_str()); const std::string of = c.rng.chance(0.3) ? "r.txt" : "r.h5"; args.push_back(c.rng.chance(0.5) ? "-o" : "--outputfile"); args.push_back(of); args.insert(args.end(), j.args.begin(), j.args.end()); const bool prot = c.rng.chance(0.3); if(prot) { args.push_back("-p"); args.push_back(str(c.rng.below(3))); } if(c.rng.chance(0.2)) args.push_back("-v");
   c.desc << " arguments" << show(args); const bool old = c.rng.chance(0.3); if(old) spit(s(of), "an older file");
   works(c, s, minSum, args, K); const Lab got = states(c, s, of, K); RefModel m = tables(gm);
   VF_CHECK(validLabeling(m, got), K + "/invalid", "labels " << show(got)); if(j.judged) { if(m.eval(got) != m.eval(j.want) || got != j.want) VF_CHECK(false, K + "/differs", "the tool finds " << show(got) << " value " << m.eval(got) << ", the solver with these parameters " << show(j.want) << " value " << m.eval(j.want)); c.seen(); c.count("labelings compared with direct calls"); }
   if(j.exact) VF_CHECK(close(m.eval(got), m.best(false)), K + "/not-optimal", "labels " << show(got) << " value " << m.eval(got) << " optimum " << m.best(false));
   VF_CHECK(!old || slurp(s(of + "~")) == "an older file", K + "/older-file", "the older result file is not kept");
}
VF_SCENARIO(min_sum_evaluate, 40, 400) {
   Scratch s; Gm gm = model(c, ANY); const RefModel m = tables(gm); c.desc << m.str(); m.digest(c); opengm::hdf5::save(gm, s("m.h5"), "data"); const bool h5 = c.rng.chance(0.5); const std::string f = h5 ? "l.h5" : "l.txt"; Lab l; for(size_t i = 0; i < m.labels.size(); ++i) l.push_back(c.rng.below(m.labels[i])); vec(s, f, "zero", Lab(m.labels.size(), 0), h5); vec(s, f, "mine", l, h5);
   Outcome r = works(c, s, minSum, A("-m", "m.h5:data", c.rng.chance(0.5) ? "-e" : "--evaluate", (f + ":mine").c_str()), "evaluate"); const size_t p = r.out.find("result: "); VF_CHECK(p != std::string::npos, "evaluate/no-value", r.show()); const double v = std::strtod(r.out.c_str() + p + 8, 0); VF_CHECK(close(v, m.eval(l), 1e-5, 1e-5), "evaluate/value", v << " expected " << m.eval(l) << " for " << show(l));
   // labelings that do not fit
   Lab b = l; const size_t k = c.rng.below(3); if(k == 0) b.push_back(0); else if(k == 1) { b.pop_back(); if(b.empty()) { b = l; b.push_back(0); } } else { const size_t i = c.rng.below(b.size()); b[i] = m.labels[i] + c.rng.below(3); } vec(s, f, "bad", b, h5); r = fails(c, s, minSum, A("-m", "m.h5:data", "-e", (f + ":bad").c_str()), "", "evaluate", "labels " + show(b) + " for a space " + show(m.labels)); VF_CHECK(r.out.find("result:") == std::string::npos, "evaluate/result-after-failure", r.show());
   fails(c, s, minSum, A("-m", "m.h5:data", "-e", (f + ":none").c_str()), "", "evaluate/dataset", "a missing dataset"); fails(c, s, minSum, A("-m", "m.h5:data", "-e", "none.txt:mine"), "", "evaluate/missing", "a missing file");
   if(!h5) { std::string t = "%x\n"; for(size_t i = 0; i < l.size(); ++i) t += i + 1 == l.size() ? (c.rng.chance(0.5) ? "q; " : "1x; ") : str(l[i]) + "; "; spit(s("q.txt"), t + "\n"); fails(c, s, minSum, A("-m", "m.h5:data", "-e", "q.txt:x"), "", "evaluate/garbage", "a vector with something that is no number: " + t); }
}
VF_SCENARIO(tool_errors, 60, 600) {
   Scratch s; Gm gm = model(c, PAIRWISE); const RefModel m = tables(gm); m.digest(c); opengm::hdf5::save(gm, s("m.h5"), "gm"); const size_t k = c.caseNo % 12; c.digest(k); std::vector<std::string> a = A("-o", "r.h5", "-m", "m.h5:gm", "-a", "ICM"); std::string what;
   const char* nums[] = {"abc", "3x", "-2", "1.5", "99999999999999999999999", "0x10", "1e3"};
   if(k == 0) { a[5] = c.rng.chance(0.5) ? "NOSUCH" : "icm"; what = "an unknown algorithm"; }
   else if(k == 1) { a[5] = "ASTAR"; a.push_back("--heuristic"); a.push_back("BEST"); what = "an unknown heuristic"; }
   else if(k == 2) { a[5] = "LAZYFLIPPER"; a.push_back("--maxsize"); a.push_back(nums[c.rng.below(7)]); what = "a number of steps " + a.back(); }
   else if(k == 3) { a[5] = "BELIEFPROPAGATION"; a.push_back("--damping"); const char* d[] = {"half", "0.5.5", "0,5", "1/2"}; a.push_back(d[c.rng.below(4)]); what = "a damping " + a.back(); }
   else if(k == 4) { a[3] = "none.h5:gm"; what = "a missing model file"; }
   else if(k == 5) { a[3] = "m.h5:other"; what = "a missing dataset"; }
   else if(k == 6) { const std::string raw = slurp(s("m.h5")); spit(s("cut.h5"), raw.substr(0, c.rng.below(raw.size() / 2))); a[3] = "cut.h5:gm"; what = "a truncated model file"; }
   else if(k == 7) { a.resize(4); what = "no algorithm"; }
   else if(k == 8) { a.push_back("-x0"); Lab x(m.labels.size(), 0); const bool h5 = c.rng.chance(0.5); if(c.rng.chance(0.5)) { a.push_back("none.txt:x"); what = "a missing starting point"; } else { vec(s, h5 ? "y.h5" : "y.txt", "x", x, h5); a.push_back(h5 ? "y.h5:z" : "y.txt:z"); what = "a missing dataset of the starting point"; } }
   else if(k == 9) { const char* bad[] = {"INFANDFLIP", "SelfFusion", "DDSubgradient", "DDSubgradient"}; const char* o[] = {"--inf", "--inf", "--subInf", "--decomp"}; const char* v[] = {"SIMPLEX", "SIMPLEX", "SIMPLEX", "Shrubs"}; const size_t q = c.rng.below(4); a[5] = bad[q]; a.push_back(o[q]); a.push_back(v[q]); what = a[5] + " " + o[q] + " " + v[q]; }
   else if(k == 10) { a[5] = "DDSubgradient"; a.push_back("--subInf"); const char* v[] = {"ILP", "GraphCut", "RILP"}; a.push_back(v[c.rng.below(3)]); what = "a subsolver that is not available: " + a.back(); }
   else { a[5] = "Fusion"; a.push_back("-g"); a.push_back("WISE"); a.push_back("-f"); a.push_back("LF"); what = "an unknown proposal generator"; }
   c.desc << what << " arguments" << show(a); fails(c, s, minSum, a, "r.h5", "tool-error-" + str(k), what + ", arguments" + show(a));
   // help and model information do not need an algorithm
   if(c.rng.chance(0.2)) { works(c, s, minSum, A("-h"), "help"); works(c, s, minSum, A("-h", "-a", algos[c.rng.below(nAlgos)]), "help"); works(c, s, minSum, A("-m", "m.h5:gm", "--modelinfo"), "modelinfo"); fails(c, s, minSum, A(), "", "no-arguments", "no argument"); }
}
VF_SCENARIO(text_decomposition, 12, 120) {
   Scratch s; Gm gm = model(c, PAIRWISE); const RefModel m = tables(gm); m.digest(c); c.desc << m.str(); opengm::hdf5::save(gm, s("m.h5"), "gm"); const size_t n = m.labels.size();
   // every factor's variables lie in one of the subsets; further subsets are arbitrary
   std::ostringstream o; const size_t k = 1 + c.rng.below(3); std::vector<std::vector<char> > sub(k, std::vector<char>(n, 0)); for(size_t f = 0; f < gm.numberOfFactors(); ++f) { const size_t t = c.rng.below(k); for(size_t v = 0; v < gm[f].numberOfVariables(); ++v) sub[t][gm[f].variableIndex(v)] = 1; }
   for(size_t i = 0; i < k; ++i) { bool any = false; for(size_t v = 0; v < n; ++v) if(sub[i][v] || c.rng.chance(0.2)) { any = true; o << v << " "; } if(!any) o << "0 "; o << "\n"; } spit(s("d.txt"), o.str());
   std::vector<std::string> a = A("-o", "r.h5", "-m", "m.h5:gm", "-a", "DDSubgradient"); const char* more[] = {"--subInf", "ASTAR", "--decomp", "File", "--decompfile", "d.txt", "--maxIt", "5"}; for(size_t i = 0; i < 8; ++i) a.push_back(more[i]); c.desc << " decomposition " << o.str(); works(c, s, minSum, a, "decomposition-file"); const Lab l = states(c, s, "r.h5", "decomposition-file"); VF_CHECK(validLabeling(m, l), "decomposition-file/invalid", show(l));
   a[11] = "none.txt"; unlink(s("r.h5").c_str()); fails(c, s, minSum, a, "r.h5", "decomposition-file/missing", "a missing decomposition file"); spit(s("b.txt"), o.str() + "0 x\n"); a[11] = "b.txt"; fails(c, s, minSum, a, "r.h5", "decomposition-file/garbage", "a decomposition file with something that is no variable"); spit(s("b.txt"), o.str() + str(n + c.rng.below(3)) + "\n"); fails(c, s, minSum, a, "r.h5", "decomposition-file/range", "a decomposition file with a variable out of range");
}
