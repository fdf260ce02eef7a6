// function type lists of length 1, 2, 3: each has its own dispatch code
#include "common.hpp"
using namespace vf;
typedef FnTypes<double, size_t, size_t> FD;
typedef FnTypes<double, unsigned int, unsigned char> FB;
static std::vector<FnKind> K(int n) { std::vector<FnKind> k; k.push_back(F_EXPLICIT); if(n > 1) k.push_back(F_POTTS); if(n > 2) k.push_back(F_POTTSN); return k; }
// only the kinds in the list are compiled in
template<class GM> struct Adder1 { static typename GM::FunctionIdentifier add(GM& gm, const FnSpec& s) {
   typedef opengm::ExplicitFunction<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType> E; typedef opengm::PottsFunction<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType> P;
   E f = s.shape.empty() ? E(s.tab[0]) : E(s.shape.begin(), s.shape.end()); if(!s.shape.empty()) for(size_t k = 0; k < s.tab.size(); ++k) f(k) = s.tab[k]; return gm.addFunction(f); } };
template<class GM, int N> struct AddN { static typename GM::FunctionIdentifier add(GM& gm, const FnSpec& s) { return Adder1<GM>::add(gm, s); } };
template<class GM> struct AddN<GM, 2> { static typename GM::FunctionIdentifier add(GM& gm, const FnSpec& s) {
   if(s.kind == F_POTTS) return gm.addFunction(opengm::PottsFunction<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType>(s.shape[0], s.shape[1], s.par[0], s.par[1])); return Adder1<GM>::add(gm, s); } };
template<class GM> struct AddN<GM, 3> { static typename GM::FunctionIdentifier add(GM& gm, const FnSpec& s) {
   if(s.kind == F_POTTSN) return gm.addFunction(opengm::PottsNFunction<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType>(s.shape.begin(), s.shape.end(), s.par[0], s.par[1])); return AddN<GM, 2>::add(gm, s); } };
template<class GM, int N> void run(Ctx& c, EvalOp op, const char* tag) {
   std::vector<FnKind> k = K(N);
   MixedModel m = randMixed(c.rng, 0, 7, 1, 4, 4, 10, styleFor(c.rng, op), 0.12, false, 1500, &k);
   note(c, m);
   GM gm = emptyGm<GM>(m.ref);
   std::vector<typename GM::FunctionIdentifier> id;
   for(size_t i = 0; i < m.fn.size(); ++i) id.push_back(AddN<GM, N>::add(gm, m.fn[i]));
   for(size_t i = 0; i < m.ref.f.size(); ++i) gm.addFactor(id[m.fnOfFactor[i]], m.ref.f[i].vars.begin(), m.ref.f[i].vars.end());
   checkFactors(c, gm, m.ref, tag);
   checkEvaluate(c, gm, m.ref, op, tag);
}
VF_SCENARIO(sum1, 300, 10000) { run<opengm::GraphicalModel<double, opengm::Adder>, 1>(c, E_SUM, "sum1"); }
VF_SCENARIO(min2, 150, 6000) { run<opengm::GraphicalModel<double, opengm::Minimizer, FD::Two>, 2>(c, E_MIN, "min2"); }
VF_SCENARIO(sum3bytes, 300, 10000) { run<opengm::GraphicalModel<double, opengm::Adder, FB::Three, opengm::DiscreteSpace<unsigned int, unsigned char> >, 3>(c, E_SUM, "sum3bytes"); }
VF_SCENARIO(int3, 150, 6000) {
   typedef FnTypes<int, unsigned short, unsigned char> FI;
   typedef opengm::GraphicalModel<int, opengm::Adder, FI::Three, opengm::DiscreteSpace<unsigned short, unsigned char> > GM;
   std::vector<FnKind> k = K(3);
   MixedModel m = randMixed(c.rng, 0, 6, 1, 4, 3, 8, SMALLINT, 0.12, false, 1000, &k);
   note(c, m);
   GM gm = emptyGm<GM>(m.ref); std::vector<GM::FunctionIdentifier> id;
   for(size_t i = 0; i < m.fn.size(); ++i) id.push_back(AddN<GM, 3>::add(gm, m.fn[i]));
   for(size_t i = 0; i < m.ref.f.size(); ++i) gm.addFactor(id[m.fnOfFactor[i]], m.ref.f[i].vars.begin(), m.ref.f[i].vars.end());
   checkFactors(c, gm, m.ref, "int3"); checkEvaluate(c, gm, m.ref, E_SUM, "int3");
}
