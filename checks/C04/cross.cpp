// Assignment between models whose function type lists differ.
#include "copies.hpp"
typedef FnTypes<double, opengm::UInt64Type, opengm::UInt64Type> FD;
typedef opengm::GraphicalModel<double, opengm::Adder, FD::All> GA;
typedef opengm::GraphicalModel<double, opengm::Adder, FD::AllReversed> GR;
typedef opengm::GraphicalModel<double, opengm::Adder, FD::Three> G3;
typedef opengm::GraphicalModel<double, opengm::Adder, FD::Two> G2;
typedef opengm::GraphicalModel<double, opengm::Adder, opengm::meta::TypeListGenerator<FD::Potts, FD::Explicit, FD::AbsDiff, FD::PottsN>::type> G4;
static const std::vector<FnKind> k3 = {F_EXPLICIT, F_POTTS, F_POTTSN}, k2 = {F_EXPLICIT, F_POTTS}, k4 = {F_EXPLICIT, F_POTTS, F_ABS, F_POTTSN};
VF_SCENARIO(cross_subset, 300, 10000) { cross<G2, G3>(c, "two-to-three", &k2, &k3); }
VF_SCENARIO(cross_all, 300, 10000) { cross<G3, GA>(c, "three-to-all", &k3, 0); }
VF_SCENARIO(cross_reversed, 400, 10000) { cross<GA, GR>(c, "all-to-reversed", 0, 0); }
VF_SCENARIO(cross_four, 300, 10000) { cross<G3, G4>(c, "three-to-four", &k3, &k4); }
// a model using a function type the target cannot hold is refused, and the target keeps its content
VF_SCENARIO(cross_refused, 200, 5000) {
   const std::string t("cross_refused"); std::vector<GA::FunctionIdentifier> id; std::vector<G3::FunctionIdentifier> id2;
   MixedModel a = randMixed(c.rng, 2, 4, 1, 3, 4, 8, SMALLINT, 0.1, false, 300), b = randMixed(c.rng, 0, 4, 1, 3, 4, 8, SMALLINT, 0.15, false, 300, &k3);
   bool fits = true; for(size_t i = 0; i < a.fn.size(); ++i) fits = fits && std::find(k3.begin(), k3.end(), a.fn[i].kind) != k3.end();
   a.ref.digest(c); b.ref.digest(c); c.desc << a.str() << " | target held " << b.str();
   std::unique_ptr<GA> A = make<GA>(c.rng, a, id); std::unique_ptr<G3> D = make<G3>(c.rng, b, id2);
   if(fits) { *D = *A; same(c, *D, a.ref, t + "/assigned"); }
   else { VF_MUST_THROW(*D = *A, t + "/accepted", "a function type missing from the target list was accepted"); same(c, *D, b.ref, t + "/target-after-refusal"); c.count("refused assignments"); }
   grow(c, *D, fits ? a.ref : b.ref, SMALLINT); same(c, *D, fits ? a.ref : b.ref, t + "/grown");
}
