// Conversion to explicit functions and explicit value storage.
#include "common.hpp"
VF_WIDE(0.05)
typedef FnTypes<double, opengm::UInt64Type, opengm::UInt64Type> FD;
typedef opengm::GraphicalModel<double, opengm::Adder, FD::All> GA;
typedef opengm::GraphicalModel<double, opengm::Multiplier, FD::Two> GM2;
typedef opengm::GraphicalModel<double, opengm::Adder, FD::AllReversed> GR;
template<class G> void conv(Ctx& c, const char* tag, const std::vector<FnKind>* kinds) {
   const std::string t(tag);
   MixedModel a = randMixed(c.rng, 0, 5, 1, 3, 4, 12, SMALLINT, 0.1, false, 500, kinds); a.ref.digest(c); c.desc << a.str();
   std::unique_ptr<G> g(new G(buildMixed<G>(c.rng, a)));
   typedef opengm::ConvertToExplicit<G> X; typedef typename X::ExplicitGraphicalModelType E;
   E e; if(c.rng.chance(0.4)) { RefModel o = randModel(c.rng, 1, 4, 1, 3, 3, 0, 4, SMALLINT, 0.1, 200); e = buildExplicit<E>(o); }
   X::convert(*g, e); same(c, e, a.ref, t + "/converted"); same(c, *g, a.ref, t + "/source");
   bool manyTypes = false; for(size_t i = 1; i < a.fn.size(); ++i) manyTypes = manyTypes || a.fn[i].kind != a.fn[0].kind; if(manyTypes) c.count("conversions of several function types");
   {
      opengm::ExplicitStorage<G> st(*g);
      for(size_t f = 0; f < g->numberOfFactors(); ++f) { const double* p = st[(*g)[f]]; for(size_t i = 0; i < a.ref.f[f].tab.size(); ++i) VF_CHECK(p[i] == a.ref.f[f].tab[i], t + "/storage", "stored value " << i << " of factor " << f << " is " << p[i] << " expected " << a.ref.f[f].tab[i]); }
      if(c.rng.chance(0.3)) { std::unique_ptr<opengm::ExplicitStorage<G> > s1(new opengm::ExplicitStorage<G>(*g)), s2(new opengm::ExplicitStorage<G>(*s1)); s1.reset();
         for(size_t f = 0; f < g->numberOfFactors(); ++f) { const double* p = (*s2)[(*g)[f]]; for(size_t i = 0; i < a.ref.f[f].tab.size(); ++i) VF_CHECK(p[i] == a.ref.f[f].tab[i], t + "/storage-copy", "copied storage value " << i << " of factor " << f << " is " << p[i]); } c.count("storage copies"); }
      c.count("storages read");
   }
   g.reset(); same(c, e, a.ref, t + "/after-source-destroyed");
}
VF_SCENARIO(convert_all, 700, 20000) { conv<GA>(c, "convert_all", 0); }
VF_SCENARIO(convert_two, 400, 15000) { const std::vector<FnKind> k = {F_EXPLICIT, F_POTTS}; conv<GM2>(c, "convert_two", &k); }
VF_SCENARIO(convert_reversed, 500, 15000) { conv<GR>(c, "convert_reversed", 0); }
