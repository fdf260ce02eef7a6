#include "copies.hpp"
typedef FnTypes<float, unsigned int, unsigned char> FS;
typedef opengm::GraphicalModel<float, opengm::Adder, FS::Two, opengm::DiscreteSpace<unsigned int, unsigned char> > GS;
typedef FnTypes<double, opengm::UInt64Type, opengm::UInt64Type> FD;
typedef opengm::GraphicalModel<double, opengm::Adder, FD::Explicit> GE;
VF_SCENARIO(copies_small, 500, 20000) { const std::vector<FnKind> k = {F_EXPLICIT, F_POTTS}; copies<GS>(c, "copies_small", &k); }
VF_SCENARIO(copies_explicit, 400, 20000) { const std::vector<FnKind> k = {F_EXPLICIT}; copies<GE>(c, "copies_explicit", &k); }
// spaces with one label count for all variables
template<class SP> void spaceCopies(Ctx& c, const SP& sp, size_t nv, size_t nl, const char* tag) {
   typedef opengm::GraphicalModel<double, opengm::Adder, FD::Explicit, SP> G; const std::string t(tag);
   RefModel m, n; m.labels.assign(nv, nl); n = m;
   const size_t k = c.rng.below(6); for(size_t i = 0; i < k; ++i) { addRandFactor(c.rng, m, randScope(c.rng, nv, c.rng.below(4)), SMALLINT); addRandFactor(c.rng, n, randScope(c.rng, nv, c.rng.below(4)), SMALLINT); }
   G a(sp), b(sp); for(size_t i = 0; i < m.f.size(); ++i) { addExplicit(a, m, i); addExplicit(b, n, i); }
   m.digest(c); c.desc << t << m.brief();
   G d(a); same(c, d, m, t + "/copy"); d = b; same(c, d, n, t + "/assigned"); same(c, b, n, t + "/source"); b = a; same(c, b, m, t + "/assigned2"); same(c, d, n, t + "/independent");
   typedef opengm::ConvertToExplicit<G> X; typename X::ExplicitGraphicalModelType e; X::convert(a, e); same(c, e, m, t + "/converted");
   opengm::ExplicitStorage<G> st(a);
   for(size_t f = 0; f < a.numberOfFactors(); ++f) { const double* p = st[a[f]]; for(size_t i = 0; i < m.f[f].tab.size(); ++i) VF_CHECK(p[i] == m.f[f].tab[i], t + "/storage", "stored value " << i << " of factor " << f << " is " << p[i]); }
}
VF_SCENARIO(spaces, 300, 10000) {
   const size_t nl = 1 + c.rng.below(3);
   if(c.rng.chance(0.5)) { const size_t nv = 1 + c.rng.below(5); spaceCopies(c, opengm::SimpleDiscreteSpace<>(nv, nl), nv, nl, "simple"); }
   else { const size_t x = 1 + c.rng.below(3), y = 1 + c.rng.below(2); spaceCopies(c, opengm::GridSpace<>(x, y, nl), x * y, nl, "grid"); }
}
