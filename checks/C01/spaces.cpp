// every label space
#include "common.hpp"
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/graphicalmodel/space/grid_space.hxx>
#include <opengm/graphicalmodel/space/vector_view_space.hxx>
#include <opengm/graphicalmodel/space/viewspace.hxx>
using namespace vf;
template<class GM> void fill(Ctx& c, GM& gm, RefModel& m, const char* tag) {
   const size_t nf = c.rng.below(8);
   for(size_t i = 0; i < nf; ++i) { addRandFactor(c.rng, m, randScope(c.rng, m.labels.size(), c.rng.below(4)), sumStyle(c.rng)); addExplicit(gm, m, i); }
   c.desc << tag << " " << m.brief(); m.digest(c);
   checkFactors(c, gm, m, tag); checkEvaluate(c, gm, m, E_SUM, tag, 300);
   bool simple = true; for(size_t i = 1; i < m.labels.size(); ++i) simple = simple && m.labels[i] == m.labels[0];
   if(!m.labels.empty()) VF_EXPECT(gm.space().isSimpleSpace() == simple, std::string(tag) + "/simple", "isSimpleSpace is wrong for " << show(m.labels));
}
typedef opengm::meta::TypeListGenerator<opengm::ExplicitFunction<double> >::type TE;
VF_SCENARIO(space_discrete, 200, 6000) {
   typedef opengm::GraphicalModel<double, opengm::Adder, TE, opengm::DiscreteSpace<> > GM;
   RefModel m; m.labels = randLabels(c.rng, c.rng.below(6), 1, c.rng.chance(0.5) ? 2 : 4);
   GM gm; const int how = c.rng.below(4); c.digest(how);
   if(how == 0) gm = GM(opengm::DiscreteSpace<>(m.labels.begin(), m.labels.end()));
   else if(how == 1) for(size_t i = 0; i < m.labels.size(); ++i) VF_CHECK(gm.addVariable(m.labels[i]) == i, "discrete/addVariable", "index of new variable");
   else if(how == 2) { opengm::DiscreteSpace<> s; std::vector<int> junk(3, 9); s.assign(junk.begin(), junk.end()); s.assign(m.labels.begin(), m.labels.end()); gm.assign(s); }
   else { size_t h = m.labels.size() / 2; gm = GM(opengm::DiscreteSpace<>(m.labels.begin(), m.labels.begin() + h), c.rng.below(4)); for(size_t i = h; i < m.labels.size(); ++i) gm.addVariable(m.labels[i]); }
   fill(c, gm, m, "discrete");
}
VF_SCENARIO(space_simple, 200, 6000) {
   typedef opengm::GraphicalModel<double, opengm::Adder, TE, opengm::SimpleDiscreteSpace<> > GM;
   RefModel m; m.labels.assign(c.rng.below(6), 1 + c.rng.below(4));
   GM gm; const int how = c.rng.below(4); c.digest(how);
   opengm::SimpleDiscreteSpace<> s(m.labels.size(), m.labels.empty() ? 1 : m.labels[0]);
   if(how == 1) { s.assign(7, 7); s.assign(m.labels.size(), m.labels.empty() ? 1 : m.labels[0]); }
   if(how == 2 && !m.labels.empty()) { s.assign(7, 7); s.assignDense(m.labels.begin(), m.labels.end()); }
   gm = GM(s);
   if(how == 3 && !m.labels.empty()) { gm.addVariable(m.labels[0]); m.labels.push_back(m.labels[0]); VF_MUST_THROW(gm.addVariable(m.labels[0] + 1), "simple/addOther", "adding a variable of other label count"); }
   fill(c, gm, m, "simple");
}
VF_SCENARIO(space_grid, 150, 4000) {
   typedef opengm::GraphicalModel<double, opengm::Adder, TE, opengm::GridSpace<> > GM;
   size_t x = 1 + c.rng.below(3), y = 1 + c.rng.below(3), k = 1 + c.rng.below(3);
   RefModel m; m.labels.assign(x * y, k);
   opengm::GridSpace<> s(x, y, k);
   VF_EXPECT(s.dimX() == x && s.dimY() == y && s.numberOfLabels() == k && s.isSimpleSpace(), "grid/dims", "grid space dimensions");
   if(c.rng.chance(0.3)) { s.assign(9, 9, 9); s.assign(x, y, k); }
   GM gm(s); fill(c, gm, m, "grid");
}
VF_SCENARIO(space_views, 150, 4000) {
   RefModel m; m.labels = randLabels(c.rng, 1 + c.rng.below(5), 1, c.rng.chance(0.5) ? 2 : 4);
   typedef opengm::GraphicalModel<double, opengm::Adder, TE, opengm::VectorViewSpace<> > GV;
   typedef opengm::GraphicalModel<double, opengm::Adder, TE, opengm::DiscreteSpace<> > GM;
   if(c.rng.chance(0.5)) { std::vector<size_t> v(m.labels); opengm::VectorViewSpace<> s(v); GV gm(s); VF_MUST_THROW(gm.addVariable(2), "vectorview/add", "a view space must refuse new variables"); fill(c, gm, m, "vectorview"); }
   else { typedef opengm::GraphicalModel<double, opengm::Adder, TE, opengm::ViewSpace<GM> > GW; GM src(opengm::DiscreteSpace<>(m.labels.begin(), m.labels.end())); GW gm((opengm::ViewSpace<GM>(src)));
      VF_MUST_THROW(gm.addVariable(2), "viewspace/add", "a view space must refuse new variables"); fill(c, gm, m, "viewspace"); }
}
