// Random construction histories of a model; after every step the library's
// factor graph is compared with a plain list of scopes.
#include <gm.hpp>
#include <list>
using namespace vf;
namespace {
typedef std::vector<std::vector<size_t> > Scopes;
template<class GM> void compare(Ctx& c, const GM& gm, const std::vector<size_t>& labels, const Scopes& sc, const std::string& t, bool adjacency = true) {
   const size_t nv = labels.size(), nf = sc.size();
   VF_CHECK(gm.numberOfVariables() == nv && gm.numberOfFactors() == nf, t + "/counts", "variables " << gm.numberOfVariables() << " factors " << gm.numberOfFactors() << " expected " << nv << "," << nf);
   for(size_t f = 0; f < nf; ++f) {
      VF_CHECK(gm.numberOfVariables(f) == sc[f].size(), t + "/degree", "order of factor " << f << " is " << gm.numberOfVariables(f));
      for(size_t k = 0; k < sc[f].size(); ++k) VF_CHECK(gm.variableOfFactor(f, k) == sc[f][k], t + "/variableOfFactor", "factor " << f << " variable " << k);
      std::vector<size_t> it(gm.variablesOfFactorBegin(f), gm.variablesOfFactorEnd(f));
      VF_CHECK(it == sc[f], t + "/variablesOfFactor", "iterated variables of factor " << f << ": " << show(it));
   }
   if(!adjacency) return;
   std::vector<std::vector<size_t> > fov(nv);
   for(size_t f = 0; f < nf; ++f) for(size_t k = 0; k < sc[f].size(); ++k) fov[sc[f][k]].push_back(f);
   for(size_t v = 0; v < nv; ++v) {
      VF_CHECK(gm.numberOfFactors(v) == fov[v].size(), t + "/vdegree", "variable " << v << " lists " << gm.numberOfFactors(v) << " factors, expected " << fov[v].size());
      for(size_t k = 0; k < fov[v].size(); ++k) VF_CHECK(gm.factorOfVariable(v, k) == fov[v][k], t + "/factorOfVariable", "variable " << v << " factor " << k << " is " << gm.factorOfVariable(v, k) << " expected " << fov[v][k]);
      std::vector<size_t> it(gm.factorsOfVariableBegin(v), gm.factorsOfVariableEnd(v));
      VF_CHECK(it == fov[v], t + "/factorsOfVariable", "iterated factors of variable " << v << ": " << show(it));
   }
   c.count("histories compared");
}
template<class GM> void queries(Ctx& c, const GM& gm, const std::vector<size_t>& labels, const Scopes& sc, const std::string& t) {
   const size_t nv = labels.size(), nf = sc.size();
   std::vector<std::set<size_t> > va(nv), fa(nf);
   for(size_t f = 0; f < nf; ++f) {
      for(size_t a = 0; a < sc[f].size(); ++a) for(size_t b = 0; b < sc[f].size(); ++b) if(a != b) va[sc[f][a]].insert(sc[f][b]);
      for(size_t g = 0; g < nf; ++g) if(f != g) { bool com = false; for(size_t a = 0; a < sc[f].size(); ++a) com = com || std::binary_search(sc[g].begin(), sc[g].end(), sc[f][a]); if(com) fa[f].insert(g); }
   }
   for(size_t v = 0; v < nv; ++v) for(size_t f = 0; f < nf; ++f) {
      const bool e = std::binary_search(sc[f].begin(), sc[f].end(), v);
      VF_CHECK(gm.variableFactorConnection(v, f) == e && gm.factorVariableConnection(f, v) == e, t + "/vfConnection", "variable " << v << " factor " << f << " expected " << e);
   }
   for(size_t v = 0; v < nv; ++v) for(size_t w = 0; w < nv; ++w) VF_CHECK(gm.variableVariableConnection(v, w) == (va[v].count(w) > 0), t + "/vvConnection", "variables " << v << "," << w);
   for(size_t f = 0; f < nf; ++f) for(size_t g = 0; g < nf; ++g) VF_CHECK(gm.factorFactorConnection(f, g) == (fa[f].count(g) > 0), t + "/ffConnection", "factors " << f << "," << g);
   typedef typename GM::IndexType I;
   std::vector<std::set<I> > s1, s2; std::vector<opengm::RandomAccessSet<I> > r1, r2;
   if(c.rng.chance(0.5)) { s1.resize(3); s1[0].insert(5); r1.resize(2); r1[1].insert(9); s2 = s1; r2 = r1; }
   gm.variableAdjacencyList(s1); gm.variableAdjacencyList(r1);
   VF_CHECK(s1.size() == nv && r1.size() == nv, t + "/valistsize", "adjacency list length");
   for(size_t v = 0; v < nv; ++v) { std::set<size_t> a(s1[v].begin(), s1[v].end()), b(r1[v].begin(), r1[v].end()); VF_CHECK(a == va[v] && b == va[v], t + "/valist", "adjacency list of variable " << v); }
   gm.factorAdjacencyList(s2); gm.factorAdjacencyList(r2);
   VF_CHECK(s2.size() == nf && r2.size() == nf, t + "/falistsize", "factor adjacency list length");
   for(size_t f = 0; f < nf; ++f) { std::set<size_t> a(s2[f].begin(), s2[f].end()), b(r2[f].begin(), r2[f].end()); VF_CHECK(a == fa[f] && b == fa[f], t + "/falist", "adjacency list of factor " << f << " has " << a.size() << " entries, expected " << fa[f].size()); }
   if(nv > 0) {
      marray::Matrix<bool> m; gm.variableAdjacencyMatrix(m);
      VF_CHECK(m.shape(0) == nv && m.shape(1) == nv, t + "/matrixsize", "adjacency matrix size");
      for(size_t v = 0; v < nv; ++v) for(size_t w = 0; w < nv; ++w) VF_CHECK(m(v, w) == (va[v].count(w) > 0), t + "/matrix", "matrix entry " << v << "," << w);
   }
   for(size_t v = 0; v < nv; ++v) for(size_t n = 0; n < 8; ++n) {
      std::vector<size_t> e; for(size_t f = 0; f < nf; ++f) if(sc[f].size() == n && std::binary_search(sc[f].begin(), sc[f].end(), v)) e.push_back(f);
      VF_CHECK(gm.numberOfNthOrderFactorsOfVariable(v, n) == e.size(), t + "/nthOrder", "variable " << v << " order " << n);
      if(!e.empty()) { marray::Vector<size_t> ids; VF_CHECK(gm.numberOfNthOrderFactorsOfVariable(v, n, ids) == e.size() && ids.size() == e.size(), t + "/nthOrderIds", "ids count"); std::vector<size_t> g(ids.begin(), ids.end()); std::sort(g.begin(), g.end()); VF_CHECK(g == e, t + "/nthOrderIdList", "ids " << show(g)); }
      if(n == 2) for(size_t k = 0; k < e.size(); ++k) VF_CHECK(gm.secondVariableOfSecondOrderFactor(v, e[k]) == (sc[e[k]][0] == v ? sc[e[k]][1] : sc[e[k]][0]), t + "/second", "second variable of factor " << e[k]);
   }
   size_t mo = 0; for(size_t f = 0; f < nf; ++f) mo = std::max(mo, sc[f].size());
   VF_CHECK(gm.maxFactorOrder() == mo && gm.factorOrder() == mo, t + "/maxOrder", "maxFactorOrder " << gm.maxFactorOrder() << " factorOrder " << gm.factorOrder() << " expected " << mo);
   for(size_t n = 0; n < 10; ++n) VF_CHECK(gm.maxFactorOrder(n) == (mo <= n), t + "/maxOrderPred", "maxFactorOrder(" << n << ")");
   c.count("query sweeps");
}
template<class GM> void history(Ctx& c, const char* tag, bool withInvalid) {
   typedef typename GM::SpaceType Space; typedef typename GM::LabelType L; typedef typename GM::IndexType I;
   typedef opengm::ExplicitFunction<typename GM::ValueType, I, L> F;
   const std::string t(tag);
   std::vector<size_t> labels = randLabels(c.rng, c.rng.below(6), 1, 3); Scopes sc;
   GM gm(Space(labels.begin(), labels.end()), c.rng.below(3) * c.rng.below(5));
   const size_t steps = 4 + c.rng.below(c.thorough ? 40 : 22); bool pending = false; std::ostringstream tr; tr << "v" << show(labels) << " ";
   for(size_t s = 0; s < steps; ++s) {
      const size_t op = c.rng.below(20); c.digest(op);
      if(op < 2 && !pending) { size_t k = 1 + c.rng.below(3); I v = gm.addVariable(k); VF_CHECK(v == labels.size(), t + "/addVariable", "index of the new variable is " << v); labels.push_back(k); tr << "+v "; }
      else if(op < 14 || (op < 17 && pending)) {
         std::vector<size_t> v = randScope(c.rng, labels.size(), c.rng.chance(0.05) ? 0 : 1 + c.rng.below(c.rng.chance(0.15) ? 8 : 4));
         if(!sc.empty() && c.rng.chance(0.15)) v = sc[c.rng.below(sc.size())];
         std::vector<size_t> sh; for(size_t i = 0; i < v.size(); ++i) sh.push_back(labels[v[i]]);
         typename GM::FunctionIdentifier id = gm.addFunction(sh.empty() ? F(1.0) : F(sh.begin(), sh.end(), 1.0));
         I fi;
         const bool defer = c.rng.chance(pending ? 0.8 : 0.15);
         if(defer) { std::list<unsigned> l(v.begin(), v.end()); fi = gm.addFactorNonFinalized(id, l.begin(), l.end()); pending = true; }
         else if(c.rng.chance(0.5)) fi = gm.addFactor(id, v.begin(), v.end());
         else { const size_t* p = v.empty() ? 0 : &v[0]; fi = gm.addFactor(id, p, p + v.size()); }
         VF_CHECK(fi == sc.size(), t + "/factorIndex", "new factor has index " << fi << " expected " << sc.size());
         sc.push_back(v); tr << (defer ? "d" : "f") << show(v) << " "; c.digestV(v);
      }
      else if(op == 14 && pending) { }
      else if(op < 17) { gm.finalize(); pending = false; tr << "fin "; }
      else if(op == 17) { GM g2(gm); compare(c, g2, labels, sc, t + "/copied", !pending); if(c.rng.chance(0.3)) gm = g2; tr << "copy "; }
      else if(withInvalid && labels.size() >= 1) {
         // a factor that must be refused: unsorted, repeated or out of range
         std::vector<size_t> v = randScope(c.rng, labels.size(), 1 + c.rng.below(3)); const size_t kind = c.rng.below(3);
         if(kind == 0 && v.size() >= 2) { size_t a = c.rng.below(v.size() - 1); std::swap(v[a], v[a+1]); }
         else if(kind == 1) v.insert(v.begin() + c.rng.below(v.size()), v[c.rng.below(v.size())]), std::sort(v.begin(), v.end());
         else v[v.size()-1] = labels.size() + c.rng.below(3);
         std::vector<size_t> sh(v.size(), 1);
         typename GM::FunctionIdentifier id = gm.addFunction(F(sh.begin(), sh.end(), 1.0));
         tr << "bad" << show(v) << " ";
         const bool defer = c.rng.chance(0.3);
         bool threw = false;
         try { if(defer) gm.addFactorNonFinalized(id, v.begin(), v.end()); else gm.addFactor(id, v.begin(), v.end()); } catch(const std::exception&) { threw = true; }
         c.desc.str(tr.str());
         VF_CHECK(threw, t + "/refuse", "factor over " << show(v) << " was accepted (model has " << labels.size() << " variables)");
         compare(c, gm, labels, sc, t + "/afterRefusal", !pending); c.count("refusals");
      }
      c.desc.str(""); c.desc << tr.str().substr(0, 500);
      if(c.rng.chance(0.3)) compare(c, gm, labels, sc, t, !pending);
   }
   if(pending) gm.finalize();
   compare(c, gm, labels, sc, t);
   queries(c, gm, labels, sc, t);
}
}
typedef opengm::meta::TypeListGenerator<opengm::ExplicitFunction<double> >::type TE;
typedef opengm::GraphicalModel<double, opengm::Adder, TE> GM1;
typedef opengm::GraphicalModel<double, opengm::Multiplier, opengm::meta::TypeListGenerator<opengm::ExplicitFunction<double, unsigned int, unsigned char> >::type, opengm::DiscreteSpace<unsigned int, unsigned char> > GM2;
VF_SCENARIO(history, 1500, 60000) { history<GM1>(c, "history", false); }
VF_SCENARIO(history_small, 700, 30000) { history<GM2>(c, "history_small", false); }
VF_SCENARIO(refusals, 1000, 40000) { history<GM1>(c, "refusals", true); }
// large degrees and insertion out of order through finalize
VF_SCENARIO(large, 12, 300) {
   std::vector<size_t> labels(60 + c.rng.below(100), 2); Scopes sc; GM1 gm(opengm::DiscreteSpace<>(labels.begin(), labels.end()));
   opengm::ExplicitFunction<double> fs[4]; GM1::FunctionIdentifier id[5];
   for(size_t k = 1; k < 5; ++k) { std::vector<size_t> sh(k, 2); id[k] = gm.addFunction(opengm::ExplicitFunction<double>(sh.begin(), sh.end(), 1.0)); }
   const bool defer = c.rng.chance(0.5); c.digest(labels.size());
   for(size_t i = 0; i < 400; ++i) { std::vector<size_t> v = randScope(c.rng, labels.size(), 1 + c.rng.below(4)); if(i % 3 == 0) v[0] = 0; std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); sc.push_back(v); c.digestV(v);
      if(defer) gm.addFactorNonFinalized(id[v.size()], v.begin(), v.end()); else gm.addFactor(id[v.size()], v.begin(), v.end()); }
   if(defer) gm.finalize();
   c.desc << labels.size() << " variables, 400 factors, deferred=" << defer;
   compare(c, gm, labels, sc, "large");
   if(c.rng.chance(c.thorough ? 0.3 : 0.25)) queries(c, gm, labels, sc, "large");
}
