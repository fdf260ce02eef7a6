// Shape predicates against independent definitions.
#include <gm.hpp>
using namespace vf;
namespace {
typedef opengm::GraphicalModel<double, opengm::Adder, opengm::meta::TypeListGenerator<opengm::ExplicitFunction<double> >::type> GM;
typedef std::vector<std::vector<size_t> > Scopes;
GM build(const std::vector<size_t>& labels, const Scopes& sc) {
   GM gm(opengm::DiscreteSpace<>(labels.begin(), labels.end()));
   for(size_t i = 0; i < sc.size(); ++i) { std::vector<size_t> sh; for(size_t k = 0; k < sc[i].size(); ++k) sh.push_back(labels[sc[i][k]]);
      GM::FunctionIdentifier id = gm.addFunction(sh.empty() ? opengm::ExplicitFunction<double>(1.0) : opengm::ExplicitFunction<double>(sh.begin(), sh.end(), 1.0)); gm.addFactor(id, sc[i].begin(), sc[i].end()); }
   return gm;
}
struct UF { std::vector<size_t> p; UF(size_t n) : p(n) { for(size_t i = 0; i < n; ++i) p[i] = i; } size_t find(size_t x) { while(p[x] != x) x = p[x] = p[p[x]]; return x; } bool join(size_t a, size_t b) { a = find(a); b = find(b); if(a == b) return false; p[a] = b; return true; } };
bool refAcyclic(size_t nv, const Scopes& sc) { UF u(nv + sc.size()); for(size_t f = 0; f < sc.size(); ++f) for(size_t k = 0; k < sc[f].size(); ++k) if(!u.join(sc[f][k], nv + f)) return false; return true; }
size_t refComponents(size_t nv, const Scopes& sc, UF& u) { size_t n = nv; for(size_t f = 0; f < sc.size(); ++f) for(size_t k = 1; k < sc[f].size(); ++k) if(u.join(sc[f][0], sc[f][k])) --n; return n; }
bool hasConstant(const Scopes& sc) { for(size_t i = 0; i < sc.size(); ++i) if(sc[i].empty()) return true; return false; }
std::set<std::pair<size_t,size_t> > edges(const Scopes& sc, bool* parallel, size_t* order) {
   std::set<std::pair<size_t,size_t> > e; *parallel = false; *order = 0;
   for(size_t i = 0; i < sc.size(); ++i) { *order = std::max(*order, sc[i].size()); if(sc[i].size() == 2) if(!e.insert(std::make_pair(sc[i][0], sc[i][1])).second) *parallel = true; }
   return e;
}
void basics(Ctx& c, const GM& gm, const std::vector<size_t>& labels, const Scopes& sc, const std::string& t) {
   const size_t nv = labels.size(); c.digestV(labels); for(size_t i = 0; i < sc.size(); ++i) c.digestV(sc[i]);
   std::ostringstream o; o << "nv=" << nv << " "; for(size_t i = 0; i < sc.size(); ++i) o << show(sc[i]); c.desc << o.str().substr(0, 600);
   const bool ac = refAcyclic(nv, sc); 
   VF_EXPECT(gm.isAcyclic() == ac, t + "/acyclic", "isAcyclic() is " << gm.isAcyclic() << ", expected " << ac); c.count(ac ? "acyclic models" : "cyclic models");
   { UF u(nv); const size_t comp = refComponents(nv, sc, u);
     marray::Vector<size_t> rep; const bool conn = gm.isConnected(rep);
     const std::string k = hasConstant(sc) ? t + "/connected-with-constant" : t + "/connected";
     VF_EXPECT(conn == (comp == 1), k, "isConnected() is " << conn << ", components " << comp); c.count(comp == 1 ? "connected models" : "disconnected models");
     if(nv > 0) { std::set<size_t> r; for(size_t i = 0; i < rep.size(); ++i) { VF_CHECK(rep[i] < nv, k + "-rep", "representative out of range"); r.insert(u.find(rep[i])); } VF_EXPECT(rep.size() == comp && r.size() == comp, k + "-reps", "representatives " << rep.size() << " expected " << comp); } }
}
bool chainOk(const std::vector<size_t>& ids, size_t nv, const std::set<std::pair<size_t,size_t> >& e) {
   if(ids.size() != nv || std::set<size_t>(ids.begin(), ids.end()).size() != nv || e.size() + 1 != nv) return false;
   for(size_t i = 0; i < nv; ++i) if(ids[i] >= nv) return false;
   for(size_t i = 1; i < nv; ++i) if(!e.count(std::make_pair(std::min(ids[i-1], ids[i]), std::max(ids[i-1], ids[i])))) return false;
   return true;
}
bool gridOk(const marray::Matrix<size_t>& g, size_t nv, const std::set<std::pair<size_t,size_t> >& e) {
   const size_t h = g.shape(0), w = g.shape(1); if(h * w != nv) return false;
   std::set<size_t> s; for(size_t i = 0; i < h; ++i) for(size_t j = 0; j < w; ++j) { if(g(i, j) >= nv) return false; s.insert(g(i, j)); }
   if(s.size() != nv || e.size() != h * (w - 1) + w * (h - 1)) return false;
   for(size_t i = 0; i < h; ++i) for(size_t j = 0; j < w; ++j) {
      if(i + 1 < h && !e.count(std::make_pair(std::min(g(i,j), g(i+1,j)), std::max(g(i,j), g(i+1,j))))) return false;
      if(j + 1 < w && !e.count(std::make_pair(std::min(g(i,j), g(i,j+1)), std::max(g(i,j), g(i,j+1))))) return false; }
   return true;
}
enum Truth { NO, YES, UNKNOWN };
void chainGrid(Ctx& c, const GM& gm, size_t nv, const Scopes& sc, const std::string& t, Truth chain, Truth grid) {
   bool par; size_t order; std::set<std::pair<size_t,size_t> > e = edges(sc, &par, &order);
   { marray::Vector<size_t> ids; const bool r = gm.isChain(ids);
     if(r) { VF_EXPECT(order <= 2, t + "/chain-order", "isChain() true for order " << order); std::vector<size_t> v(ids.begin(), ids.end()); VF_EXPECT(chainOk(v, nv, e), t + "/chain-order-list", "isChain() true, but " << show(v) << " is not a chain of the model"); c.count("chains confirmed"); }
     else VF_EXPECT(chain != YES, t + "/chain-missed", "isChain() false for a chain");
     if(chain == NO) VF_EXPECT(!r, t + "/chain-false", "isChain() true for a model that is no chain"); }
   { marray::Matrix<size_t> g; const bool r = gm.isGrid(g);
     if(r) { std::ostringstream o; for(size_t i = 0; i < g.shape(0); ++i) { o << "["; for(size_t j = 0; j < g.shape(1); ++j) o << g(i, j) << " "; o << "]"; } VF_EXPECT(order <= 2 && gridOk(g, nv, e), t + "/grid-matrix", "isGrid() true, but " << o.str() << " is not a grid of the model"); c.count("grids confirmed"); }
     else VF_EXPECT(grid != YES, t + "/grid-missed", "isGrid() false for a grid");
     if(grid == NO) VF_EXPECT(!r, t + "/grid-false", "isGrid() true for a model that is no grid"); }
}
void addUnaries(Rng& r, Scopes& sc, size_t nv) { for(size_t i = 0; i < nv; ++i) { if(r.chance(0.6)) sc.push_back(std::vector<size_t>(1, i)); } }
std::vector<size_t> e2(size_t a, size_t b) { std::vector<size_t> v(2); v[0] = std::min(a, b); v[1] = std::max(a, b); return v; }
}
VF_SCENARIO(random_graphs, 2500, 100000) {
   const size_t nv = c.rng.below(8); std::vector<size_t> labels = randLabels(c.rng, nv, 1, 3); Scopes sc;
   const size_t nf = nv == 0 ? 0 : c.rng.below(nv + 3); const size_t mx = 1 + c.rng.below(4);
   for(size_t i = 0; i < nf; ++i) sc.push_back(randScope(c.rng, nv, 1 + c.rng.below(mx)));
   GM gm = build(labels, sc); basics(c, gm, labels, sc, "random");
   chainGrid(c, gm, nv, sc, "random", UNKNOWN, UNKNOWN);
}
VF_SCENARIO(with_constants, 400, 10000) {
   const size_t nv = 1 + c.rng.below(6); std::vector<size_t> labels = randLabels(c.rng, nv, 1, 3); Scopes sc;
   const size_t nf = 1 + c.rng.below(nv + 2);
   for(size_t i = 0; i < nf; ++i) sc.push_back(randScope(c.rng, nv, 1 + c.rng.below(3)));
   for(size_t i = 0; i < 1 + c.rng.below(2); ++i) sc.insert(sc.begin() + c.rng.below(sc.size() + 1), std::vector<size_t>());
   GM gm = build(labels, sc); basics(c, gm, labels, sc, "constants");
}
VF_SCENARIO(trees, 500, 20000) {
   Style s = TIES; RefModel m = c.rng.chance(0.5) ? randTreeModel(c.rng, 1, 12, 1, 2, s, c.rng.chance(0.5) ? 0.2 : 0, 0.5) : randHyperTreeModel(c.rng, 10, 2, 4, s); Scopes sc; for(size_t i = 0; i < m.f.size(); ++i) sc.push_back(m.f[i].vars);
   if(c.rng.chance(0.4) && m.labels.size() > 1) sc.push_back(randScope(c.rng, m.labels.size(), 2));
   GM gm = build(m.labels, sc); basics(c, gm, m.labels, sc, "tree"); chainGrid(c, gm, m.labels.size(), sc, "tree", UNKNOWN, UNKNOWN);
}
VF_SCENARIO(chains, 500, 20000) {
   const size_t nv = 1 + c.rng.below(8); std::vector<size_t> labels(nv, 2), p(nv); std::iota(p.begin(), p.end(), size_t(0)); c.rng.shuffle(p); Scopes sc;
   for(size_t i = 1; i < nv; ++i) sc.push_back(e2(p[i-1], p[i]));
   Truth tr = YES;
   const size_t mod = c.rng.below(6);
   if(mod == 1 && nv > 2) { sc.push_back(e2(p[0], p[nv-1])); tr = NO; }                       // cycle
   else if(mod == 2 && nv > 2) { sc.erase(sc.begin() + c.rng.below(sc.size())); tr = NO; }    // cut
   else if(mod == 3 && nv > 3) { sc.pop_back(); sc.push_back(e2(p[1], p[nv-1])); tr = nv == 3 ? YES : NO; } // branch
   else if(mod == 4 && nv > 2) { std::vector<size_t> v(p.begin(), p.begin() + 3); std::sort(v.begin(), v.end()); sc.push_back(v); tr = NO; } // higher order
   else if(mod == 5 && nv > 4) { sc.erase(sc.begin() + 1); sc.push_back(e2(p[2], p[nv-1])); tr = NO; } // an isolated end plus a cycle
   addUnaries(c.rng, sc, nv); c.rng.shuffle(sc);
   GM gm = build(labels, sc); basics(c, gm, labels, sc, "chain"); chainGrid(c, gm, nv, sc, "chain", tr, tr == YES ? YES : UNKNOWN);
}
VF_SCENARIO(grids, 900, 30000) {
   const size_t h = 1 + c.rng.below(c.thorough ? 6 : 5), w = 1 + c.rng.below(c.thorough ? 6 : 5), nv = h * w; std::vector<size_t> labels(nv, 2), p(nv); std::iota(p.begin(), p.end(), size_t(0)); if(c.rng.chance(0.8)) c.rng.shuffle(p); Scopes sc;
   for(size_t y = 0; y < h; ++y) for(size_t x = 0; x < w; ++x) { if(x + 1 < w) sc.push_back(e2(p[y*w+x], p[y*w+x+1])); if(y + 1 < h) sc.push_back(e2(p[y*w+x], p[y*w+w+x])); }
   Truth g = YES, ch = (h == 1 || w == 1) ? YES : NO;
   std::ostringstream t; t << "grid";
   if(c.rng.chance(0.35) && nv > 3) { // perturb: move one edge
      size_t k = c.rng.below(sc.size()); std::vector<size_t> old = sc[k], nw; size_t tries = 0;
      do nw = randScope(c.rng, nv, 2); while(std::find(sc.begin(), sc.end(), nw) != sc.end() && tries++ < 50);
      if(std::find(sc.begin(), sc.end(), nw) == sc.end()) { sc[k] = nw; g = UNKNOWN; ch = UNKNOWN; t << "-perturbed"; }
   } else if(c.rng.chance(0.1) && nv > 1) { sc.push_back(randScope(c.rng, nv, 2)); if(sc[sc.size()-1].size() == 2) { g = UNKNOWN; ch = UNKNOWN; t << "-extra"; } }
   addUnaries(c.rng, sc, nv); c.rng.shuffle(sc);
   GM gm = build(labels, sc); c.desc << h << "x" << w << " "; basics(c, gm, labels, sc, t.str()); chainGrid(c, gm, nv, sc, t.str(), ch, g);
}
// larger shapes, with and without one edge too many or too few
VF_SCENARIO(large, 120, 3000) {
   const size_t kind = c.rng.below(4); Scopes sc; size_t nv; Truth ch = UNKNOWN, gr = UNKNOWN; const size_t mod = c.rng.below(4);
   if(kind == 0) { // chain
      nv = 10 + c.rng.below(70); std::vector<size_t> p(nv); std::iota(p.begin(), p.end(), size_t(0)); if(c.rng.chance(0.8)) c.rng.shuffle(p);
      for(size_t i = 1; i < nv; ++i) sc.push_back(e2(p[i-1], p[i]));
      if(mod == 1) { sc.push_back(e2(p[0], p[nv-1])); ch = NO; } else if(mod == 2) { sc.erase(sc.begin() + c.rng.below(sc.size())); ch = NO; } else if(mod == 3) { sc.pop_back(); sc.push_back(e2(p[1 + c.rng.below(nv - 3)], p[nv-1])); ch = NO; } else ch = gr = YES;
   } else if(kind == 1) { // grid
      const size_t h = 2 + c.rng.below(9), w = 2 + c.rng.below(9); nv = h * w; std::vector<size_t> p(nv); std::iota(p.begin(), p.end(), size_t(0)); if(c.rng.chance(0.7)) c.rng.shuffle(p);
      for(size_t y = 0; y < h; ++y) for(size_t x = 0; x < w; ++x) { if(x + 1 < w) sc.push_back(e2(p[y*w+x], p[y*w+x+1])); if(y + 1 < h) sc.push_back(e2(p[y*w+x], p[y*w+w+x])); }
      ch = NO; gr = YES;
      if(mod == 1) { sc.erase(sc.begin() + c.rng.below(sc.size())); gr = NO; if(nv == 4) ch = YES; } else if(mod == 2 && h > 3) { sc.push_back(e2(p[0], p[nv-1])); gr = NO; }
   } else if(kind == 2) { // tree, possibly of higher order
      nv = 10 + c.rng.below(60); std::vector<std::pair<size_t,size_t> > e = randForest(c.rng, nv, c.rng.chance(0.5) ? 0.05 : 0); for(size_t i = 0; i < e.size(); ++i) sc.push_back(e2(e[i].first, e[i].second));
      if(mod == 1) sc.push_back(randScope(c.rng, nv, 2)); else if(mod == 2) sc.push_back(randScope(c.rng, nv, 3)); else if(mod == 3 && !sc.empty()) sc.push_back(sc[c.rng.below(sc.size())]);
   } else { nv = 10 + c.rng.below(50); const size_t nf = nv / 2 + c.rng.below(nv); for(size_t i = 0; i < nf; ++i) sc.push_back(randScope(c.rng, nv, 1 + c.rng.below(c.rng.chance(0.2) ? 7 : 3))); }
   addUnaries(c.rng, sc, nv); c.rng.shuffle(sc); std::vector<size_t> labels(nv, 1);
   GM gm = build(labels, sc); basics(c, gm, labels, sc, "large"); chainGrid(c, gm, nv, sc, "large", ch, gr);
}
