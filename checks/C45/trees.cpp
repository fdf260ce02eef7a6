#include "../../harness/solvers.hpp"
#include <opengm/utilities/modelTrees.hxx>
#include <opengm/utilities/modelTrees.hxx> // must be includable twice
using namespace vf; using namespace sv;
namespace {
template<class GM> void trees(Ctx& c) {
   typedef typename GM::IndexType I; Rng& r = c.rng; RefModel m; const size_t n = r.below(12); for(size_t i = 0; i < n; ++i) m.labels.push_back(1 + r.below(3));
   const int style = (int)r.below(3); for(size_t i = 1; i < n; ++i) if(r.chance(0.75)) { std::vector<size_t> v; v.push_back(r.below(i)); v.push_back(i); addRandFactor(r, m, v, SMALLINT); if(r.chance(0.1)) addRandFactor(r, m, v, SMALLINT); }
   if(style) for(size_t k = 0; k < (size_t)style * 2 && n >= 3; ++k) addRandFactor(r, m, randScope(r, n, 2 + r.below(2)), SMALLINT);
   for(size_t i = 0; i < n; ++i) if(r.chance(0.3)) addRandFactor(r, m, std::vector<size_t>(1, i), SMALLINT); if(r.chance(0.1)) addRandFactor(r, m, std::vector<size_t>(), SMALLINT); r.shuffle(m.f);
   const RefModel q = permuted(r, m); c.desc << n << " variables"; for(size_t k = 0; k < q.f.size(); ++k) c.desc << ' ' << vf::show(q.f[k].vars); q.digest(c); const GM gm = buildExplicit<GM>(q);
   std::vector<std::set<size_t> > nb(n); for(size_t k = 0; k < q.f.size(); ++k) for(size_t a = 0; a < q.f[k].vars.size(); ++a) for(size_t b = 0; b < q.f[k].vars.size(); ++b) if(a != b) nb[q.f[k].vars[a]].insert(q.f[k].vars[b]);
   std::vector<std::set<size_t> > core = nb; std::vector<bool> inCore(n, true); for(bool again = true; again;) { again = false; for(size_t i = 0; i < n; ++i) if(inCore[i] && core[i].size() <= 1) { inCore[i] = false; again = true; if(!core[i].empty()) core[*core[i].begin()].erase(i); core[i].clear(); } }
   std::vector<std::set<size_t> > forest(n); size_t treeEdges = 0; for(size_t i = 0; i < n; ++i) for(std::set<size_t>::iterator j = nb[i].begin(); j != nb[i].end(); ++j) if(!core[i].count(*j)) { forest[i].insert(*j); ++treeEdges; }
   std::vector<size_t> comp(n, n); size_t comps = 0; for(size_t i = 0; i < n; ++i) if(comp[i] == n && !forest[i].empty()) { std::vector<size_t> st(1, i); comp[i] = comps; while(!st.empty()) { const size_t x = st.back(); st.pop_back(); for(std::set<size_t>::iterator j = forest[x].begin(); j != forest[x].end(); ++j) if(comp[*j] == n) { comp[*j] = comps; st.push_back(*j); } } ++comps; }
   opengm::modelTrees<GM> t(gm); VF_CHECK(t.numberOfTrees() == comps, "trees/count", (size_t)t.numberOfTrees() << " should be " << comps); std::vector<I> roots; if(r.chance(0.5)) roots.resize(3); t.roots(roots); VF_CHECK(roots.size() == comps, "trees/roots", roots.size());
   std::vector<size_t> rootOf(comps, n); for(size_t k = 0; k < comps; ++k) { const size_t x = (size_t)roots[k]; VF_CHECK(x < n && comp[x] < n && rootOf[comp[x]] == n, "trees/roots", "root " << x << " is the second root of its tree or no tree node"); rootOf[comp[x]] = x; VF_CHECK((size_t)t.parentOfVariable((I)x) == x, "trees/root-parent", "root " << x); }
   size_t used = 0;
   for(size_t i = 0; i < n; ++i) { const size_t p = (size_t)t.parentOfVariable((I)i), k = (size_t)t.treeOfVariable((I)i), id = (size_t)t.treeOfRoot((I)i);
      if(comp[i] == n) { VF_CHECK(p == n && k == n && id == n, "trees/outside", "variable " << i << " is in no tree: " << p << " " << k << " " << id); continue; }
      VF_CHECK(k == rootOf[comp[i]], "trees/root", "variable " << i << " root " << k << " should be " << rootOf[comp[i]]); VF_CHECK(id < comps && (size_t)roots[id] == k, "trees/number", "variable " << i << " tree " << id);
      if(i != k) { VF_CHECK(p < n && p != i && forest[i].count(p), "trees/parent", "variable " << i << " parent " << p << " is not joined to it by a tree edge"); ++used; }
      if(inCore[i]) VF_EXPECT(i == k, "trees/core", "variable " << i << " of the cyclic part must be the root of its tree"); c.count("tree nodes"); }
   VF_EXPECT(2 * used == treeEdges, "trees/edges", used << " edges used, " << treeEdges / 2 << " exist");
   std::vector<std::vector<I> > nodes; for(int round = 0; round < 2; ++round) { t.nodes(nodes); VF_CHECK(nodes.size() == comps, "trees/nodes", nodes.size()); for(size_t k = 0; k < comps; ++k) { std::set<size_t> have, want; for(size_t i = 0; i < nodes[k].size(); ++i) VF_CHECK(have.insert((size_t)nodes[k][i]).second, round ? "trees/nodes-reused" : "trees/nodes", "variable listed twice"); for(size_t i = 0; i < n; ++i) if(comp[i] == comp[(size_t)roots[k]]) want.insert(i); VF_CHECK(have == want, "trees/nodes", "tree " << k); } }
   if(comps == 0) c.trivial();
}
}
VF_SCENARIO(TreesPlain, 800, 20000) { trees<Gm<double, opengm::Adder, size_t, size_t>::Plain>(c); }
VF_SCENARIO(TreesInt, 500, 20000) { trees<Gm<double, opengm::Multiplier, int, int>::Plain>(c); }
