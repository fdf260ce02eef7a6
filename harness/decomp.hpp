#pragma once
#include "propagation.hpp"
#include <opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx>
#include <opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx>
// helpers to choose, apply and read decompositions
using namespace vf;
typedef opengm::GraphicalModelDecomposition G;
namespace {
struct UF { std::vector<size_t> p; UF(size_t n) : p(n) { for(size_t i = 0; i < n; ++i) p[i] = i; } size_t find(size_t x) { while(p[x] != x) x = p[x] = p[p[x]]; return x; } bool join(size_t a, size_t b) { a = find(a); b = find(b); if(a == b) return false; p[a] = b; return true; } };
struct Sub { std::vector<size_t> var; struct F { size_t factor; std::vector<size_t> idx; bool empty; std::vector<size_t> key; }; std::vector<F> f; };  // sub variable -> variable
// reads the lists of a decomposition and checks their consistency
std::vector<Sub> read(Ctx& c, const G& d, const RefModel& m, const std::string& tag, bool cover) {
   std::vector<Sub> s(d.numberOfSubModels()); const size_t none = size_t(-1);
   for(size_t i = 0; i < s.size(); ++i) s[i].var.assign(d.numberOfSubVariables(i), none);
   VF_CHECK(d.getVariableLists().size() == m.labels.size() && d.getFactorLists().size() == m.f.size(), tag + "/sizes", d.getVariableLists().size() << " " << d.getFactorLists().size());
   for(size_t v = 0; v < m.labels.size(); ++v) { 
      VF_CHECK(!cover || !d.getVariableLists()[v].empty(), tag + "/variable-covered", v);
      for(G::SubVariableListType::const_iterator it = d.getVariableLists()[v].begin(); it != d.getVariableLists()[v].end(); ++it) {
         VF_CHECK(it->subModelId_ < s.size() && it->subVariableId_ < s[it->subModelId_].var.size(), tag + "/subvariable-range", it->subModelId_ << " " << it->subVariableId_);
         VF_CHECK(s[it->subModelId_].var[it->subVariableId_] == none, tag + "/subvariable-unique", it->subModelId_ << " " << it->subVariableId_); s[it->subModelId_].var[it->subVariableId_] = v; }
   }
   for(size_t i = 0; i < s.size(); ++i) for(size_t j = 0; j < s[i].var.size(); ++j) VF_CHECK(s[i].var[j] != none, tag + "/subvariable-dangling", i << " " << j);
   std::vector<std::set<size_t> > ids(s.size());
   struct L { static void fac(Ctx& c, const G::SubFactor& x, const std::vector<size_t>& vars, std::vector<Sub>& s, std::vector<std::set<size_t> >& ids, const G& d, const std::string& tag, Sub::F f) {
      VF_CHECK(x.subModelId_ < s.size(), tag + "/subfactor-range", x.subModelId_); VF_CHECK(x.subFactorId_ < d.numberOfSubFactors(x.subModelId_) && ids[x.subModelId_].insert(x.subFactorId_).second, tag + "/subfactor-index", x.subFactorId_ << " of " << d.numberOfSubFactors(x.subModelId_));
      VF_CHECK(x.subIndices_.size() == vars.size(), tag + "/subfactor-arity", x.subIndices_.size());
      for(size_t j = 0; j < vars.size(); ++j) VF_CHECK(x.subIndices_[j] < s[x.subModelId_].var.size() && s[x.subModelId_].var[x.subIndices_[j]] == vars[j] && (j == 0 || x.subIndices_[j - 1] < x.subIndices_[j]), tag + "/subfactor-variables", show(x.subIndices_) << " for " << show(vars));
      f.idx = x.subIndices_; s[x.subModelId_].f.push_back(f); c.count("subfactors checked"); } };
   for(size_t f = 0; f < m.f.size(); ++f) { VF_CHECK(!cover || !d.getFactorLists()[f].empty(), tag + "/factor-covered", f);
      for(G::SubFactorListType::const_iterator it = d.getFactorLists()[f].begin(); it != d.getFactorLists()[f].end(); ++it) { Sub::F x; x.factor = f; x.empty = false; L::fac(c, *it, m.f[f].vars, s, ids, d, tag, x); } }
   for(std::map<std::vector<size_t>, G::EmptySubFactorListType>::const_iterator e = d.getEmptyFactorLists().begin(); e != d.getEmptyFactorLists().end(); ++e)
      for(G::EmptySubFactorListType::const_iterator it = e->second.begin(); it != e->second.end(); ++it) { Sub::F x; x.factor = none; x.empty = true; x.key = e->first; L::fac(c, *it, e->first, s, ids, d, tag, x); }
   for(size_t i = 0; i < s.size(); ++i) VF_CHECK(ids[i].size() == d.numberOfSubFactors(i), tag + "/subfactor-count", i);
   return s;
}
bool forest(const Sub& s) { UF u(s.var.size()); for(size_t f = 0; f < s.f.size(); ++f) for(size_t j = 1; j < s.f[f].idx.size(); ++j) if(!u.join(s.f[f].idx[0], s.f[f].idx[j])) return false; return true; }
template<class M> bool valid(const G& d, const M& gm) { try { return d.isValid(gm); } catch(std::exception&) { return false; } }
// one copy of a factor at most, one copy of each variable at most
void single(Ctx& c, const Sub& s, const std::string& tag, bool vars = true) { std::set<size_t> a; for(size_t j = 0; vars && j < s.var.size(); ++j) VF_CHECK(a.insert(s.var[j]).second, tag + "/variable-twice", s.var[j]); std::set<size_t> b; for(size_t f = 0; f < s.f.size(); ++f) if(!s.f[f].empty) VF_CHECK(b.insert(s.f[f].factor).second, tag + "/factor-twice", s.f[f].factor); }
void sumsUp(Ctx& c, const std::vector<Sub>& s, const RefModel& m, const std::string& tag) {
   std::vector<size_t> n(m.f.size(), 0); for(size_t i = 0; i < s.size(); ++i) for(size_t f = 0; f < s[i].f.size(); ++f) if(!s[i].f[f].empty) ++n[s[i].f[f].factor];
   std::vector<size_t> l(m.labels.size(), 0); for(size_t k = 0; k < 20; ++k) { for(size_t v = 0; v < l.size(); ++v) l[v] = c.rng.below(m.labels[v]);
      double sum = 0; for(size_t i = 0; i < s.size(); ++i) for(size_t f = 0; f < s[i].f.size(); ++f) if(!s[i].f[f].empty) { const RefFactor& x = m.f[s[i].f[f].factor]; size_t p = 0, mul = 1; for(size_t j = 0; j < x.vars.size(); ++j) { p += mul * l[s[i].var[s[i].f[f].idx[j]]]; mul *= m.labels[x.vars[j]]; } sum += x.tab[p] / n[s[i].f[f].factor]; }
      VF_CHECK(close(sum, m.eval(l, SUM), 1e-9, 1e-9), tag + "/sum", sum << " of " << m.eval(l, SUM)); }
}
struct Choice { size_t kind; size_t k; std::vector<std::set<size_t> > sets; std::vector<std::vector<size_t> > facs; std::string str() const { std::ostringstream o; o << "kind " << kind << " k " << k; for(size_t i = 0; i < sets.size(); ++i) o << " " << show(std::vector<size_t>(sets[i].begin(), sets[i].end())); for(size_t i = 0; i < facs.size(); ++i) o << " " << show(facs[i]); return o.str(); } };
enum { TREE, SPAN, FANK, FANS, OPEN, CLOSED, CLOSEDN, MANUAL, KINDS };
Choice choose(Rng& r, const RefModel& m) {
   Choice h; h.kind = r.below(KINDS); h.k = 1 + r.below(m.labels.size() + 2); const size_t n = m.labels.size(); bool pair = true; for(size_t f = 0; f < m.f.size(); ++f) pair = pair && m.f[f].vars.size() <= 2;
   if(!pair && (h.kind == FANK || h.kind == FANS)) h.kind = CLOSED;
   if(h.kind == MANUAL) { h.facs.resize(1 + r.below(4)); for(size_t f = 0; f < m.f.size(); ++f) { bool in = false; for(size_t i = 0; i < h.facs.size(); ++i) if(r.chance(0.4)) { h.facs[i].push_back(f); in = true; } if(!in) h.facs[r.below(h.facs.size())].push_back(f); } for(size_t i = 0; i < h.facs.size(); ++i) r.shuffle(h.facs[i]); }
   if(h.kind == FANS || h.kind == OPEN || h.kind == CLOSED) {
      h.sets.resize(1 + r.below(4)); for(size_t v = 0; v < n; ++v) { h.sets[r.below(h.sets.size())].insert(v); if(r.chance(0.3)) h.sets[r.below(h.sets.size())].insert(v); }
      if(h.kind == OPEN) for(size_t f = 0; f < m.f.size(); ++f) if(r.chance(0.97)) { bool in = false; for(size_t i = 0; i < h.sets.size(); ++i) { bool all = true; for(size_t j = 0; j < m.f[f].vars.size(); ++j) all = all && h.sets[i].count(m.f[f].vars[j]); in = in || all; } if(!in) { if(r.chance(0.5)) h.sets[r.below(h.sets.size())].insert(m.f[f].vars.begin(), m.f[f].vars.end()); else h.sets.push_back(std::set<size_t>(m.f[f].vars.begin(), m.f[f].vars.end())); } }
   }
   return h;
}
template<class M> G apply(const Choice& h, const M& gm) { opengm::GraphicalModelDecomposer<M> d; switch(h.kind) { case TREE: return d.decomposeIntoTree(gm); case SPAN: return d.decomposeIntoSpanningTrees(gm); case FANK: return d.decomposeIntoKFans(gm, h.k); case FANS: return d.decomposeIntoKFans(gm, h.sets); case OPEN: return d.decomposeIntoOpenBlocks(gm, h.sets); case CLOSED: return d.decomposeIntoClosedBlocks(gm, h.sets); case CLOSEDN: return d.decomposeIntoClosedBlocks(gm, h.k); default: return d.decomposeManual(gm, h.facs); } }
RefModel draw(Rng& r, size_t cfgs = 4096) { if(cfgs == 4096 && r.chance(0.04)) return r.chance(0.5) ? randPairwise(r, 14, 30, 1, 3, 0.25 * r.unit(), 0.8, DYADIC, ~size_t(0)) : gridModel(r, 4 + r.below(3), 4 + r.below(3), 2, 2, DYADIC, r.unit()); return r.chance(0.5) ? randPairwise(r, 1, 9, 1, 3, r.unit(), 0.8, DYADIC, cfgs) : r.chance(0.15) ? gridModel(r, 1 + r.below(3), 1 + r.below(3), 2, 2, DYADIC, r.unit()) : randModel(r, 0, 8, 1, 3, 4, 0, 12, DYADIC, 0.1, cfgs); }
}
