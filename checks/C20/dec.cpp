#include "decomp.hpp"
// decompositions into subproblems: coverage, consistency of indices, promised shape, completion, even sharing
typedef sv::Gm<double, opengm::Adder>::Mixed M; typedef opengm::GraphicalModelDecomposer<M> D;
VF_SCENARIO(decompose, 3000, 200000) {
   Rng& r = c.rng; MixedModel k = prop::asMixed(r, draw(r)); const RefModel& m = k.ref; m.digest(c); M gm = buildMixed<M>(r, k);
   Choice h = choose(r, m); const size_t n = m.labels.size(); c.desc << k.str() << " " << h.str(); c.digest(h.kind); c.digest(h.k);
   G d = apply(h, gm); bool covered = true;
   if(h.kind == OPEN) for(size_t f = 0; f < m.f.size(); ++f) { bool in = false; for(size_t i = 0; i < h.sets.size(); ++i) { bool all = true; for(size_t j = 0; j < m.f[f].vars.size(); ++j) all = all && h.sets[i].count(m.f[f].vars[j]); in = in || all; } covered = covered && in; }
   if(h.kind == MANUAL) { std::set<size_t> v; for(size_t f = 0; f < m.f.size(); ++f) v.insert(m.f[f].vars.begin(), m.f[f].vars.end()); covered = v.size() == n; }
   std::ostringstream t; t << "kind" << h.kind; const std::string tag = t.str(); c.count(tag);
   std::vector<Sub> s = read(c, d, m, tag, covered); VF_EXPECT(valid(d, gm) == covered, tag + "/isValid", covered);
   if(h.kind == TREE) { VF_CHECK(s.size() == 1 && forest(s[0]), tag + "/tree", ""); single(c, s[0], tag, false); }
   if(h.kind == SPAN) for(size_t i = 0; i < s.size(); ++i) { VF_CHECK(forest(s[i]), tag + "/tree", i); single(c, s[i], tag); std::set<size_t> v(s[i].var.begin(), s[i].var.end()); VF_CHECK(v.size() == n, tag + "/spanning", i);
      UF u(n); std::set<size_t> in; for(size_t f = 0; f < s[i].f.size(); ++f) { in.insert(s[i].f[f].factor); const std::vector<size_t>& x = m.f[s[i].f[f].factor].vars; for(size_t j = 1; j < x.size(); ++j) u.join(x[0], x[j]); }
      for(size_t f = 0; f < m.f.size(); ++f) if(!in.count(f)) { std::set<size_t> roots; for(size_t j = 0; j < m.f[f].vars.size(); ++j) roots.insert(u.find(m.f[f].vars[j])); VF_CHECK(roots.size() < m.f[f].vars.size(), tag + "/maximal", "factor " << f << " would fit into tree " << i); } }
   if(h.kind == FANK) { VF_CHECK(s.size() == std::max<size_t>(1, (n + h.k - 1) / h.k), tag + "/count", s.size()); for(size_t i = 0; i < s.size(); ++i) single(c, s[i], tag); }
   if(h.kind == FANS) { VF_CHECK(s.size() == h.sets.size(), tag + "/count", s.size()); for(size_t i = 0; i < s.size(); ++i) { single(c, s[i], tag); for(size_t f = 0; f < s[i].f.size(); ++f) { const std::vector<size_t>& x = m.f[s[i].f[f].factor].vars; VF_CHECK(x.size() < 2 || h.sets[i].count(x[0]) || h.sets[i].count(x[1]), tag + "/fan", show(x)); }
      std::set<size_t> in; for(size_t f = 0; f < s[i].f.size(); ++f) in.insert(s[i].f[f].factor); for(size_t f = 0; f < m.f.size(); ++f) { bool touch = false; for(size_t j = 0; j < m.f[f].vars.size(); ++j) touch = touch || h.sets[i].count(m.f[f].vars[j]); if(touch) VF_CHECK(in.count(f), tag + "/fan-complete", f); } } }
   if(h.kind == OPEN || h.kind == CLOSED) { VF_CHECK(s.size() == h.sets.size(), tag + "/count", s.size()); for(size_t i = 0; i < s.size(); ++i) { single(c, s[i], tag); std::set<size_t> want(h.sets[i]), in; for(size_t f = 0; f < s[i].f.size(); ++f) in.insert(s[i].f[f].factor);
      for(size_t f = 0; f < m.f.size(); ++f) { bool all = true, any = m.f[f].vars.empty(); for(size_t j = 0; j < m.f[f].vars.size(); ++j) { const bool x = h.sets[i].count(m.f[f].vars[j]) > 0; all = all && x; any = any || x; } VF_CHECK((in.count(f) > 0) == (h.kind == OPEN ? all : any), tag + "/block-factors", "factor " << f << " block " << i); if(h.kind == CLOSED && any) want.insert(m.f[f].vars.begin(), m.f[f].vars.end()); }
      VF_CHECK(std::set<size_t>(s[i].var.begin(), s[i].var.end()) == want, tag + "/block-variables", i); } }
   if(h.kind == CLOSEDN) { VF_CHECK(s.size() == h.k, tag + "/count", s.size()); for(size_t i = 0; i < s.size(); ++i) single(c, s[i], tag); }
   if(h.kind == MANUAL) { VF_CHECK(s.size() == h.facs.size(), tag + "/count", s.size()); for(size_t i = 0; i < s.size(); ++i) { single(c, s[i], tag); std::set<size_t> want(h.facs[i].begin(), h.facs[i].end()), in; for(size_t f = 0; f < s[i].f.size(); ++f) in.insert(s[i].f[f].factor); VF_CHECK(want == in, tag + "/factors", i); } }
   if(covered) sumsUp(c, s, m, tag);
   // reordering a decomposition keeps its meaning, completing it adds unaries only
   if(r.chance(0.5)) { d.reorder(); std::vector<Sub> q = read(c, d, m, tag + "/reordered", covered); for(size_t i = 0; i < q.size(); ++i) { for(size_t j = 1; j < q[i].var.size(); ++j) VF_CHECK(q[i].var[j - 1] <= q[i].var[j], tag + "/reordered/order", show(q[i].var)); VF_CHECK(q[i].f.size() == s[i].f.size(), tag + "/reordered/factors", i); } VF_EXPECT(valid(d, gm) == covered, tag + "/reordered/isValid", covered); s = q; }
   d.complete(); std::vector<Sub> q = read(c, d, m, tag + "/complete", covered); VF_EXPECT(valid(d, gm) == covered, tag + "/complete/isValid", covered); if(covered) sumsUp(c, q, m, tag + "/complete");
   for(size_t i = 0; i < q.size(); ++i) { VF_CHECK(q[i].var == s[i].var, tag + "/complete/variables", i); std::map<std::pair<size_t, std::vector<size_t> >, int> left; for(size_t f = 0; f < s[i].f.size(); ++f) ++left[std::make_pair(s[i].f[f].factor, s[i].f[f].idx)];
      for(size_t f = 0; f < q[i].f.size(); ++f) { std::pair<size_t, std::vector<size_t> > key(q[i].f[f].factor, q[i].f[f].idx); if(!q[i].f[f].empty && left[key] > 0) { --left[key]; continue; } VF_CHECK(q[i].f[f].idx.size() == 1, tag + "/complete/added", show(q[i].f[f].idx)); c.count("completions"); }
      for(std::map<std::pair<size_t, std::vector<size_t> >, int>::iterator it = left.begin(); it != left.end(); ++it) VF_CHECK(it->second == 0, tag + "/complete/lost", it->first.first); }
   for(size_t v = 0; v < n; ++v) { size_t copies = d.getVariableLists()[v].size(); if(copies < 2) continue; 
      // one unary, real or empty, is shared by all copies of the variable
      std::map<size_t, std::set<std::pair<size_t, size_t> > > at; for(size_t i = 0; i < q.size(); ++i) for(size_t f = 0; f < q[i].f.size(); ++f) if(q[i].f[f].idx.size() == 1 && q[i].var[q[i].f[f].idx[0]] == v) at[q[i].f[f].factor].insert(std::make_pair(i, q[i].f[f].idx[0]));
      bool any = false; for(std::map<size_t, std::set<std::pair<size_t, size_t> > >::iterator it = at.begin(); it != at.end(); ++it) any = any || it->second.size() == copies; VF_CHECK(any, tag + "/complete/shared-unary", "variable " << v << " with " << copies << " copies"); }
   // completing twice adds nothing
   size_t before = 0, after = 0; for(size_t i = 0; i < q.size(); ++i) before += d.numberOfSubFactors(i); d.complete(); for(size_t i = 0; i < q.size(); ++i) after += d.numberOfSubFactors(i); VF_CHECK(before == after, tag + "/complete/idempotent", before << " " << after);
}
// decompositions put together by hand, sound ones and damaged ones
VF_SCENARIO(validity, 1500, 60000) {
   Rng& r = c.rng; RefModel m = draw(r, 1024); m.digest(c); M gm = buildExplicit<M>(m); const size_t n = m.labels.size(), nf = m.f.size(); c.desc << m.str();
   const size_t subs = 1 + r.below(3); const bool lazily = r.chance(0.5); G d(n, nf, lazily ? 0 : subs); if(lazily) for(size_t i = 0; i < subs; ++i) VF_CHECK(d.addSubModel() == i, "manual/submodel-index", i);
   const int damage = r.chance(0.4) ? -1 : (int)r.below(4); const size_t victimV = n ? r.below(n) : 0, victimF = nf ? r.below(nf) : 0; c.desc << " damage " << damage << " at " << victimV << " " << victimF; c.digest(damage + 1);
   std::vector<std::map<size_t, size_t> > at(subs); std::vector<size_t> order(n); for(size_t v = 0; v < n; ++v) order[v] = v; const bool sorted = r.chance(0.5); if(!sorted) r.shuffle(order);
   std::vector<size_t> count(subs, 0); bool broken = false;
   for(size_t i = 0; i < n; ++i) { if(damage == 0 && order[i] == victimV) { broken = true; continue; } const size_t must = r.below(subs); for(size_t s = 0; s < subs; ++s) if(s == must || r.chance(0.7)) { at[s][order[i]] = d.addSubVariable(s, order[i]); VF_CHECK(at[s][order[i]] == count[s]++, "manual/subvariable-index", ""); } }
   std::vector<size_t> nsf(subs, 0);
   for(size_t f = 0; f < nf; ++f) { if(damage == 1 && f == victimF) { broken = true; continue; } const std::vector<size_t>& x = m.f[f].vars; bool any = false;
      for(size_t s = 0; s < subs; ++s) { bool all = true; for(size_t j = 0; j < x.size(); ++j) all = all && at[s].count(x[j]); if(!all || (any && r.chance(0.3))) continue; std::vector<size_t> idx; for(size_t j = 0; j < x.size(); ++j) idx.push_back(at[s][x[j]]);
         if(damage == 2 && f == victimF && !idx.empty() && !any && count[s] > 1) { idx[0] = (idx[0] + 1) % count[s]; broken = true; if(!sorted) {} } if(damage == 3 && f == victimF && !idx.empty() && !any) { idx.pop_back(); broken = true; }
         VF_CHECK(d.addSubFactor(s, f, idx) == nsf[s]++, "manual/subfactor-index", ""); any = true; }
      if(!any) broken = true; }
   VF_EXPECT(valid(d, gm) == !broken, broken ? "manual/damage-accepted" : "manual/sound-refused", ""); c.count(broken ? "damaged" : "sound");
   if(!broken) { d.reorder(); std::vector<Sub> s = read(c, d, m, "manual/reordered", true); VF_EXPECT(valid(d, gm), "manual/reordered-valid", ""); d.complete(); read(c, d, m, "manual/complete", true); VF_EXPECT(valid(d, gm), "manual/complete-valid", ""); G e(d), g; g = d; VF_EXPECT(valid(e, gm) && valid(g, gm), "manual/copy", ""); }
}
// the submodels that dual decomposition builds from a decomposition
typedef opengm::DDDualVariableBlock<marray::Marray<double> > Block; typedef opengm::DualDecompositionBase<M, Block>::SubGmType SubGm; typedef opengm::Bruteforce<SubGm, opengm::Minimizer> SubInf; typedef opengm::DualDecompositionSubGradient<M, SubInf, Block> DD;
typedef opengm::DDDualVariableBlock2<marray::View<double, false> > BlockV; typedef opengm::DualDecompositionBase<M, BlockV>::SubGmType SubGmV; typedef opengm::Bruteforce<SubGmV, opengm::Minimizer> SubInfV; typedef opengm::DualDecompositionSubGradient<M, SubInfV, BlockV> DDV;
template<class X> void shared(Ctx& c) {
   Rng& r = c.rng; RefModel m = draw(r, 1024); while(m.labels.empty()) m = draw(r, 1024); m.digest(c); M gm = buildExplicit<M>(m); const size_t n = m.labels.size(); Choice h = choose(r, m); if(h.kind == OPEN || h.kind == MANUAL) { h.kind = SPAN; } c.desc << m.str() << " " << h.str(); c.digest(h.kind);
   typename X::Parameter p; p.decompositionId_ = h.kind == TREE ? X::Parameter::TREE : h.kind == SPAN ? X::Parameter::SPANNINGTREES : h.kind == CLOSEDN ? X::Parameter::BLOCKS : h.kind == CLOSED ? X::Parameter::MANUALVARCLOSE : X::Parameter::KFANS; if(h.kind == FANS) h.kind = FANK; p.k_ = h.k; p.numberOfBlocks_ = h.k; p.subVariables_ = h.sets;
   X dd(gm, p); G d = apply(h, gm); d.reorder(); d.complete(); std::vector<Sub> s = read(c, d, m, "shared", true);
   for(size_t k = 0; k < 10; ++k) { std::vector<size_t> l(n); for(size_t v = 0; v < n; ++v) l[v] = r.below(m.labels[v]); double sum = 0;
      for(size_t i = 0; i < s.size(); ++i) { const typename X::SubGmType& g = dd.subModel(i); VF_CHECK(g.numberOfVariables() == s[i].var.size(), "shared/variables", g.numberOfVariables()); std::vector<size_t> sl(s[i].var.size()); for(size_t j = 0; j < sl.size(); ++j) { sl[j] = l[s[i].var[j]]; VF_CHECK(g.numberOfLabels(j) == m.labels[s[i].var[j]], "shared/labels", j); } sum += g.evaluate(sl.begin()); }
      VF_CHECK(close(sum, m.eval(l, SUM), 1e-9, 1e-9), "shared/sum", sum << " of " << m.eval(l, SUM)); c.count("submodel sums"); }
}
VF_SCENARIO(shared_own, 800, 30000) { shared<DD>(c); }
VF_SCENARIO(shared_view, 800, 30000) { shared<DDV>(c); }

