#include "../../harness/solvers.hpp"
#include <opengm/inference/partition-move.hxx>
using namespace vf; using namespace sv;
namespace {
template<class T, class I, class L> struct PM { typedef typename opengm::meta::TypeListGenerator<opengm::ExplicitFunction<T, I, L>, opengm::PottsFunction<T, I, L>, opengm::PottsNFunction<T, I, L> >::type FL; typedef opengm::GraphicalModel<T, opengm::Adder, FL, opengm::DiscreteSpace<I, L> > GM; };
template<class GM> GM build(Rng& r, const RefModel& m) {
   typedef typename GM::ValueType T; typedef typename GM::IndexType I; typedef typename GM::LabelType L; std::vector<L> s(m.labels.begin(), m.labels.end()); typename GM::SpaceType space(s.begin(), s.end()); GM gm(space);
   for(size_t k = 0; k < m.f.size(); ++k) { std::vector<I> v(m.f[k].vars.begin(), m.f[k].vars.end()); std::vector<L> sh; for(size_t i = 0; i < v.size(); ++i) sh.push_back((L)m.labels[v[i]]);
      if(v.size() == 2 && r.chance(0.4)) { opengm::PottsFunction<T, I, L> f(sh[0], sh[1], (T)m.f[k].tab[0], (T)m.f[k].tab[1]); gm.addFactor(gm.addFunction(f), v.begin(), v.end()); }
      else if(v.size() == 2 && r.chance(0.3)) { opengm::PottsNFunction<T, I, L> f(sh.begin(), sh.end(), (T)m.f[k].tab[0], (T)m.f[k].tab[1]); gm.addFactor(gm.addFunction(f), v.begin(), v.end()); }
      else { opengm::ExplicitFunction<T, I, L> f(sh.begin(), sh.end()); std::vector<size_t> t(v.size(), 0), sz(sh.begin(), sh.end()); size_t at = 0; do { if(v.empty()) { L l0 = 0; f(&l0) = (T)m.f[k].tab[0]; } else f(t.begin()) = (T)m.f[k].tab[at]; ++at; } while(nextTuple(t, sz)); gm.addFactor(gm.addFunction(f), v.begin(), v.end()); }
   }
   return gm;
}
void pottsTab(RefModel& m, size_t k, double same, double diff) { const std::vector<size_t>& v = m.f[k].vars; const size_t a = m.labels[v[0]], b = m.labels[v[1]]; m.f[k].tab.assign(a * b, diff); for(size_t i = 0; i < std::min(a, b); ++i) m.f[k].tab[i + i * a] = same; }
double weight(Rng& r, int style) { return style == 0 ? r.range(-16, 16) / 4.0 : style == 1 ? (r.unit() - 0.5) * 7 : style == 2 ? r.range(-1, 1) : r.range(-3, 3) * 1.0; }
template<class T, class I, class L> void run(Ctx& c) {
   typedef typename PM<T, I, L>::GM GM; typedef opengm::PartitionMove<GM, opengm::Minimizer> S; Rng& r = c.rng; RefModel m; const size_t n = r.chance(0.03) ? r.below(2) : 2 + r.below(r.chance(0.2) ? 8 : 5); const int style = (int)r.below(4);
   const bool more = r.chance(0.3); for(size_t i = 0; i < n; ++i) m.labels.push_back(n + (more ? r.below(3) : 0));
   const double density = r.unit(); const bool parallel = r.chance(0.35);
   for(size_t i = 0; i < n; ++i) for(size_t j = i + 1; j < n; ++j) if(r.chance(density)) for(size_t k = parallel ? 1 + r.below(3) : 1; k > 0; --k) { m.f.resize(m.f.size() + 1); m.f.back().vars.push_back(i); m.f.back().vars.push_back(j); const double same = r.chance(0.3) ? weight(r, style) : 0; pottsTab(m, m.f.size() - 1, same, same + weight(r, style)); }
   if(r.chance(0.2)) { m.f.resize(m.f.size() + 1); m.f.back().tab.push_back(weight(r, style)); }
   r.shuffle(m.f);
   c.desc << m.str(); m.digest(c); const GM gm = build<GM>(r, m);
   S s(gm); const Answer before = answer(s); VF_CHECK(before.ok && validLabeling(m, before.arg), "move/start-labels", show(before.arg)); VF_CHECK(close(before.value, m.eval(before.arg, SUM), 1e-9, 1e-9), "move/start-value", before.value << " labeling has " << m.eval(before.arg, SUM));
   double last = before.value; const size_t stop = r.chance(0.25) ? 1 + r.below(3) : size_t(-1); Rec v(stop);
   VF_CHECK(s.infer(v) == opengm::NORMAL, "move/status", "infer"); const Answer a = answer(s);
   VF_CHECK(v.begins == 1 && v.ends == 1 && !v.afterStop && v.steps <= stop, "move/visitor", v.begins << " begins " << v.ends << " ends " << v.steps << " steps"); VF_CHECK(v.steps >= (n > 0 ? 1u : 0u), "move/visitor", "no step");
   for(size_t k = 0; k < v.args.size(); ++k) { VF_CHECK(validLabeling(m, v.args[k]), "move/labels", "step " << k << " " << show(v.args[k])); const double x = m.eval(v.args[k], SUM); VF_CHECK(close(x, v.values[k], 1e-9, 1e-9), "move/value", "step " << k << " reports " << v.values[k] << " labeling has " << x); VF_CHECK(x <= last + 1e-7, "move/worse", "step " << k << " went from " << last << " to " << x); last = x; c.count("steps"); }
   VF_CHECK(a.ok && validLabeling(m, a.arg), "move/labels", show(a.arg)); VF_CHECK(close(a.value, m.eval(a.arg, SUM), 1e-9, 1e-9), "move/value", "reported " << a.value << " labeling has " << m.eval(a.arg, SUM)); VF_CHECK(v.args.empty() || v.args.back() == a.arg, "move/final", "differs from what the visitor saw");
   VF_EXPECT(a.value <= before.value + 1e-7, "move/worse", "from " << before.value << " to " << a.value); if(a.value < before.value - 1e-7) c.count("improved");
   double opt = 0, mx; { // optimum over all partitions of the variables
      std::vector<size_t> l(n, 0); opt = 1e300; if(n == 0) opt = m.eval(l, SUM);
      std::function<void(size_t, size_t)> go = [&](size_t i, size_t used) { if(i == n) { opt = std::min(opt, m.eval(l, SUM)); return; } for(size_t k = 0; k <= used && k < n; ++k) { l[i] = k; go(i + 1, std::max(used, k + 1)); } }; if(n > 0 && n <= 7) go(0, 0); else if(n > 0) opt = -1e300; }
   if(opt > -1e299) { VF_EXPECT(a.value >= opt - 1e-7, "move/below-optimum", a.value << " optimum " << opt); if(a.value < opt + 1e-7) c.count("optimal"); } (void)mx;
   VF_EXPECT(s.bound() <= a.value, "move/bound", s.bound());
   if(!v.stopped) { // converged: no single node improves by joining another part or by leaving
      for(size_t i = 0; i < n; ++i) { std::vector<size_t> l = a.arg; std::set<size_t> parts(a.arg.begin(), a.arg.end()); size_t fresh = 0; while(parts.count(fresh)) ++fresh; if(fresh < n) parts.insert(fresh); for(std::set<size_t>::iterator p = parts.begin(); p != parts.end(); ++p) { l[i] = *p; const double x = m.eval(l, SUM); VF_CHECK(x >= a.value - 1e-6, "move/not-local-optimum", "moving node " << i << " to part " << *p << " improves " << a.value << " to " << x); c.count("moves"); } }
      Rec w; s.infer(w); const Answer b = answer(s); VF_CHECK(b.ok && close(b.value, m.eval(b.arg, SUM), 1e-9, 1e-9) && b.value <= a.value + 1e-7, "move/again", showA(a) << " then " << showA(b));
   } else { s.infer(); const Answer b = answer(s); VF_CHECK(b.ok && close(b.value, m.eval(b.arg, SUM), 1e-9, 1e-9) && b.value <= a.value + 1e-7, "move/resumed", showA(a) << " then " << showA(b)); c.count("stopped early"); }
   S t(gm); t.infer(); const Answer d = answer(t); if(!v.stopped) VF_EXPECT(sameAnswer(a, d), "move/repeat", showA(a) << " then " << showA(d));
   VF_EXPECT(sameModel(gm, m), "move/model-changed", "");
}
template<class OP, class ACC> void refuses(Ctx& c, int what) {
   typedef opengm::GraphicalModel<double, OP, opengm::ExplicitFunction<double> > GM; Rng& r = c.rng; const size_t n = 3 + r.below(3); RefModel m; for(size_t i = 0; i < n; ++i) m.labels.push_back(what == 3 && i == n / 2 ? n - 1 : n);
   for(size_t i = 0; i + 1 < n; ++i) { m.f.resize(m.f.size() + 1); m.f.back().vars.push_back(i); m.f.back().vars.push_back(i + 1); pottsTab(m, m.f.size() - 1, 0, weight(r, 0)); }
   std::vector<size_t> vars;
   if(what == 0) { vars.push_back(r.below(n)); addRandFactor(r, m, vars, SMALLINT); }
   if(what == 1) { const size_t k = r.below(n - 1), at = r.below(n * n); m.f[k].tab[at] += 1; }
   if(what == 2) { vars.push_back(0); vars.push_back(1); vars.push_back(2); addRandFactor(r, m, vars, SMALLINT); }
   r.shuffle(m.f); c.desc << "kind " << what << " " << m.str(); m.digest(c); GM gm = buildExplicit<GM>(m);
   typedef opengm::PartitionMove<GM, ACC> S; VF_MUST_THROW({ S s(gm); }, "move/accepts", "model kind " << what); c.count("refused");
}
}
VF_SCENARIO(MoveDouble, 900, 30000) { run<double, size_t, size_t>(c); }
VF_SCENARIO(MoveFloatInt, 500, 15000) { run<double, int, unsigned char>(c); }
VF_SCENARIO(MoveU16, 500, 15000) { run<double, unsigned short, unsigned>(c); }
VF_SCENARIO(MoveRefuses, 60, 600) { switch(c.rng.below(5)) { case 0: refuses<opengm::Adder, opengm::Minimizer>(c, 0); break; case 1: refuses<opengm::Adder, opengm::Minimizer>(c, 1); break; case 2: refuses<opengm::Adder, opengm::Minimizer>(c, 2); break; case 3: refuses<opengm::Adder, opengm::Maximizer>(c, 4); break; default: refuses<opengm::Multiplier, opengm::Minimizer>(c, 4); } }
