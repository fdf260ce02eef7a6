#include "solvers.hpp"
#include <opengm/inference/sat.hxx>
#include <opengm/operations/and.hxx>
#include <opengm/operations/or.hxx>
// 2-satisfiability against enumeration
using namespace vf;
namespace {
RefModel formula(Rng& r, size_t maxV) {
   RefModel m; const size_t n = r.below(maxV + 1); m.labels.assign(n, 2); if(n < 2) return m; const size_t style = r.below(5); size_t cl = r.below(3 * n + 2); 
   for(size_t i = 0; i < cl; ++i) { RefFactor f; f.vars = style == 3 && i + 1 < n ? std::vector<size_t>() : randScope(r, n, 2); if(f.vars.empty()) { f.vars.push_back(i); f.vars.push_back(i + 1); } f.tab.assign(4, 1);
      if(style == 0) f.tab[r.below(4)] = 0; else if(style == 1) { f.tab[r.below(4)] = 0; f.tab[r.below(4)] = 0; } else if(style == 2) { const bool eq = r.chance(0.5); f.tab[0] = f.tab[3] = eq; f.tab[1] = f.tab[2] = !eq; } else if(style == 3) { f.tab[1 + r.below(2)] = 0; if(r.chance(0.1)) f.tab[r.below(4)] = 0; } else for(size_t j = 0; j < 4; ++j) f.tab[j] = r.chance(0.75);
      m.f.push_back(f); }
   r.shuffle(m.f); return m;
}
bool satisfiable(const RefModel& m) { std::vector<size_t> x(m.labels.size(), 0); do { bool ok = true; for(size_t f = 0; f < m.f.size() && ok; ++f) ok = m.f[f].tab[x[m.f[f].vars[0]] + 2 * x[m.f[f].vars[1]]] != 0; if(ok) return true; } while(nextTuple(x, m.labels)); return false; }
template<class GM> void sat(Ctx& c) {
   Rng& r = c.rng; RefModel m = formula(r, r.chance(0.2) ? 12 : 7); m.digest(c); c.desc << m.str(); GM gm = buildExplicit<GM>(m); typedef opengm::SAT<GM> Inf; Inf s(gm); const bool want = satisfiable(m); c.count(want ? "satisfiable" : "unsatisfiable");
   if(m.labels.size()) VF_EXPECT(!s.value(), "before", ""); VF_EXPECT(&s.graphicalModel() == &gm && s.name() == "2Sat", "identity", "");
   for(size_t t = 0; t < 2; ++t) { if(r.chance(0.3)) { sv::Rec rec(size_t(-1), false); s.infer(rec); VF_CHECK(rec.begins == 1 && rec.ends == 1 && (rec.values.back() != 0) == want, "visitor", ""); } else if(r.chance(0.3)) { typename Inf::TimingVisitorType v; s.infer(v); } else VF_CHECK(s.infer() == opengm::NORMAL, "infer", ""); VF_CHECK((bool)s.value() == want, t ? "again" : "answer", "reported " << s.value() << " expected " << want); if(r.chance(0.5)) s.reset(); }
}
}
typedef opengm::GraphicalModel<bool, opengm::And, opengm::meta::TypeListGenerator<opengm::ExplicitFunction<bool> >::type, opengm::DiscreteSpace<> > MB; typedef sv::Gm<size_t, opengm::And>::Plain MD; typedef sv::Gm<int, opengm::And, unsigned int, unsigned char>::Plain MI;
VF_SCENARIO(sat_bool, 3000, 150000) { sat<MB>(c); }
VF_SCENARIO(sat_size, 2000, 100000) { sat<MD>(c); }
VF_SCENARIO(sat_int, 2000, 100000) { sat<MI>(c); }
VF_SCENARIO(refuse, 300, 5000) {
   Rng& r = c.rng; RefModel m = formula(r, 6); while(m.labels.size() < 3) m.labels.push_back(2); const size_t kind = r.below(5); c.digest(kind); 
   if(kind == 0) { m.labels.push_back(r.chance(0.5) ? 3 : 1); } if(kind == 1) addRandFactor(r, m, randScope(r, m.labels.size(), 3), SMALLINT); if(kind == 2) addRandFactor(r, m, randScope(r, m.labels.size(), 1), SMALLINT); if(kind == 3) addRandFactor(r, m, std::vector<size_t>(), SMALLINT); for(size_t f = 0; f < m.f.size(); ++f) for(size_t i = 0; i < m.f[f].tab.size(); ++i) m.f[f].tab[i] = std::fabs(m.f[f].tab[i]); m.digest(c); c.desc << m.str();
   if(kind == 4) { typedef sv::Gm<double, opengm::Adder>::Plain A; A gm = buildExplicit<A>(m); VF_MUST_THROW(opengm::SAT<A> s(gm); s.infer(), "refuse/operator", ""); }
   else { MD gm = buildExplicit<MD>(m); VF_MUST_THROW(opengm::SAT<MD> s(gm); s.infer(), "refuse", kind); }
}
