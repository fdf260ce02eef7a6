#include "common.hpp"
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/functions/truncated_squared_difference.hxx>
using namespace c41;
typedef opengm::ExplicitFunction<double,size_t,size_t> Ex; typedef opengm::PottsFunction<double,size_t,size_t> Po;
typedef opengm::PottsNFunction<double,size_t,size_t> PoN; typedef opengm::PottsGFunction<double,size_t,size_t> PoG;
typedef opengm::TruncatedSquaredDifferenceFunction<double,size_t,size_t> Tsq; typedef opengm::TruncatedAbsoluteDifferenceFunction<double,size_t,size_t> Tab;
typedef opengm::GraphicalModel<double, opengm::Adder, opengm::meta::TypeListGenerator<Ex, Po, PoN, PoG, Tsq, Tab>::type, opengm::DiscreteSpace<size_t,size_t> > GmU;
static double val(Ctx& c, bool reals) { return reals ? (c.rng.unit() - 0.5) * 40 : c.rng.range(-80, 80) * 0.25; }
// model with factors of order 0..order and several function types
static GmU uaiModel(Ctx& c, size_t order, bool reals) {
   std::vector<size_t> L; const size_t n = 1 + c.rng.below(5); for(size_t i = 0; i < n; ++i) L.push_back(1 + c.rng.below(4));
   GmU gm(opengm::DiscreteSpace<size_t,size_t>(L.begin(), L.end())); const size_t F = c.rng.below(8);
   for(size_t f = 0; f < F; ++f) { const size_t o = c.rng.below(std::min(order, n) + 1); std::vector<size_t> p; for(size_t i = 0; i < n; ++i) p.push_back(i); c.rng.shuffle(p); p.resize(o); std::sort(p.begin(), p.end());
      std::vector<size_t> sh; for(size_t i = 0; i < o; ++i) sh.push_back(L[p[i]]);
      const size_t kind = o == 2 ? c.rng.below(6) : 0; GmU::FunctionIdentifier id;
      if(kind == 1) id = gm.addFunction(Po(sh[0], sh[1], val(c, reals), val(c, reals)));
      else if(kind == 2) id = gm.addFunction(PoN(sh.begin(), sh.end(), val(c, reals), val(c, reals)));
      else if(kind == 3) { const double v[] = {val(c, reals), val(c, reals)}; id = gm.addFunction(PoG(sh.begin(), sh.end(), v)); }
      else if(kind == 4) id = gm.addFunction(Tsq(sh[0], sh[1], 4, val(c, false)));
      else if(kind == 5) id = gm.addFunction(Tab(sh[0], sh[1], 2, val(c, false)));
      else { Ex e = o ? Ex(sh.begin(), sh.end(), 0.0) : Ex(val(c, reals)); if(o) for(size_t i = 0; i < e.size(); ++i) e(i) = val(c, reals); id = gm.addFunction(e); }
      gm.addFactor(id, p.begin(), p.end()); c.count("functions of kind " + str(kind)); }
   return gm; }
static void near(Ctx& c, double a, double b, const std::string& k, const std::string& what) { VF_CHECK(close(a, b, 1e-9, 1e-9), k, what << ": " << a << " expected " << b); }

VF_SCENARIO(model_to_uai, 40, 400) {
   Scratch s; const bool reals = c.rng.chance(0.5); GmU gm = uaiModel(c, 2, reals); const RefModel m = tables(gm); c.desc << m.str(); m.digest(c);
   opengm::hdf5::save(gm, s("m.h5"), "gm"); works(c, s, opengm2uai, A("m.h5", "m.uai"), "opengm2uai");
   VF_CHECK(exists(s("m.uai")), "opengm2uai/no-result", "no result file"); const std::vector<std::string> t = tokens(slurp(s("m.uai"))); size_t p = 0;
   std::vector<std::string> want; want.push_back("MARKOV"); want.push_back(str(m.labels.size())); for(size_t i = 0; i < m.labels.size(); ++i) want.push_back(str(m.labels[i]));
   want.push_back(str(m.f.size())); for(size_t i = 0; i < m.f.size(); ++i) { want.push_back(str(m.f[i].vars.size())); for(size_t k = 0; k < m.f[i].vars.size(); ++k) want.push_back(str(m.f[i].vars[k])); }
   VF_CHECK(t.size() >= want.size() && std::vector<std::string>(t.begin(), t.begin() + want.size()) == want, "opengm2uai/preamble", show(t) << " expected " << show(want)); p = want.size();
   for(size_t f = 0; f < m.f.size(); ++f) { std::vector<size_t> sh = m.shape(f); VF_CHECK(p < t.size() && t[p] == str(m.f[f].tab.size()), "opengm2uai/table-size", "factor " << f); ++p;
      std::vector<size_t> rs(sh.rbegin(), sh.rend()), q(sh.size(), 0);   // the last variable of the scope is the fastest
      do { std::vector<size_t> l(m.labels.size(), 0); for(size_t k = 0; k < sh.size(); ++k) l[m.f[f].vars[k]] = q[sh.size() - 1 - k];
         VF_CHECK(p < t.size(), "opengm2uai/values-missing", "factor " << f); const double v = std::strtod(t[p++].c_str(), 0); VF_CHECK(close(v, std::exp(-m.at(f, l)), 1e-12, 0), "opengm2uai/value", "factor " << f << " labels" << show(l) << ": " << v << " expected exp(-" << m.at(f, l) << ")"); } while(nextTuple(q, rs)); }
   VF_CHECK(p == t.size(), "opengm2uai/extra", "extra tokens"); c.count("probability tables compared", m.f.size());
   // and back
   works(c, s, uai2opengm, A("m.uai", "b.h5"), "uai2opengm"); GmE g; loadGm(c, s, g, "b.h5", "uai2opengm"); const RefModel b = tables(g);
   VF_CHECK(b.labels == m.labels && b.f.size() == m.f.size(), "uai-round-trip/structure", b.brief() << " expected " << m.brief());
   for(size_t i = 0; i < m.f.size(); ++i) { VF_CHECK(b.f[i].vars == m.f[i].vars, "uai-round-trip/scope", b.brief() << " expected " << m.brief()); for(size_t k = 0; k < m.f[i].tab.size(); ++k) near(c, b.f[i].tab[k], m.f[i].tab[k], "uai-round-trip/value", "factor " + str(i)); }
   // damaged input of this direction: models the format does not take, and files
   if(c.rng.chance(0.3)) { GmU h = uaiModel(c, 2, false); for(size_t i = 0; i < 2; ++i) h.addVariable(2); const size_t v[] = {0, h.numberOfVariables() - 2, h.numberOfVariables() - 1}, sh[] = {h.numberOfLabels(0), 2, 2}; Ex e(sh, sh + 3, 1.0); h.addFactor(h.addFunction(e), v, v + 3);
      opengm::hdf5::save(h, s("h.h5"), "gm"); fails(c, s, opengm2uai, A("h.h5", "h.uai"), "", "opengm2uai/order-3", "a factor of order 3"); }
   if(c.rng.chance(0.3)) { const std::string raw = slurp(s("m.h5")); spit(s("cut.h5"), raw.substr(0, c.rng.below(raw.size() / 2))); fails(c, s, opengm2uai, A("cut.h5", "cut.uai"), "cut.uai", "opengm2uai/truncated", "a truncated model file"); }
   if(c.rng.chance(0.2)) { fails(c, s, opengm2uai, A("none.h5", "z.uai"), "z.uai", "opengm2uai/missing", "a missing model file"); fails(c, s, opengm2uai, A("m.h5"), "", "opengm2uai/arguments", "a missing argument"); fails(c, s, opengm2uai, A("m.h5", "no/dir.uai"), "", "opengm2uai/output", "an output file that cannot be created"); }
}
// text of a UAI model with the given scopes (in file order) and tables (last variable fastest)
struct Uai { std::vector<size_t> labels; std::vector<std::vector<size_t> > scopes; std::vector<std::vector<std::string> > tab;
   std::string text(Ctx& c) const { std::ostringstream o; const char* nl[] = {"\n", " \n", "\n\n", "\n  "}; 
      o << "MARKOV\n" << labels.size() << nl[c.rng.below(4)]; for(size_t i = 0; i < labels.size(); ++i) o << labels[i] << " "; o << nl[c.rng.below(4)] << scopes.size() << "\n";
      for(size_t f = 0; f < scopes.size(); ++f) { o << scopes[f].size(); for(size_t k = 0; k < scopes[f].size(); ++k) o << " " << scopes[f][k]; o << nl[c.rng.below(4)]; }
      for(size_t f = 0; f < scopes.size(); ++f) { o << nl[c.rng.below(4)] << tab[f].size() << nl[c.rng.below(4)]; for(size_t k = 0; k < tab[f].size(); ++k) o << tab[f][k] << (c.rng.chance(0.2) ? "\n" : " "); }
      o << "\n"; return o.str(); } };
static Uai randUai(Ctx& c) { Uai u; const size_t n = 1 + c.rng.below(5); for(size_t i = 0; i < n; ++i) u.labels.push_back(1 + c.rng.below(3)); const size_t F = c.rng.below(6);
   for(size_t f = 0; f < F; ++f) { std::vector<size_t> p; for(size_t i = 0; i < n; ++i) p.push_back(i); c.rng.shuffle(p); p.resize(c.rng.below(std::min<size_t>(4, n) + 1)); u.scopes.push_back(p); size_t z = 1; for(size_t i = 0; i < p.size(); ++i) z *= u.labels[p[i]];
      std::vector<std::string> t; for(size_t i = 0; i < z; ++i) { const size_t k = c.rng.below(10); t.push_back(k == 0 ? "0" : k == 1 ? "1" : k == 2 ? "2.5e-300" : k == 3 ? "1e20" : str(c.rng.unit())); } u.tab.push_back(t); }
   return u; }
VF_SCENARIO(uai_to_model, 50, 600) {
   Scratch s; const Uai u = randUai(c); c.desc << u.text(c); spit(s("m.uai"), u.text(c)); c.digestV(u.labels); for(size_t f = 0; f < u.scopes.size(); ++f) { c.digestV(u.scopes[f]); for(size_t k = 0; k < u.tab[f].size(); ++k) c.digestD(std::strtod(u.tab[f][k].c_str(), 0)); }
   works(c, s, uai2opengm, A("m.uai", "m.h5"), "uai2opengm"); GmE g; loadGm(c, s, g, "m.h5", "uai2opengm");
   VF_CHECK(tables(g).labels == u.labels && g.numberOfFactors() == u.scopes.size(), "uai2opengm/structure", tables(g).brief());
   for(size_t f = 0; f < u.scopes.size(); ++f) { std::vector<size_t> v = u.scopes[f]; std::sort(v.begin(), v.end()); std::vector<size_t> w; for(size_t k = 0; k < g[f].numberOfVariables(); ++k) w.push_back(g[f].variableIndex(k));
      VF_CHECK(v == w, "uai2opengm/scope", "factor " << f << " has variables " << show(w) << " expected " << show(v));
      std::vector<size_t> rs; for(size_t k = v.size(); k-- > 0;) rs.push_back(u.labels[u.scopes[f][k]]);
      std::vector<size_t> q(v.size(), 0); size_t i = 0;
      do { std::vector<size_t> l(u.labels.size(), 0); for(size_t k = 0; k < v.size(); ++k) l[u.scopes[f][k]] = q[v.size() - 1 - k]; std::vector<size_t> x(1, 0); x.clear(); for(size_t k = 0; k < v.size(); ++k) x.push_back(l[v[k]]); x.push_back(0);
         const double p = std::strtod(u.tab[f][i].c_str(), 0), want = p == 0 ? 1e7 : std::min(1e7, -std::log(p)), got = g[f](x.begin()); ++i; near(c, got, want, "uai2opengm/value", "factor " + str(f) + " value of probability " + u.tab[f][i - 1]); } while(nextTuple(q, rs)); c.count("tables compared"); }
}
struct Damage { std::string text, what; bool must; };
// damages a token sequence; "must": no reading of the format accepts the result
static Damage damage(Ctx& c, const std::string& text) {
   std::vector<std::string> t = tokens(text); Damage d; const size_t k = c.rng.below(6), i = c.rng.below(t.size()); std::ostringstream w; d.must = false;
   std::vector<std::string> lines; { std::istringstream in(text); std::string l; while(std::getline(in, l)) lines.push_back(l); }
   if(k <= 1) { const size_t n = 1 + (c.rng.chance(0.5) ? c.rng.below(3) : c.rng.below(t.size())); t.resize(t.size() - std::min(n, t.size())); w << "last " << n << " tokens missing"; d.must = true; }
   else if(k == 2) { t[i] = c.rng.chance(0.5) ? "x" : "?7"; w << "token " << i << " is garbage"; d.must = true; }
   else if(k == 3) { const char* big[] = {"12", "29", "4000000000000000", "18446744073709551615", "99999999999999999999999"}; t[i] = big[c.rng.below(5)]; w << "token " << i << " is " << t[i]; }
   else if(k == 4) { w << "token " << i << " missing"; t.erase(t.begin() + i); }
   else { t[i] = c.rng.chance(0.5) ? "-1" : "-3.5"; w << "token " << i << " is " << t[i]; }
   // keep the records on lines of their own, as the formats have them
   std::ostringstream o; size_t p = 0; for(size_t l = 0; l < lines.size() && p < t.size(); ++l) { size_t n = tokens(lines[l]).size(); for(size_t j = 0; j < n && p < t.size(); ++j) o << t[p++] << " "; o << "\n"; } for(; p < t.size(); ++p) o << t[p] << " ";
   d.text = o.str(); d.what = w.str(); c.count("damage kind " + str(k)); return d; }
static void tryDamage(Ctx& c, const Scratch& s, Main fn, const std::string& text, const std::string& k, const std::vector<std::string>& more = std::vector<std::string>()) {
   const Damage d = damage(c, text); spit(s("d.txt"), d.text); std::vector<std::string> a = A("d.txt", "d.h5"); a.insert(a.end(), more.begin(), more.end()); unlink(s("d.h5").c_str()); const std::string what = d.what + " in\n" + text;
   if(d.must) fails(c, s, fn, a, "d.h5", k, what); else { Outcome r = orderly(c, s, fn, a, k, what); VF_CHECK((r.end == OK) == exists(s("d.h5")), k + "/result", what << " result does not agree with the reported end: " << r.show()); } }
VF_SCENARIO(damaged_uai, 120, 1500) {
   Scratch s; Uai u = randUai(c); const std::string t = u.text(c); c.desc << t; c.digest(hashStr(t)); tryDamage(c, s, uai2opengm, t, "uai2opengm");
   const size_t k = c.rng.below(6); Uai v = u; std::string what; 
   if(v.scopes.empty()) { v.scopes.push_back(std::vector<size_t>(1, 0)); v.tab.push_back(std::vector<std::string>(v.labels[0], "0.5")); }
   const size_t f = c.rng.below(v.scopes.size());
   if(k == 0) { v.scopes[f].push_back(v.labels.size() + c.rng.below(3)); what = "a variable index out of range"; }
   else if(k == 1) { if(v.scopes[f].empty()) v.scopes[f].push_back(0); v.scopes[f].push_back(v.scopes[f][0]); what = "a variable twice in a scope"; }
   else if(k == 2) { v.labels[c.rng.below(v.labels.size())] = 0; what = "a variable without labels"; }
   else if(k == 3) { v.tab[f].pop_back(); what = "a value missing in a table"; }
   else if(k == 4) { v.tab[f].push_back("0.5"); what = "a table with too many values"; }
   else { v.tab[f][c.rng.below(v.tab[f].size())] = c.rng.chance(0.5) ? "-0.25" : "nan"; what = "a value that is no probability"; }
   spit(s("d.uai"), v.text(c)); unlink(s("d.h5").c_str()); fails(c, s, uai2opengm, A("d.uai", "d.h5"), "d.h5", "uai2opengm", what + " in\n" + v.text(c));
   if(c.rng.chance(0.1)) { fails(c, s, uai2opengm, A("none.uai", "n.h5"), "n.h5", "uai2opengm/missing", "a missing file"); fails(c, s, uai2opengm, A("d.uai"), "", "uai2opengm/arguments", "a missing argument"); spit(s("b.uai"), "BAYES\n1\n2\n1\n1 0\n\n2\n0.5 0.5\n"); fails(c, s, uai2opengm, A("b.uai", "n.h5"), "n.h5", "uai2opengm/type", "an unsupported network type"); }
}
// second-order Potts models
static GmEP potts(Ctx& c, bool constants, size_t k) { std::vector<size_t> L(1 + c.rng.below(5), k); GmEP gm(opengm::DiscreteSpace<size_t,size_t>(L.begin(), L.end())); const size_t F = c.rng.below(7);
   for(size_t f = 0; f < F; ++f) { if(constants && c.rng.chance(0.2)) { Ex e(val(c, false)); std::vector<size_t> none; gm.addFactor(gm.addFunction(e), none.begin(), none.end()); continue; }
      if(L.size() < 2) continue; size_t v[] = {c.rng.below(L.size()), c.rng.below(L.size())}; if(v[0] == v[1]) continue; if(v[0] > v[1]) std::swap(v[0], v[1]); const double a = val(c, false), b = val(c, false);
      if(c.rng.chance(0.5)) gm.addFactor(gm.addFunction(Po(k, k, a, b)), v, v + 2); else { const size_t sh[] = {k, k}; Ex e(sh, sh + 2, b); for(size_t l = 0; l < k; ++l) e(l, l) = a; gm.addFactor(gm.addFunction(e), v, v + 2); } }
   return gm; }
static double partitionValue(const RefModel& m, const std::vector<size_t>& l) { double v = 0; for(size_t i = 0; i < m.f.size(); ++i) { if(m.f[i].vars.empty()) { v += m.f[i].tab[0]; continue; } v += l[m.f[i].vars[0]] == l[m.f[i].vars[1]] ? m.f[i].tab[0] : m.f[i].tab[1]; } return v; }
VF_SCENARIO(model_to_graph, 50, 500) {
   Scratch s; const size_t k = 2 + c.rng.below(3); GmEP gm = potts(c, true, k); const RefModel m = tables(gm); c.desc << m.str(); m.digest(c); opengm::hdf5::save(gm, s("m.h5"), "gm");
   works(c, s, opengm2wudag, A("m.h5", "m.txt"), "opengm2wudag"); const std::vector<std::string> t = tokens(slurp(s("m.txt"))); size_t E = 0; for(size_t i = 0; i < m.f.size(); ++i) E += m.f[i].vars.size() == 2;
   VF_CHECK(t.size() == 3 + 3 * E && t[0] == str(m.labels.size()) && t[1] == str(E), "opengm2wudag/structure", show(t) << " for " << m.str());
   std::vector<size_t> l(m.labels.size(), 0), n(m.labels.size(), m.labels.size());
   do { double v = std::strtod(t[2].c_str(), 0); for(size_t e = 0; e < E; ++e) { const size_t a = std::strtoul(t[3 + 3 * e].c_str(), 0, 10), b = std::strtoul(t[4 + 3 * e].c_str(), 0, 10); VF_CHECK(a < l.size() && b < l.size(), "opengm2wudag/node", show(t)); if(l[a] != l[b]) v += std::strtod(t[5 + 3 * e].c_str(), 0); }
      near(c, v, partitionValue(m, l), "opengm2wudag/value", "partition " + show(l)); } while(nextTuple(l, n)); c.count("partitions compared");
   if(c.rng.chance(0.3)) { const size_t L[] = {2, 2, 3}; GmEP h(opengm::DiscreteSpace<size_t,size_t>(L, L + 3)); const size_t kind = c.rng.below(3); const size_t v[] = {0, 1, 2}; const size_t o = kind == 0 ? 1 : kind == 1 ? 2 : 3;
      Ex e(L, L + o, 0.0); for(size_t i = 0; i < e.size(); ++i) e(i) = (double)i; h.addFactor(h.addFunction(e), v, v + o); opengm::hdf5::save(h, s("h.h5"), "gm"); const std::string what = kind == 0 ? "a unary factor" : kind == 1 ? "a factor that is no Potts function" : "a factor of order 3";
      fails(c, s, opengm2wudag, A("h.h5", "h.txt"), "h.txt", "opengm2wudag", what); fails(c, s, partition2potts, A("h.h5", "q.h5", "3"), "q.h5", "partition2potts", what); }
   if(c.rng.chance(0.2)) { fails(c, s, opengm2wudag, A("none.h5", "z.txt"), "z.txt", "opengm2wudag/missing", "a missing file"); fails(c, s, opengm2wudag, A("m.h5"), "", "opengm2wudag/arguments", "a missing argument"); fails(c, s, opengm2wudag, A("m.h5", "no/dir.txt"), "", "opengm2wudag/output", "an output file that cannot be created"); }
}
VF_SCENARIO(partition_to_model, 40, 400) {
   Scratch s; const size_t k = 2 + c.rng.below(3), K = 1 + c.rng.below(4); GmEP gm = potts(c, false, k); const RefModel m = tables(gm); c.desc << "labels " << K << " of " << m.str(); m.digest(c); c.digest(K); opengm::hdf5::save(gm, s("m.h5"), "gm");
   works(c, s, partition2potts, A("m.h5", "p.h5", str(K).c_str()), "partition2potts"); GmEP g; loadGm(c, s, g, "p.h5", "partition2potts");
   VF_CHECK(g.numberOfVariables() == m.labels.size(), "partition2potts/variables", g.numberOfVariables()); for(size_t i = 0; i < m.labels.size(); ++i) VF_CHECK(g.numberOfLabels(i) == K, "partition2potts/labels", g.numberOfLabels(i));
   std::vector<size_t> l(m.labels.size(), 0), n(m.labels.size(), K); do { const double v = g.evaluate(l); if(l[0] == 0) near(c, v, partitionValue(m, l), "partition2potts/value", "labels " + show(l)); else VF_CHECK(v > 1e8, "partition2potts/first", "labels " << show(l) << " cost " << v << " although the first variable is fixed"); } while(nextTuple(l, n)); c.count("models compared");
   const char* bad[] = {"0", "-2", "x", "-1"}; fails(c, s, partition2potts, A("m.h5", "z.h5", bad[c.rng.below(4)]), "z.h5", "partition2potts/labels", "an invalid number of labels");
   if(c.rng.chance(0.2)) { fails(c, s, partition2potts, A("none.h5", "z.h5", "3"), "z.h5", "partition2potts/missing", "a missing file"); fails(c, s, partition2potts, A("m.h5", "z.h5"), "z.h5", "partition2potts/arguments", "a missing argument"); fails(c, s, partition2potts, A("m.h5", "no/z.h5", "2"), "", "partition2potts/output", "an output file that cannot be created"); }
}
// matching problems
struct Asg { size_t l, r; double v; bool right; }; struct Edge { size_t a, b; double v; };
struct Matching { size_t L, R; std::vector<Asg> a; std::vector<Edge> e; std::vector<size_t> ids;
   std::string text(Ctx& c, bool comment) const { std::ostringstream o; if(comment) o << "c matching problem\n"; o << "p " << L << " " << R << " " << a.size() << " " << e.size() << "\n"; for(size_t i = 0; i < a.size(); ++i) o << "a " << ids[i] << " " << a[i].l << " " << a[i].r << " " << a[i].v << "\n"; if(comment) o << "i0 0 some other record 7\n"; for(size_t i = 0; i < e.size(); ++i) o << "e " << ids[e[i].a] << " " << ids[e[i].b] << " " << e[i].v << "\n"; return o.str(); } };
VF_SCENARIO(matching_all_points, 60, 600) {
   Scratch s; Matching m; m.L = 1 + c.rng.below(4); m.R = 1 + c.rng.below(4); std::vector<std::pair<size_t,size_t> > p; for(size_t i = 0; i < m.L; ++i) for(size_t j = 0; j < m.R; ++j) p.push_back(std::make_pair(i, j)); c.rng.shuffle(p); p.resize(1 + c.rng.below(p.size()));
   for(size_t i = 0; i < p.size(); ++i) { Asg a = {p[i].first, p[i].second, val(c, false), false}; m.a.push_back(a); m.ids.push_back(i); } c.rng.shuffle(m.ids);
   for(size_t i = 0; i < 6; ++i) { Edge e = {c.rng.below(p.size()), c.rng.below(p.size()), val(c, false)}; if(m.a[e.a].l != m.a[e.b].l) m.e.push_back(e); }
   const std::string t = m.text(c, false); c.desc << t; c.digest(hashStr(t)); spit(s("m.txt"), t); works(c, s, n2n, A("m.txt", "m.h5"), "matching2opengm-N2N"); GmE g; loadGm(c, s, g, "m.h5", "matching2opengm-N2N");
   VF_CHECK(g.numberOfVariables() == m.L, "matching2opengm-N2N/variables", g.numberOfVariables()); std::vector<size_t> l(m.L, 0), n(m.L, m.R); for(size_t i = 0; i < m.L; ++i) VF_CHECK(g.numberOfLabels(i) == m.R, "matching2opengm-N2N/labels", g.numberOfLabels(i));
   do { double v = 0; std::vector<char> on(m.a.size()); for(size_t i = 0; i < m.a.size(); ++i) { on[i] = l[m.a[i].l] == m.a[i].r; if(on[i]) v += m.a[i].v; } for(size_t i = 0; i < m.e.size(); ++i) if(on[m.e[i].a] && on[m.e[i].b]) v += m.e[i].v;
      for(size_t i = 0; i < m.L; ++i) for(size_t j = i + 1; j < m.L; ++j) if(l[i] == l[j]) v += 1e6; near(c, g.evaluate(l), v, "matching2opengm-N2N/value", "labels " + show(l)); } while(nextTuple(l, n)); c.count("matchings compared");
   for(size_t i = 0; i < 2; ++i) tryDamage(c, s, n2n, t, "matching2opengm-N2N");
   if(c.rng.chance(0.2)) { fails(c, s, n2n, A("none.txt", "z.h5"), "z.h5", "matching2opengm-N2N/missing", "a missing file"); fails(c, s, n2n, A("m.txt"), "", "matching2opengm-N2N/arguments", "a missing argument"); }
}
VF_SCENARIO(matching_key_points, 80, 800) {
   Scratch s; Matching m; m.L = 2 + c.rng.below(4); m.R = 2 + c.rng.below(4); const bool both = c.rng.chance(0.6); double lambda = c.rng.chance(0.5) ? 1 : c.rng.range(-4, 12) * 0.25;
   // key points of the left side in increasing order, then those of the right side
   std::vector<size_t> keysL, keysR; std::vector<std::vector<size_t> > own;
   for(size_t i = 0; i < m.L; ++i) if(c.rng.chance(0.6)) keysL.push_back(i); if(both && (keysL.empty() || keysL.back() == 0)) { keysL.clear(); keysL.push_back(m.L - 1); }
   if(keysL.empty()) keysL.push_back(0);
   for(size_t k = 0; k < keysL.size(); ++k) { std::vector<size_t> q; for(size_t j = 0; j < m.R; ++j) q.push_back(j); c.rng.shuffle(q); q.resize(1 + c.rng.below(std::min<size_t>(3, m.R))); own.push_back(q); for(size_t j = 0; j < q.size(); ++j) { Asg a = {keysL[k], q[j], val(c, false), false}; m.a.push_back(a); } }
   if(both) { for(size_t j = 0; j < m.R; ++j) if(c.rng.chance(0.5)) keysR.push_back(j); if(keysR.size() > 3) keysR.resize(3);
      for(size_t k = 0; k < keysR.size(); ++k) { std::vector<size_t> q; for(size_t i = 0; i < m.L; ++i) q.push_back(i); c.rng.shuffle(q); q.resize(1 + c.rng.below(std::min<size_t>(3, m.L)));
         if(k == 0 && q[0] >= keysL.back()) { if(std::find(q.begin(), q.end(), (size_t)0) != q.end()) std::swap(q[0], *std::find(q.begin(), q.end(), (size_t)0)); else q[0] = 0; }
         own.push_back(q); for(size_t j = 0; j < q.size(); ++j) { Asg a = {q[j], keysR[k], val(c, false), true}; m.a.push_back(a); } } }
   for(size_t i = 0; i < m.a.size(); ++i) m.ids.push_back(i);
   std::vector<size_t> var, lab; { size_t i = 0; for(size_t v = 0; v < own.size(); ++v) for(size_t j = 0; j < own[v].size(); ++j, ++i) { var.push_back(v); lab.push_back(j); } }
   std::set<std::pair<size_t,size_t> > used; for(size_t i = 0; i < 6; ++i) { Edge e = {c.rng.below(m.a.size()), c.rng.below(m.a.size()), val(c, false)}; const std::pair<size_t,size_t> u(std::min(e.a, e.b), std::max(e.a, e.b)); if(var[e.a] != var[e.b] && used.insert(u).second) m.e.push_back(e); }
   const std::string t = m.text(c, c.rng.chance(0.3)); c.desc << "lambda " << lambda << "\n" << t; c.digest(hashStr(t)); c.digestD(lambda); spit(s("m.txt"), t);
   works(c, s, matching, lambda == 1 && c.rng.chance(0.5) ? A("m.txt", "m.h5") : A("m.txt", "m.h5", str(lambda).c_str()), "matching2opengm"); GmE g; loadGm(c, s, g, "m.h5", "matching2opengm");
   // labels of a variable: its own assignments, what the assignments of the other side imply, and "hidden"
   const size_t nL = keysL.size(), nV = own.size(); std::vector<std::vector<size_t> > labels = own; 
   for(size_t i = 0; i < m.a.size(); ++i) { size_t other = nV, feat = 0; if(!m.a[i].right) { for(size_t k = 0; k < keysR.size(); ++k) if(keysR[k] == m.a[i].r) other = nL + k; feat = m.a[i].l; } else { for(size_t k = 0; k < nL; ++k) if(keysL[k] == m.a[i].l) other = k; feat = m.a[i].r; }
      if(other < nV && std::find(labels[other].begin(), labels[other].end(), feat) == labels[other].end()) labels[other].push_back(feat); }
   VF_CHECK(g.numberOfVariables() == nV, "matching2opengm/variables", g.numberOfVariables() << " expected " << nV); std::vector<size_t> n; for(size_t v = 0; v < nV; ++v) { n.push_back(labels[v].size() + 1); VF_CHECK(g.numberOfLabels(v) == n[v], "matching2opengm/labels", "variable " << v << ": " << g.numberOfLabels(v) << " expected " << n[v]); }
   // mapping of the assignments
   { std::ostringstream o; for(size_t i = 0; i < m.a.size(); ++i) o << i << " " << var[i] << " " << lab[i] << " "; VF_CHECK(show(tokens(slurp(s("m.h5.co")))) == show(tokens(o.str())), "matching2opengm/mapping", slurp(s("m.h5.co")) << " expected " << o.str()); }
   std::vector<size_t> l(nV, 0); size_t feasible = 0, seen = 0;
   do { if(++seen > 20000) break; bool ok = true; const size_t H = size_t(-1); std::vector<size_t> to(nV); for(size_t v = 0; v < nV; ++v) to[v] = l[v] < labels[v].size() ? labels[v][l[v]] : H;
      for(size_t v = 0; v < nV && ok; ++v) for(size_t w = v + 1; w < nV && ok; ++w) { if((v < nL) == (w < nL)) { if(to[v] != H && to[v] == to[w]) ok = false; } else if((to[v] == keysR[w - nL]) != (to[w] == keysL[v])) ok = false; }
      const double got = g.evaluate(l); if(!ok) { VF_CHECK(got > 50000, "matching2opengm/constraint", "labels " << show(l) << " contradict each other but cost " << got); continue; }
      ++feasible; double want = 0; std::vector<char> on(m.a.size()); for(size_t i = 0; i < m.a.size(); ++i) { on[i] = l[var[i]] == lab[i]; if(on[i]) want += m.a[i].v; } for(size_t i = 0; i < m.e.size(); ++i) if(on[m.e[i].a] && on[m.e[i].b]) want += lambda * m.e[i].v; near(c, got, want, "matching2opengm/value", "labels " + show(l)); } while(nextTuple(l, n));
   c.count("feasible matchings compared", feasible); c.count("labelings compared", seen); if(both) c.count("two-sided problems");
   for(size_t i = 0; i < 2; ++i) tryDamage(c, s, matching, m.text(c, false), "matching2opengm");
   if(c.rng.chance(0.2)) { fails(c, s, matching, A("none.txt", "z.h5"), "z.h5", "matching2opengm/missing", "a missing file"); fails(c, s, matching, A("m.txt"), "", "matching2opengm/arguments", "a missing argument");
      Matching w = m; if(own[0].size() > 1) { Edge e = {0, 1, 1.0}; w.e.push_back(e); spit(s("w.txt"), w.text(c, false)); fails(c, s, matching, A("w.txt", "z.h5"), "z.h5", "matching2opengm/edge", "an edge between assignments of one point"); } }
}
VF_SCENARIO(volume_to_model, 30, 250) {
   Scratch s; const size_t d[] = {1 + c.rng.below(4), 1 + c.rng.below(4), 1 + c.rng.below(3)}; const size_t n = d[0] * d[1] * d[2]; const double w = val(c, false); std::string raw; for(size_t i = 0; i < n; ++i) raw += (char)c.rng.below(256); spit(s("v.raw"), raw + (c.rng.chance(0.3) ? "more" : "")); c.desc << d[0] << "x" << d[1] << "x" << d[2] << " weight " << w; c.digest(hashStr(raw)); c.digest(d[0] * 100 + d[1] * 10 + d[2]); c.digestD(w);
   const std::vector<std::string> a = A("v.raw", "v.h5", str(d[0]).c_str(), str(d[1]).c_str(), str(d[2]).c_str(), str(w).c_str()); works(c, s, brain, a, "opengm-brain-converter"); GmEP g; loadGm(c, s, g, "v.h5", "opengm-brain-converter");
   VF_CHECK(g.numberOfVariables() == n, "opengm-brain-converter/variables", g.numberOfVariables()); for(size_t i = 0; i < n; ++i) VF_CHECK(g.numberOfLabels(i) == 5, "opengm-brain-converter/labels", g.numberOfLabels(i));
   const double mean[] = {4, 45, 105, 150, 204}; for(size_t k = 0; k < 10; ++k) { std::vector<size_t> l; for(size_t i = 0; i < n; ++i) l.push_back(c.rng.below(k == 0 ? 1 : 5)); double v = 0;
      for(size_t z = 0; z < d[2]; ++z) for(size_t y = 0; y < d[1]; ++y) for(size_t x = 0; x < d[0]; ++x) { const size_t i = x + d[0] * (y + d[1] * z); v += std::fabs((double)(unsigned char)raw[i] - mean[l[i]]); if(x + 1 < d[0] && l[i] != l[i + 1]) v += w; if(y + 1 < d[1] && l[i] != l[i + d[0]]) v += w; if(z + 1 < d[2] && l[i] != l[i + d[0] * d[1]]) v += w; }
      near(c, g.evaluate(l), v, "opengm-brain-converter/value", "labels " + show(l)); } c.count("volumes compared");
   spit(s("c.raw"), raw.substr(0, c.rng.below(n))); std::vector<std::string> b = a; b[0] = "c.raw"; b[1] = "z.h5"; fails(c, s, brain, b, "z.h5", "opengm-brain-converter/truncated", "a file with too few values");
   if(c.rng.chance(0.2)) { b[0] = "none.raw"; fails(c, s, brain, b, "z.h5", "opengm-brain-converter/missing", "a missing file"); b = a; b[1] = "z.h5"; b.pop_back(); fails(c, s, brain, b, "z.h5", "opengm-brain-converter/arguments", "a missing argument"); }
}
