#include "../../harness/solvers.hpp"
#include "script.hpp"
#include <opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx>
using namespace vf; using namespace sv;
namespace {
typedef std::vector<std::vector<size_t> > Scopes;
template<class GM> Scopes scopes(const GM& gm) { Scopes s; for(size_t k = 0; k < gm.numberOfFactors(); ++k) { std::vector<size_t> v; for(size_t i = 0; i < gm[k].numberOfVariables(); ++i) v.push_back((size_t)gm[k].variableIndex(i)); s.push_back(v); } std::sort(s.begin(), s.end()); return s; }
template<class F> std::vector<double> values(const F& f) { std::vector<size_t> sh, t; for(size_t i = 0; i < f.numberOfVariables(); ++i) sh.push_back((size_t)f.numberOfLabels(i)); t.assign(sh.size(), 0); std::vector<double> o; do o.push_back((double)f(t.begin())); while(nextTuple(t, sh)); return o; }
template<class GM> bool equal(const GM& a, const GM& b) { if(a.numberOfVariables() != b.numberOfVariables() || a.numberOfFactors() != b.numberOfFactors()) return false; for(size_t i = 0; i < a.numberOfVariables(); ++i) if(a.numberOfLabels(i) != b.numberOfLabels(i)) return false; for(size_t k = 0; k < a.numberOfFactors(); ++k) { if(a[k].numberOfVariables() != b[k].numberOfVariables()) return false; for(size_t i = 0; i < a[k].numberOfVariables(); ++i) if(a[k].variableIndex(i) != b[k].variableIndex(i)) return false; if(values(a[k]) != values(b[k])) return false; } return true; }
template<class GM> void labels(Ctx& c, const GM& gm, size_t n, size_t states, bool random) { VF_CHECK(gm.numberOfVariables() == n, "generator/variables", gm.numberOfVariables() << " should be " << n); for(size_t i = 0; i < n; ++i) VF_CHECK(random ? gm.numberOfLabels(i) >= 1 && gm.numberOfLabels(i) <= states : gm.numberOfLabels(i) == states, "generator/labels", "variable " << i << " has " << (size_t)gm.numberOfLabels(i)); }
// second generator
template<class GM> void second(Ctx& c) {
   typedef opengm::SyntheticModelGenerator2<GM> G; typedef typename G::Parameter P; typedef typename GM::ValueType T; Rng& r = c.rng; G g; P p; p.randomNumberOfStates_ = r.chance(0.4); const size_t states = 1 + r.below(4); const size_t layout = r.below(3); size_t h = 1 + r.below(4), w = 1 + r.below(4); if(layout) w = 1; if(layout) h = 1 + r.below(7); const size_t n = h * w;
   const double lo = (double)r.range(-12, 12) / 4, hi = lo + (double)r.below(20) / 4; const long ilo = r.range(0, 5), ihi = ilo + (long)r.below(5);
   static const typename G::FunctionTypes un[] = { G::EMPTY, G::CONSTF, G::URANDOM, G::IRANDOM }, pa[] = { G::CONSTF, G::URANDOM, G::IRANDOM, G::GPOTTS, G::RGPOTTS, G::L1, G::RPOTTS };
   p.functionTypes_[0] = un[r.below(4)]; p.functionTypes_[1] = pa[r.below(7)]; double from[2], to[2];
   for(size_t k = 0; k < 2; ++k) { const typename G::FunctionTypes f = p.functionTypes_[k]; const bool two = f == G::URANDOM || f == G::IRANDOM || f == G::RGPOTTS; from[k] = f == G::IRANDOM ? ilo : lo; to[k] = f == G::IRANDOM ? ihi : hi; p.functionParameters_[k].assign(two ? 2 : f == G::EMPTY ? 0 : 1, (T)from[k]); if(two) p.functionParameters_[k][1] = (T)to[k]; p.sharedFunctions_[k] = r.chance(0.5); }
   const size_t id = r.below(100000); c.desc << "layout " << layout << " " << h << "x" << w << " states " << states << (p.randomNumberOfStates_ ? " random" : "") << " types " << p.functionTypes_[0] << "," << p.functionTypes_[1] << " params " << show(p.functionParameters_[0]) << show(p.functionParameters_[1]) << " shared " << p.sharedFunctions_[0] << p.sharedFunctions_[1] << " id " << id; c.digest(id); c.digest(layout); c.digest(h); c.digest(w); c.digest(p.functionTypes_[0] * 8 + p.functionTypes_[1]);
   struct B { static GM build(const G& g, size_t layout, size_t id, size_t h, size_t w, size_t states, const P& p) { return layout == 0 ? g.buildGrid(id, h, w, states, p) : layout == 1 ? g.buildFull(id, h, states, p) : g.buildStar(id, h, states, p); } };
   const GM gm = B::build(g, layout, id, h, w, states, p); VF_EXPECT(script::lastSeed() == id, "generator/seed", ""); labels(c, gm, n, states, p.randomNumberOfStates_);
   Scopes want; if(p.functionTypes_[0] != G::EMPTY) for(size_t i = 0; i < n; ++i) want.push_back(std::vector<size_t>(1, i)); std::vector<size_t> e(2);
   if(layout == 0) { for(size_t a = 0; a < n; ++a) for(size_t b = a + 1; b < n; ++b) { const size_t dy = b % h > a % h ? b % h - a % h : a % h - b % h, dx = b / h - a / h; if(dx + dy == 1) { e[0] = a; e[1] = b; want.push_back(e); } } }
   if(layout == 1) for(e[0] = 0; e[0] < n; ++e[0]) for(e[1] = e[0] + 1; e[1] < n; ++e[1]) want.push_back(e);
   if(layout == 2) { // the centre is a random variable
      std::vector<size_t> deg(n, 0); for(size_t k = 0; k < gm.numberOfFactors(); ++k) if(gm[k].numberOfVariables() == 2) { ++deg[gm[k].variableIndex(0)]; ++deg[gm[k].variableIndex(1)]; } const size_t root = std::max_element(deg.begin(), deg.end()) - deg.begin(); for(size_t i = 0; i < n; ++i) if(i != root) { e[0] = std::min(i, root); e[1] = std::max(i, root); want.push_back(e); } }
   std::sort(want.begin(), want.end()); VF_CHECK(scopes(gm) == want, "generator/structure", gm.numberOfFactors() << " factors, expected " << want.size());
   std::vector<double> first[2]; bool have[2] = { false, false };
   for(size_t k = 0; k < gm.numberOfFactors(); ++k) { const size_t o = gm[k].numberOfVariables() - 1; const typename G::FunctionTypes f = p.functionTypes_[o]; const std::vector<double> v = values(gm[k]); const size_t s0 = gm[k].numberOfLabels(0); double off = 0; bool haveOff = false; 
      for(size_t i = 0; i < v.size(); ++i) { const size_t a = i % s0, b = i / s0; const double x = v[i], eps = 1e-5; bool ok = true;
         if(f == G::CONSTF) ok = close(x, from[o], 1e-6, 1e-6); if(f == G::URANDOM) ok = x >= from[o] - eps && x <= to[o] + eps; if(f == G::IRANDOM) { ok = x == std::floor(x) && x >= from[o] && (x < to[o] || x == from[o]); if(to[o] - from[o] > 1) c.count("integer values"); }
         if(f == G::GPOTTS) ok = close(x, a == b ? 0 : from[o], 1e-6, 1e-6);
         if(f == G::RGPOTTS || f == G::RPOTTS) { if(a == b) ok = x == 0; else { if(!haveOff) { off = x; haveOff = true; } const double z = std::fabs(from[o]); ok = x == off && (f == G::RGPOTTS ? x >= from[o] - eps && x <= to[o] + eps : x >= -z - eps && x <= z + eps); } }
         if(f == G::L1) { const double d = a > b ? a - b : b - a; if(d == 0) ok = x == 0; else { if(!haveOff) { off = x / d; haveOff = true; } ok = off > 0 && close(x, off * d, 1e-6, 1e-6); } }
         VF_CHECK(ok, std::string("generator/value-") + (o ? "pair-" : "single-") + std::string(1, (char)('0' + f)), "factor " << k << " entry " << i << " is " << x << ", requested " << from[o] << ".." << to[o]); c.count("values"); }
      if(p.sharedFunctions_[o] && !p.randomNumberOfStates_) { if(have[o]) VF_CHECK(v == first[o], "generator/shared", "factor " << k); first[o] = v; have[o] = true; } }
   VF_EXPECT(equal(gm, B::build(g, layout, id, h, w, states, p)), "generator/reproducible", "same id, different model");
   if(n >= 4 && !p.sharedFunctions_[1] && layout != 2 && p.functionTypes_[1] == G::URANDOM && to[1] > from[1] && states > 1 && !p.randomNumberOfStates_) { VF_EXPECT(!equal(gm, B::build(g, layout, id + 1, h, w, states, p)), "generator/other-id", "another id, same model"); const std::vector<double> v = values(gm[gm.numberOfFactors() - 1]), u = values(gm[gm.numberOfFactors() - 2]); VF_EXPECT(v != u, "generator/not-shared", "independent functions are equal"); }
   if(r.chance(0.1) && n > 1) { P bad = p; if(r.chance(0.5)) { bad.functionTypes_[1] = G::EMPTY; VF_MUST_THROW(B::build(g, layout, id, h, w, states, bad), "generator/unknown-type", "no pairwise type"); } else { bad.sharedFunctions_.resize(1); VF_MUST_THROW(B::build(g, layout, id, h, w, states, bad), "generator/inconsistent", "parameters"); } }
}
// every admissible integer is produced
template<class GM> void coverage(Ctx& c) {
   typedef opengm::SyntheticModelGenerator2<GM> G; typename G::Parameter p; typedef typename GM::ValueType T; Rng& r = c.rng; const long lo = r.range(-3, 4), n = 1 + (long)r.below(4); std::set<long> seen[2]; c.desc << lo << "+" << n; c.digest(lo * 10 + n); for(size_t k = 0; k < 2; ++k) { p.functionTypes_[k] = G::IRANDOM; p.functionParameters_[k][0] = (T)lo; p.functionParameters_[k][1] = (T)(lo + n); p.sharedFunctions_[k] = false; }
   const size_t id = r.below(1000000); c.digest(id); const GM gm = G().buildFull(id, 8, 5, p); for(size_t k = 0; k < gm.numberOfFactors(); ++k) { const std::vector<double> v = values(gm[k]); for(size_t i = 0; i < v.size(); ++i) { VF_CHECK(v[i] >= lo && v[i] < lo + n && v[i] == std::floor(v[i]), gm[k].numberOfVariables() == 1 ? "generator/integer-single" : "generator/integer-pair", v[i] << " not in [" << lo << "," << lo + n << ")"); seen[gm[k].numberOfVariables() - 1].insert((long)v[i]); } }
   VF_EXPECT(seen[1].size() == (size_t)n && (n > 2 || seen[0].size() == (size_t)n), "generator/integer-coverage", seen[0].size() << " and " << seen[1].size() << " of " << n);
}
template<class GM> void higher(Ctx& c) {
   typedef opengm::SyntheticModelGenerator2<GM> G; typename G::Parameter p; Rng& r = c.rng; const size_t h = 2 + r.below(3), w = 2 + r.below(3), order = 2 + r.below(std::min(h, w) - 1), states = 1 + r.below(3); c.desc << h << "x" << w << " order " << order; c.digest(h); c.digest(w); c.digest(order); p.randomNumberOfStates_ = r.chance(0.3);
   const size_t id = r.below(10000); const GM gm = G().buildHigherOrderGrid(id, h, w, states, order, p); labels(c, gm, h * w, states, p.randomNumberOfStates_); size_t unary = 0; for(size_t k = 0; k < gm.numberOfFactors(); ++k) { unary += gm[k].numberOfVariables() == 1; VF_CHECK(gm[k].numberOfVariables() <= order, "generator/order", gm[k].numberOfVariables()); const std::vector<double> v = values(gm[k]); for(size_t i = 0; i < v.size(); ++i) VF_CHECK(v[i] >= 0.1 - 1e-6 && v[i] <= 1 + 1e-6, "generator/value", v[i]); } VF_EXPECT(unary == h * w, "generator/unaries", unary); if(order > 2) { size_t big = 0; for(size_t k = 0; k < gm.numberOfFactors(); ++k) big = std::max(big, (size_t)gm[k].numberOfVariables()); VF_EXPECT(big == order, "generator/higher-order-missing", "the largest factor has " << big << " variables, order " << order << " was requested"); }
   VF_EXPECT(equal(gm, G().buildHigherOrderGrid(id, h, w, states, order, p)), "generator/reproducible", "same id, different model");
   VF_MUST_THROW(G().buildHigherOrderGrid(id, h, w, states, std::max(h, w) + 1, p), "generator/order-too-large", ""); VF_MUST_THROW(G().buildHigherOrderGrid(id, h, w, states, 1, p), "generator/order-too-small", "");
}
// first generator
template<class T, class I, class L> void firstGen(Ctx& c) {
   typedef opengm::GraphicalModel<T, opengm::Adder, typename opengm::meta::TypeListGenerator<opengm::ExplicitFunction<T, I, L>, opengm::ConstantFunction<T, I, L>, opengm::PottsFunction<T, I, L>, opengm::AbsoluteDifferenceFunction<T, I, L> >::type, opengm::DiscreteSpace<I, L> > GM; typedef opengm::SyntheticModelGenerator<GM> G; typedef typename G::Parameter P; Rng& r = c.rng;
   const size_t w = 1 + r.below(4), h = 1 + r.below(4), states = 1 + r.below(3), nf = r.below(4), id = r.below(100000); const bool random = r.chance(0.4); P p((L)states, random); c.desc << w << "x" << h << " states " << states << (random ? " random" : "") << " id " << id; c.digest(id); c.digest(w); c.digest(h); c.digest(nf); std::vector<double> lo(nf), hi(nf);
   static const typename P::FunctionTypes ty[] = { P::CONSTF, P::URANDOM, P::IRANDOM, P::POTTS, P::L1 };
   for(size_t k = 0; k < nf; ++k) { const typename P::FunctionTypes f = ty[r.below(5)]; size_t o = f == P::POTTS || f == P::L1 ? 2 : 1 + r.below(3); lo[k] = f == P::IRANDOM ? r.range(-4, 4) : r.range(-12, 12) / 4.0; hi[k] = lo[k] + (f == P::IRANDOM ? 1.0 + r.below(5) : (1 + r.below(12)) / 4.0); p.functionsType_.push_back(f); p.functionsOrder_.push_back((I)o); p.functionsMinMax_.push_back(typename P::MinMax((T)lo[k], (T)hi[k])); p.sharedFunctions_.push_back(r.chance(0.4));
      std::vector<T> par; if(r.chance(0.4)) { if(f == P::POTTS) { par.push_back((T)r.range(-4, 4)); par.push_back((T)r.range(-4, 4)); } else if(f == P::CONSTF || f == P::L1) par.push_back((T)r.range(-4, 4)); else if(!random) { par.resize((size_t)std::pow((double)states, (double)o) + 0.5); for(size_t i = 0; i < par.size(); ++i) par[i] = (T)r.range(-9, 9); } } p.functionsParameter_.push_back(par); c.desc << " (" << (int)f << " order " << o << " in " << lo[k] << ".." << hi[k] << (p.sharedFunctions_[k] ? " shared" : "") << " par" << show(par) << ")"; c.digest(f * 4 + o); }
   const GM gm = G::buildGrid(id, (I)w, (I)h, p); labels(c, gm, w * h, states, random); Scopes want; std::vector<size_t> kind;
   for(size_t k = 0; k < nf; ++k) { const size_t o = p.functionsOrder_[k]; for(size_t x = 0; x < w; ++x) for(size_t y = 0; y < h; ++y) { std::vector<size_t> v(o); if(x + o <= w) { for(size_t l = 0; l < o; ++l) v[l] = x + l + y * w; want.push_back(v); kind.push_back(k); } if(o > 1 && y + o <= h) { for(size_t l = 0; l < o; ++l) v[l] = x + (y + l) * w; want.push_back(v); kind.push_back(k); } } }
   Scopes sorted = want; std::sort(sorted.begin(), sorted.end()); VF_CHECK(scopes(gm) == sorted, "grid/structure", gm.numberOfFactors() << " factors, expected " << want.size());
   // factors of one requested kind are consecutive
   size_t at = 0; for(size_t k = 0; k < nf; ++k) { std::map<std::vector<size_t>, std::vector<double> > shared; const size_t cnt = std::count(kind.begin(), kind.end(), k); for(size_t j = 0; j < cnt; ++j, ++at) { const std::vector<double> v = values(gm[at]); std::vector<size_t> sh; for(size_t i = 0; i < gm[at].numberOfVariables(); ++i) sh.push_back(gm[at].numberOfLabels(i)); const typename P::FunctionTypes f = p.functionsType_[k]; const std::vector<T>& par = p.functionsParameter_[k]; VF_CHECK(sh.size() == (size_t)p.functionsOrder_[k], "grid/order", "factor " << at);
         for(size_t i = 0; i < v.size(); ++i) { const double x = v[i], eps = 1e-5; const size_t a = i % sh[0], b = sh.size() > 1 ? i / sh[0] % sh[1] : a; const double d = a > b ? a - b : b - a; bool ok = true; const bool in = x >= lo[k] - eps && x < hi[k] + eps;
            if(f == P::CONSTF) ok = par.empty() ? in && x == v[0] : x == (double)par[0]; if(f == P::URANDOM) ok = par.empty() ? in : x == (double)par[i]; if(f == P::IRANDOM) ok = par.empty() ? in && x == std::floor(x) && x < hi[k] : x == (double)par[i];
            if(f == P::POTTS) { if(!par.empty()) ok = x == (double)par[a != b]; else { ok = in; for(size_t q = 0; q < i; ++q) { const bool df = q % sh[0] != q / sh[0]; if(df == (a != b)) ok = ok && v[q] == x; } } }
            if(f == P::L1) { if(!par.empty()) ok = close(x, par[0] * d, 1e-6, 1e-6); else if(d > 0) ok = x / d >= lo[k] - eps && x / d <= hi[k] + eps; else ok = x == 0; }
            VF_CHECK(ok, std::string("grid/value-") + (char)('0' + f), "factor " << at << " entry " << i << " is " << x); c.count("values"); }
         if(p.sharedFunctions_[k]) { if(shared.count(sh)) VF_CHECK(shared[sh] == v, "grid/shared", "factor " << at); shared[sh] = v; } } }
   VF_EXPECT(equal(gm, G::buildGrid(id, (I)w, (I)h, p)), "grid/reproducible", "same id, different model");
   if(nf) { P bad = p; switch(r.below(3)) { case 0: bad.functionsOrder_.pop_back(); break; case 1: bad.sharedFunctions_.push_back(true); break; default: bad.functionsParameter_.pop_back(); } VF_MUST_THROW(G::buildGrid(id, (I)w, (I)h, bad), "grid/inconsistent", "parameters"); }
   VF_MUST_THROW(G::buildFull(id, (I)w, p), "grid/full", "not available"); VF_MUST_THROW(G::buildStar(id, (I)w, p), "grid/star", "not available");
}
}
VF_SCENARIO(Second, 900, 20000) { second<Gm<double, opengm::Adder, size_t, size_t>::Plain>(c); }
VF_SCENARIO(SecondFloat, 600, 20000) { second<Gm<float, opengm::Multiplier, int, int>::Plain>(c); }
VF_SCENARIO(SecondIntegers, 200, 4000) { coverage<Gm<double, opengm::Adder, size_t, size_t>::Plain>(c); }
VF_SCENARIO(SecondHigherOrder, 200, 4000) { higher<Gm<double, opengm::Adder, size_t, size_t>::Plain>(c); }
VF_SCENARIO(FirstGrid, 900, 20000) { firstGen<double, size_t, size_t>(c); }
VF_SCENARIO(FirstGridFloat, 600, 20000) { firstGen<float, unsigned, unsigned char>(c); }
