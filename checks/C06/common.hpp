// what an exhaustive scan of a table answers, and the comparison with a
// library object (function, factor of a model, independent factor)
#pragma once
#include <functions.hpp>
#include <opengm/functions/function_properties.hxx>
namespace c06 {
using namespace vf;
struct Scan {
   std::vector<size_t> sh; std::vector<double> tab; size_t d;
   Scan(const std::vector<size_t>& s, const std::vector<double>& t) : sh(s), tab(t), d(s.size()) {}
   double min() const { return *std::min_element(tab.begin(), tab.end()); }
   double max() const { return *std::max_element(tab.begin(), tab.end()); }
   double sum() const { double v = 0; for(size_t i = 0; i < tab.size(); ++i) v += tab[i]; return v; }
   double product() const { double v = 1; for(size_t i = 0; i < tab.size(); ++i) v *= tab[i]; return v; }
   bool potts() const { bool he = false, hn = false; double e = 0, n = 0; std::vector<size_t> t(d, 0); size_t k = 0;
      do { bool eq = true; for(size_t i = 1; i < d; ++i) eq = eq && t[i] == t[0];
         bool& h = eq ? he : hn; double& v = eq ? e : n; if(!h) { h = true; v = tab[k]; } else if(v != tab[k]) return false; ++k; } while(nextTuple(t, sh)); return true; }
   bool generalized() const { std::map<size_t, double> m; std::vector<size_t> t(d, 0); size_t k = 0;
      do { const size_t p = pairBits(t); if(!m.count(p)) m[p] = tab[k]; else if(m[p] != tab[k]) return false; ++k; } while(nextTuple(t, sh)); return true; }
   // value depends only on |a-b|: returns false if not; fills v[d]
   bool byDistance(std::map<size_t, double>& v) const { for(size_t b = 0; b < sh[1]; ++b) for(size_t a = 0; a < sh[0]; ++a) { const size_t x = a > b ? a - b : b - a; const double w = tab[a + sh[0] * b]; if(!v.count(x)) v[x] = w; else if(v[x] != w) return false; } return true; }
   bool difference(bool sq) const { std::map<size_t, double> v; if(!byDistance(v)) return false; for(std::map<size_t, double>::iterator i = v.begin(); i != v.end(); ++i) { const double x = (double)i->first, q = sq ? x * x : x; if(i->second != q * v[1]) return false; } return true; }
   bool truncated(bool sq) const { std::map<size_t, double> v; if(!byDistance(v)) return false; if(v[0] != 0) return false; const double w = v[1], cap = v.rbegin()->second;
      for(std::map<size_t, double>::iterator i = v.begin(); i != v.end(); ++i) { const double x = (double)i->first, q = (sq ? x * x : x) * w; if(i->second != (w < 0 ? std::max(q, cap) : std::min(q, cap))) return false; } return true; }
   std::vector<double> switched() const { std::vector<double> r; std::vector<size_t> rs(sh.rbegin(), sh.rend()), t(d, 0);
      do { size_t idx = 0, st = 1; for(size_t i = 0; i < d; ++i) { idx += st * t[d - 1 - i]; st *= sh[i]; } r.push_back(tab[idx]); } while(nextTuple(t, rs)); return r; }
   std::string str() const { std::ostringstream o; o << "shape" << show(sh) << " table" << show(tab); return o.str(); }
};
struct Collect { std::vector<double> v; template<class T> void operator()(const T x) { v.push_back((double)x); } };
struct CollectAt { std::vector<double> v; std::vector<std::vector<size_t> > at; size_t d; template<class T, class IT> void operator()(const T x, IT it) { v.push_back((double)x); at.push_back(std::vector<size_t>(it, it + d)); } };
inline std::vector<double> sorted(std::vector<double> v) { std::sort(v.begin(), v.end()); return v; }
inline std::set<double> setOf(const std::vector<double>& v) { return std::set<double>(v.begin(), v.end()); }

// queries offered by functions, factors and independent factors alike
template<class F> void common(Ctx& c, F& f, const Scan& s, const std::string& k) {
   VF_EXPECT((double)f.min() == s.min(), k + "/min", (double)f.min() << " expected " << s.min() << " " << s.str());
   VF_EXPECT((double)f.max() == s.max(), k + "/max", (double)f.max() << " expected " << s.max() << " " << s.str());
   VF_EXPECT((double)f.sum() == s.sum(), k + "/sum", (double)f.sum() << " expected " << s.sum() << " " << s.str());
   VF_EXPECT(close((double)f.product(), s.product(), 1e-5, 1e-300), k + "/product", (double)f.product() << " expected " << s.product() << " " << s.str());
   if(s.d >= 2) VF_EXPECT(f.isPotts() == s.potts(), k + "/potts", f.isPotts() << " " << s.str());
   if(s.d >= 2 && s.d <= 4) VF_EXPECT(f.isGeneralizedPotts() == s.generalized(), k + "/generalized-potts", f.isGeneralizedPotts() << " " << s.str());
   if(s.d == 1) VF_EXPECT(f.isSubmodular(), k + "/submodular-unary", s.str());
   else if(s.d == 2 && s.sh[0] == 2 && s.sh[1] == 2) VF_EXPECT(f.isSubmodular() == (s.tab[0] + s.tab[3] <= s.tab[1] + s.tab[2]), k + "/submodular", f.isSubmodular() << " " << s.str());
   else VF_MUST_THROW(f.isSubmodular(), k + "/submodular-domain", s.str());
   if(s.d != 2) {
      VF_EXPECT(!f.isSquaredDifference() && !f.isAbsoluteDifference() && !f.isTruncatedSquaredDifference() && !f.isTruncatedAbsoluteDifference(), k + "/difference-dimension", s.str());
   }
   else if(s.sh[0] >= 2) {
      VF_EXPECT(f.isSquaredDifference() == s.difference(true), k + "/squared-difference", f.isSquaredDifference() << " " << s.str());
      VF_EXPECT(f.isAbsoluteDifference() == s.difference(false), k + "/absolute-difference", f.isAbsoluteDifference() << " " << s.str());
      if(s.tab[0] == 0) {
         VF_EXPECT(f.isTruncatedSquaredDifference() == s.truncated(true), k + "/truncated-squared-difference", f.isTruncatedSquaredDifference() << " " << s.str());
         VF_EXPECT(f.isTruncatedAbsoluteDifference() == s.truncated(false), k + "/truncated-absolute-difference", f.isTruncatedAbsoluteDifference() << " " << s.str());
      }
      if(s.difference(true)) c.count("squared difference tables"); if(s.difference(false)) c.count("absolute difference tables");
      if(s.truncated(true)) c.count("truncated squared difference tables"); if(s.truncated(false)) c.count("truncated absolute difference tables");
   }
   if(s.d >= 2) { c.count(s.potts() ? "Potts tables" : "non-Potts tables"); if(s.d <= 4) c.count(s.generalized() ? "generalized Potts tables" : "other tables"); }
}
template<class F> void traversals(Ctx& c, const F& f, const Scan& s, const std::string& k) {
   Collect a, b, d, e; f.forAllValuesInOrder(a); f.forAllValuesInSwitchedOrder(b); f.forAllValuesInAnyOrder(d); f.forAtLeastAllUniqueValues(e);
   VF_EXPECT(a.v == s.tab, k + "/in-order", show(a.v) << " " << s.str());
   VF_EXPECT(b.v == s.switched(), k + "/switched-order", show(b.v) << " " << s.str());
   VF_EXPECT(sorted(d.v) == sorted(s.tab), k + "/any-order", show(d.v) << " " << s.str());
   VF_EXPECT(setOf(e.v) == setOf(s.tab), k + "/unique-values", show(e.v) << " " << s.str());
}
struct FnVisit {
   Ctx& c; const Scan& s; std::string k;
   FnVisit(Ctx& cc, const Scan& ss, const std::string& kk) : c(cc), s(ss), k(kk) {}
   template<class F> void operator()(const F& f) {
      common(c, f, s, k); traversals(c, f, s, k);
      typedef typename F::ValueType T;
      VF_EXPECT((double)f.minMax().min() == s.min() && (double)f.minMax().max() == s.max(), k + "/minmax", s.str());
      VF_EXPECT((double)f.template accumulate<opengm::Minimizer>() == s.min(), k + "/accumulate-min", s.str());
      VF_EXPECT((double)f.template accumulate<opengm::Maximizer>() == s.max(), k + "/accumulate-max", s.str());
      VF_EXPECT((double)f.template accumulate<opengm::Adder>() == s.sum(), k + "/accumulate-sum", s.str());
      VF_EXPECT((double)f.template accumulate<opengm::Integrator>() == s.sum(), k + "/accumulate-integrate", s.str());
      VF_EXPECT(close((double)f.template accumulate<opengm::Multiplier>(), s.product(), 1e-5, 1e-300), k + "/accumulate-product", s.str());
      VF_EXPECT(!f.isLinearConstraint(), k + "/linear-constraint", s.str());
      VF_EXPECT(std::vector<size_t>(f.functionShapeBegin(), f.functionShapeEnd()) == s.sh, k + "/shape-iterator", s.str());
      CollectAt x, y, z; x.d = y.d = z.d = s.d; f.forAllValuesInOrderWithCoordinate(x); f.forAllValuesInAnyOrderWithCoordinate(y); f.forAtLeastAllUniqueValuesWithCoordinate(z);
      VF_EXPECT(x.v == s.tab, k + "/in-order-with-coordinate", show(x.v) << s.str());
      const CollectAt* cs[3] = {&x, &y, &z};
      for(int i = 0; i < 3; ++i) { std::set<double> seen; bool ok = true;
         for(size_t j = 0; j < cs[i]->v.size(); ++j) { size_t idx = 0, st = 1; for(size_t q = 0; q < s.d; ++q) { idx += st * cs[i]->at[j][q]; st *= s.sh[q]; } ok = ok && idx < s.tab.size() && s.tab[idx] == cs[i]->v[j]; seen.insert(cs[i]->v[j]); }
         VF_EXPECT(ok && seen == setOf(s.tab) && (i == 2 || cs[i]->v.size() == s.tab.size()), k + "/with-coordinate", i << " " << s.str()); }
      VF_EXPECT((opengm::ValueFunctionProperties<opengm::ValueProperties::Sum, F>::op(f) == (T)s.sum()), k + "/property-sum", s.str());
      VF_EXPECT((opengm::ValueFunctionProperties<opengm::ValueProperties::Minimum, F>::op(f) == (T)s.min()), k + "/property-min", s.str());
      F g(f); VF_EXPECT(f == g, k + "/equal-to-copy", s.str());
   }
};
// tables of special form, some with one entry disturbed
inline std::vector<double> formTable(Rng& r, const std::vector<size_t>& sh, int* formOut = 0) {
   const size_t d = sh.size(); const int form = (int)r.below(d == 2 ? 9 : 4); if(formOut) *formOut = form;
   const double w = r.chance(0.1) ? 0 : r.chance(0.8) ? (double)r.range(1, 4) : (double)r.range(-3, -1), cap = (double)r.range(0, 9) * (w < 0 ? -1 : 1), e = (double)r.range(-3, 3), n = (double)r.range(-3, 3);
   std::map<size_t, double> pat; std::vector<double> tab; std::vector<size_t> t(d, 0);
   do { double v = 0; const double x = d == 2 ? std::fabs((double)t[0] - (double)t[1]) : 0; bool eq = true; for(size_t i = 1; i < d; ++i) eq = eq && t[i] == t[0];
      const size_t p = pairBits(t); if(!pat.count(p)) pat[p] = (double)r.range(-2, 2);
      switch(form) { case 0: v = (double)r.range(-2, 2); break; case 1: v = eq ? e : n; break; case 2: v = pat[p]; break; case 3: v = e; break;
         case 4: v = x * w; break; case 5: v = x * x * w; break; case 6: v = w < 0 ? std::max(x * w, cap) : std::min(x * w, cap); break; case 7: v = w < 0 ? std::max(x * x * w, cap) : std::min(x * x * w, cap); break;
         case 8: v = x == 0 ? 0 : x * w; break; }
      tab.push_back(v); } while(nextTuple(t, sh));
   if(r.chance(0.45)) { const size_t i = r.below(tab.size()); tab[i] = r.chance(0.3) ? tab[r.below(tab.size())] : tab[i] + (r.chance(0.5) ? 1 : -1); 
      if(d == 2 && r.chance(0.5)) { const size_t a = i % sh[0], b = i / sh[0]; for(size_t y = 0; y < sh[1]; ++y) for(size_t x = 0; x < sh[0]; ++x) if((x > y ? x - y : y - x) == (a > b ? a - b : b - a)) tab[x + sh[0] * y] = tab[i]; } }
   return tab;
}
inline std::vector<size_t> randShape(Rng& r, bool zero = true) { size_t d = zero && r.chance(0.05) ? 0 : r.chance(0.5) ? 2 : 1 + r.below(5); return randLabels(r, d, 1, d <= 2 ? (r.chance(0.2) ? 8 : 4) : d == 3 ? 4 : d == 4 ? (r.chance(0.3) ? 4 : 3) : 2); }
} // namespace
