#include "common.hpp"
using namespace vf; using namespace c06;
VF_SCENARIO(function_kinds, 2000, 60000) {
   std::vector<size_t> sh = randShape(c.rng); const FnKind k = randKind(c.rng, sh.size());
   FnSpec s = randSpec(c.rng, k, sh, c.rng.chance(0.5) ? TIES : DYADIC); Scan sc(sh, s.tab);
   c.desc << s.str(); c.digest(k); c.digestV(sh); for(size_t i = 0; i < s.tab.size(); ++i) c.digestD(s.tab[i]);
   FnVisit v(c, sc, fnName(k)); withFunction<double, size_t, size_t>(s, v);
}
VF_SCENARIO(explicit_forms, 3000, 100000) {
   std::vector<size_t> sh = randShape(c.rng, false); FnSpec s; s.kind = F_EXPLICIT; s.shape = sh; s.tab = formTable(c.rng, sh); Scan sc(sh, s.tab);
   c.desc << sc.str(); c.digestV(sh); for(size_t i = 0; i < s.tab.size(); ++i) c.digestD(s.tab[i]);
   FnVisit v(c, sc, "table"); withFunction<double, size_t, size_t>(s, v);
}
VF_SCENARIO(high_order, 60, 1500) {
   // five to nine dimensions; Potts tables and tables that miss being one in a single entry
   const size_t d = 5 + c.rng.below(5); std::vector<size_t> sh; size_t p = 1;
   for(size_t i = 0; i < d; ++i) { const size_t k = p > 600 ? 1 + c.rng.below(2) : 1 + c.rng.below(3); sh.push_back(k); p *= k; }
   const double e = c.rng.range(0, 3), n = c.rng.range(0, 3); std::vector<double> tab; std::vector<size_t> t(d, 0);
   do { bool eq = true; for(size_t i = 1; i < d; ++i) eq = eq && t[i] == t[0]; tab.push_back(eq ? e : n); } while(nextTuple(t, sh));
   const size_t how = c.rng.below(4);
   if(how == 1) tab[c.rng.below(tab.size())] += 1; else if(how == 2) for(size_t i = 0; i < tab.size(); ++i) tab[i] = c.rng.range(-2, 2); else if(how == 3) tab.back() -= 1;
   Scan sc(sh, tab); c.desc << "shape" << show(sh) << " how " << how; c.digestV(sh); for(size_t i = 0; i < tab.size(); ++i) c.digestD(tab[i]);
   FnSpec s; s.kind = F_EXPLICIT; s.shape = sh; s.tab = tab; FnVisit v(c, sc, "high-order"); withFunction<double, size_t, size_t>(s, v);
   if(how == 0) { FnSpec q; q.kind = F_POTTSN; q.shape = sh; q.tab = tab; q.par.push_back(e); q.par.push_back(n); FnVisit w(c, sc, "high-order-pottsn"); withFunction<double, size_t, size_t>(q, w); }
   if(how == 1) { FnSpec q; q.kind = F_SPARSE; q.shape = sh; q.tab = tab; q.par.push_back(n); std::fill(t.begin(), t.end(), 0); size_t k = 0; do { if(tab[k] != n) q.sparse[t] = tab[k]; ++k; } while(nextTuple(t, sh)); FnVisit w(c, sc, "high-order-sparse"); withFunction<double, size_t, size_t>(q, w); }
}
VF_SCENARIO(pottsg_forms, 300, 6000) {
   // a generalized Potts function in which some partitions are out of reach
   const size_t d = 2 + c.rng.below(4); std::vector<size_t> sh = randLabels(c.rng, d, 1, 3), pat; validPatterns(d, pat);
   opengm::PottsGFunction<double, size_t, size_t> f(sh.begin(), sh.end()); const double e = c.rng.range(0, 2), n = c.rng.range(0, 2); std::map<size_t, double> val;
   for(size_t i = 0; i < pat.size(); ++i) { val[pat[i]] = i + 1 == pat.size() ? e : c.rng.chance(0.85) ? n : n + 1; f.setByPartition(pat[i], val[pat[i]]); }
   std::vector<size_t> t(d, 0); std::vector<double> tab; do tab.push_back(val[pairBits(t)]); while(nextTuple(t, sh));
   Scan sc(sh, tab); c.desc << sc.str(); c.digestV(sh); for(size_t i = 0; i < tab.size(); ++i) c.digestD(tab[i]);
   FnVisit v(c, sc, "pottsg"); v(f);
}
VF_SCENARIO(equality, 600, 15000) {
   typedef opengm::ExplicitFunction<double, size_t, size_t> F;
   std::vector<size_t> a = randShape(c.rng, false), b = c.rng.chance(0.7) ? a : randShape(c.rng, false); std::vector<double> ta = formTable(c.rng, a), tb;
   if(c.rng.chance(0.2)) ta[c.rng.below(ta.size())] = c.rng.chance(0.5) ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
   if(b == a) { tb = ta; if(c.rng.chance(0.5)) { const size_t i = c.rng.below(tb.size()); tb[i] = tb[i] == 4 ? 5 : 4; } } else tb = formTable(c.rng, b);
   if(c.rng.chance(0.1) && a.size() > 1) { b = a; std::rotate(b.begin(), b.begin() + 1, b.end()); tb = ta; }
   F f(a.begin(), a.end()), g(b.begin(), b.end()); for(size_t i = 0; i < ta.size(); ++i) f(i) = ta[i]; for(size_t i = 0; i < tb.size(); ++i) g(i) = tb[i];
   c.desc << show(a) << show(ta) << " / " << show(b) << show(tb); c.digestV(a); c.digestV(b); for(size_t i = 0; i < ta.size(); ++i) c.digestD(ta[i]);
   const bool want = a == b && ta == tb; typedef opengm::FunctionBase<F, double, size_t, size_t> B;
   VF_EXPECT((static_cast<const B&>(f) == g) == want, "explicit", want);
   if(a.size() == 2 && b.size() == 2) {
      opengm::PottsFunction<double> p(a[0], a[1], ta[0], ta.back()), q(b[0], b[1], tb[0], tb.back());
      VF_EXPECT((p == q) == (a == b && ta[0] == tb[0] && ta.back() == tb.back()), "potts", "");
      opengm::SquaredDifferenceFunction<double> sp(a[0], a[1], ta[0]), sq(b[0], b[1], tb[0]); bool same = a == b;
      if(std::isfinite(ta[0]) && std::isfinite(tb[0])) { for(size_t x = 0; same && x < a[0]; ++x) for(size_t y = 0; y < a[1]; ++y) { const double d = (double)x - (double)y; if(d * d * ta[0] != d * d * tb[0]) same = false; }
         VF_EXPECT((sp == sq) == same, "squared", show(a) << show(b) << ta[0] << " " << tb[0]); }
   }
   c.count(want ? "equal pairs" : "different pairs");
}
