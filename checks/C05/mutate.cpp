// element-wise mutation against a shadow table; wide n-ary functions; losses; experts
#include <functions.hpp>
#include <opengm/functions/singlesitefunction.hxx>
#include <opengm/functions/fieldofexperts.hxx>
#include <opengm/functions/unary_loss_function.hxx>
using namespace vf;
typedef FnTypes<double, size_t, size_t> F;
namespace {
template<class FN> void same(Ctx& c, const FN& f, const std::vector<size_t>& sh, const std::vector<double>& tab, const std::string& key) {
   std::vector<size_t> t(sh.size(), 0); size_t n = 0;
   do { std::vector<size_t> q = t; if(q.empty()) q.push_back(0); const double v = f(q.begin());
      VF_CHECK(v == tab[n], key, "at " << show(t) << " read " << v << " expected " << tab[n] << " shape " << show(sh)); ++n; } while(nextTuple(t, sh));
}
std::vector<size_t> tupleAt(const std::vector<size_t>& sh, size_t i) { std::vector<size_t> t(sh.size()); for(size_t k = 0; k < sh.size(); ++k) { t[k] = i % sh[k]; i /= sh[k]; } return t; }
}
VF_SCENARIO(explicit_entries, 300, 8000) {
   std::vector<size_t> sh = randLabels(c.rng, 1 + c.rng.below(4), 1, 4); c.digestV(sh); c.desc << show(sh);
   const double init = drawValue(c.rng, DYADIC);
   F::Explicit f(sh.begin(), sh.end(), init); std::vector<double> tab(prod(sh), init);
   same(c, f, sh, tab, "constructed");
   F::Explicit keep(f); std::vector<double> keepTab(tab);
   for(size_t k = 0; k < 12; ++k) {
      const size_t i = c.rng.below(tab.size()); const double v = drawValue(c.rng, DYADIC); std::vector<size_t> t = tupleAt(sh, i);
      switch(c.rng.below(4)) {
      case 0: f(t.begin()) = v; break;
      case 1: f(i) = v; break;
      case 2: f(&t[0]) = v; break;
      case 3: if(sh.size() == 2) f(t[0], t[1]) = v; else if(sh.size() == 3) f(t[0], t[1], t[2]) = v; else if(sh.size() == 4) f(t[0], t[1], t[2], t[3]) = v; else f(t.begin()) = v; break;
      }
      tab[i] = v; c.digestD(v);
      same(c, f, sh, tab, "entry");
      if(c.rng.chance(0.2)) { same(c, keep, sh, keepTab, "copy-follows"); keep = f; keepTab = tab; }
   }
   same(c, keep, sh, keepTab, "copy-follows");
}
VF_SCENARIO(sparse_entries, 300, 8000) {
   std::vector<size_t> sh = randLabels(c.rng, 1 + c.rng.below(5), 1, 4); if(c.rng.chance(0.1)) { sh.assign(18, 1); sh[3] = 2; sh[17] = 3; }
   c.digestV(sh); c.desc << show(sh);
   const double init = drawValue(c.rng, DYADIC);
   F::Sparse f(sh.begin(), sh.end(), init); std::vector<double> tab(prod(sh), init); std::set<size_t> used;
   F::Sparse before(f);
   VF_EXPECT(f.defaultValue() == init, "default", "");
   for(size_t k = 0; k < 10; ++k) {
      const size_t i = c.rng.below(tab.size()); if(used.count(i)) continue; used.insert(i);
      const double v = drawValue(c.rng, DYADIC); std::vector<size_t> t = tupleAt(sh, i);
      f.insert(t.begin(), v); tab[i] = v; c.digestD(v);
      same(c, f, sh, tab, "entry");
      const size_t key = f.coordinateToKey(t.begin()); std::vector<size_t> back(sh.size()); f.keyToCoordinate(key, back.begin());
      VF_EXPECT(back == t, "key-roundtrip", show(t) << " -> " << key << " -> " << show(back));
      VF_EXPECT(f.valueFromKey(key) == v, "value-from-key", "");
   }
   VF_EXPECT(f.container().size() == used.size(), "container-size", f.container().size());
   same(c, before, sh, std::vector<double>(prod(sh), init), "copy-follows");
}
VF_SCENARIO(potts_parameters, 200, 5000) {
   const size_t a = 1 + c.rng.below(5), b = 1 + c.rng.below(5); std::vector<size_t> sh(2); sh[0] = a; sh[1] = b; c.digestV(sh);
   double p[2] = {drawValue(c.rng, DYADIC), drawValue(c.rng, DYADIC)}; c.digestD(p[0]); c.desc << show(sh);
   F::Potts f(a, b, p[0], p[1]), g(f); const double q[2] = {p[0], p[1]};
   for(size_t k = 0; k < 6; ++k) {
      const size_t i = c.rng.below(2); p[i] = drawValue(c.rng, DYADIC); f.parameter(i) = p[i];
      const F::Potts& cf = f;
      VF_EXPECT(cf.parameter(0) == p[0] && cf.parameter(1) == p[1], "parameter", "");
      VF_EXPECT(f.valueEqual() == p[0] && f.valueNotEqual() == p[1], "accessors", "");
      std::vector<double> tab; for(size_t y = 0; y < b; ++y) for(size_t x = 0; x < a; ++x) tab.push_back(x == y ? p[0] : p[1]);
      same(c, f, sh, tab, "table");
   }
   VF_EXPECT(g.valueEqual() == q[0] && g.valueNotEqual() == q[1], "copy-follows", "");
   VF_EXPECT(f.numberOfWeights() == 2, "weights", "");
}
VF_SCENARIO(pottsg_partitions, 300, 6000) {
   const size_t d = 1 + c.rng.below(c.rng.chance(0.15) ? 7 : 6); std::vector<size_t> sh = randLabels(c.rng, d, 1, d <= 3 ? 5 : d <= 5 ? 3 : 2);
   std::vector<size_t> pat; validPatterns(d, pat); std::map<size_t, double> val;
   for(size_t i = 0; i < pat.size(); ++i) val[pat[i]] = 0;
   c.desc << show(sh); c.digestV(sh);
   F::PottsG f(sh.begin(), sh.end());
   if(c.rng.chance(0.5)) { std::vector<double> v; for(size_t i = 0; i < pat.size(); ++i) { v.push_back(drawValue(c.rng, DYADIC)); val[pat[i]] = v.back(); } f = F::PottsG(sh.begin(), sh.end(), v.begin()); }
   F::PottsG before(f); std::map<size_t, double> valBefore(val);
   for(size_t k = 0; k < 8; ++k) {
      const double v = drawValue(c.rng, DYADIC); c.digestD(v); 
      if(c.rng.chance(0.5)) { const size_t p = c.rng.pick(pat); f.setByPartition(p, v); val[p] = v; c.count("set by partition"); }
      else { std::vector<size_t> t(d); const size_t hi = c.rng.chance(0.5) ? 2 : 6; for(size_t i = 0; i < d; ++i) t[i] = c.rng.below(std::min(sh[i], hi)); f.setByLabel(t.begin(), v); val[pairBits(t)] = v; c.count("set by label"); }
      if(c.rng.chance(0.2)) { // a wider function elsewhere must not disturb this one
         std::vector<size_t> s7(c.rng.chance(0.5) ? 7 : 5, 2); F::PottsG g(s7.begin(), s7.end()); g.setByLabel(s7.begin(), 1.0); }
   }
   for(int which = 0; which < 2; ++which) {
      std::vector<size_t> t(d, 0); std::vector<double> tab; do tab.push_back(which ? valBefore[pairBits(t)] : val[pairBits(t)]); while(nextTuple(t, sh));
      same(c, which ? before : f, sh, tab, which ? "copy-follows" : "table");
   }
   VF_EXPECT(f.isGeneralizedPotts(), "generalized", "");
}
VF_SCENARIO(wide_sizes, 300, 5000) {
   // extents whose product exceeds 32 bits; only corner and random tuples are read
   const size_t d = 2 + c.rng.below(c.rng.chance(0.3) ? 10 : 5); std::vector<size_t> sh; double p = 1;
   for(size_t i = 0; i < d; ++i) { sh.push_back(d > 6 ? 2 + c.rng.below(12) : 1 + c.rng.below(c.rng.chance(0.3) ? 60000 : 300)); p *= sh.back(); if(p > 1e18) { sh.back() = 2; break; } }
   if(p > 1e18) throw Skip();
   c.digestV(sh); c.desc << show(sh); const double a = drawValue(c.rng, DYADIC), b = drawValue(c.rng, DYADIC);
   std::vector<int> ish(sh.begin(), sh.end()); std::vector<unsigned short> ssh(sh.begin(), sh.end());
   opengm::PottsNFunction<double, size_t, unsigned short> f(ssh.begin(), ssh.end(), a, b); F::PottsN f2(ish.begin(), ish.end(), a, b);
   opengm::ConstantFunction<double, size_t, unsigned short> g(ssh.begin(), ssh.end(), b); F::Constant g2(ish.begin(), ish.end(), b);
   opengm::SparseFunction<double, size_t, unsigned short> s(ssh.begin(), ssh.end(), a); F::PottsG pg(ish.begin(), ish.end());
   for(size_t i = 0; i < d && i < sh.size(); ++i) VF_EXPECT(f.shape(i) == sh[i] && g.shape(i) == sh[i] && s.shape(i) == sh[i] && pg.shape(i) == sh[i], "wide-shape", i);
   VF_EXPECT(f.size() == prod(sh) && f2.size() == prod(sh), "pottsn-size", f.size() << " " << f2.size());
   VF_EXPECT(g.size() == prod(sh) && g2.size() == prod(sh), "constant-size", g.size() << " " << g2.size());
   VF_EXPECT(s.size() == prod(sh), "sparse-size", s.size());
   VF_EXPECT(pg.size() == prod(sh), "pottsg-size", pg.size());
   std::set<std::vector<size_t> > seen; 
   for(size_t k = 0; k < 16; ++k) {
      std::vector<size_t> t; const size_t same = c.rng.below(*std::min_element(sh.begin(), sh.end()));
      for(size_t i = 0; i < sh.size(); ++i) t.push_back(k % 4 == 0 ? same : k % 4 == 1 ? sh[i] - 1 : c.rng.below(sh[i]));
      if(k % 4 == 2) { std::fill(t.begin(), t.end(), same); const size_t i = c.rng.below(t.size()); t[i] = c.rng.below(sh[i]); } // all equal but one
      bool eq = true; for(size_t i = 1; i < t.size(); ++i) eq = eq && t[i] == t[0];
      VF_EXPECT(f(t.begin()) == (eq ? a : b) && f2(t.begin()) == (eq ? a : b), "pottsn-value", show(t));
      VF_EXPECT(g(t.begin()) == b, "constant-value", show(t));
      if(seen.insert(t).second) { VF_EXPECT(s(t.begin()) == a, "sparse-untouched", show(t)); s.insert(t.begin(), 1000.0 + k); VF_EXPECT(s(t.begin()) == 1000.0 + k, "sparse-value", show(t)); 
         std::vector<size_t> back(t.size()); s.keyToCoordinate(s.coordinateToKey(t.begin()), back.begin()); VF_EXPECT(back == t, "sparse-key", show(t) << show(back)); }
   }
}
namespace {
template<class FN> void singleSite(Ctx& c, FN& f, size_t n) {
   std::vector<double> tab(n); for(size_t i = 0; i < n; ++i) { tab[i] = drawValue(c.rng, DYADIC); f(&i) = tab[i]; c.digestD(tab[i]); }
   FN g(f); std::vector<double> before(tab);
   for(size_t k = 0; k < 5; ++k) { const size_t i = c.rng.below(n); tab[i] = drawValue(c.rng, DYADIC); f(&i) = tab[i]; }
   FN h; h = f;
   for(size_t i = 0; i < n; ++i) { const FN& cf = f; const FN& cg = g; const FN& ch = h;
      VF_EXPECT(cf(&i) == tab[i], "value", i); VF_EXPECT(cg(&i) == before[i], "copy-follows", i); VF_EXPECT(ch(&i) == tab[i], "assigned", i); }
   VF_EXPECT(f.size() == n && f.dimension() == 1 && f.shape(0) == n, "shape", f.size());
   size_t z = c.rng.below(n); h(&z) = 77.0; VF_EXPECT(f(&z) == tab[z], "assigned-shares", z);
}
}
VF_SCENARIO(single_site, 200, 4000) {
   const int k = (int)c.rng.below(4); c.digest(k); c.desc << "storage " << k;
   if(k == 0) { opengm::StaticSingleSiteFunction<double, 5, opengm::StackStorage> f; singleSite(c, f, 5); VF_EXPECT(f.min() <= f.max(), "order", ""); }
   if(k == 1) { opengm::StaticSingleSiteFunction<double, 3, opengm::HeapStorage> f; singleSite(c, f, 3); }
   if(k == 2) { opengm::StaticSingleSiteFunction<double, 1, opengm::HeapStorage> f; singleSite(c, f, 1); }
   if(k == 3) {
      typedef opengm::DynamicSingleSiteFunction<double> D; const size_t n = 1 + c.rng.below(6); c.digest(n);
      D f(n); singleSite(c, f, n);
      // a history of assigns and resizes over a pool of objects
      std::vector<D*> pool; std::vector<std::vector<double> > sh;
      for(size_t i = 0; i < 3; ++i) { const size_t m = c.rng.below(4); pool.push_back(new D(m, 1.5)); sh.push_back(std::vector<double>(m, 1.5)); }
      for(size_t s = 0; s < 20; ++s) {
         const size_t a = c.rng.below(3), b = c.rng.below(3), m = c.rng.below(5); const double v = drawValue(c.rng, DYADIC); c.digest(a * 7 + b * 3 + m);
         switch(c.rng.below(5)) {
         case 0: *pool[a] = *pool[b]; sh[a] = sh[b]; break;
         case 1: pool[a]->assign(m, v); sh[a].assign(m, v); break;
         case 2: { D* q = new D(*pool[b]); delete pool[a]; pool[a] = q; sh[a] = std::vector<double>(sh[b]); break; }
         case 3: if(!sh[a].empty()) { const size_t i = c.rng.below(sh[a].size()); (*pool[a])[i] = v; sh[a][i] = v; } break;
         case 4: { const size_t old = sh[a].size(); pool[a]->assign(m); if(old != m) { sh[a].assign(m, 0); for(size_t i = 0; i < m; ++i) (*pool[a])[i] = 0; } break; }
         }
         for(size_t i = 0; i < 3; ++i) { VF_CHECK(pool[i]->size() == sh[i].size() && pool[i]->shape(0) == sh[i].size(), "dynamic-size", i); for(size_t x = 0; x < sh[i].size(); ++x) VF_CHECK((*pool[i])(&x) == sh[i][x], "dynamic-value", i << " " << x); }
      }
      for(size_t i = 0; i < 3; ++i) delete pool[i];
   }
}
VF_SCENARIO(field_of_experts, 200, 4000) {
   typedef opengm::FoEFunction<double, size_t, size_t> FoE;
   const size_t ne = 1 + c.rng.below(4), ord = 1 + c.rng.below(4), nl = 1 + c.rng.below(4);
   std::vector<double> e(ne * ord), al(ne); for(size_t i = 0; i < e.size(); ++i) { e[i] = drawValue(c.rng, REALS) / 5; c.digestD(e[i]); } for(size_t i = 0; i < ne; ++i) al[i] = drawValue(c.rng, REALS);
   c.desc << "experts " << ne << " order " << ord << " labels " << nl;
   FoE f = c.rng.chance(0.5) ? FoE(e, al, nl) : FoE(e.begin(), al.begin(), nl, ord, ne);
   std::vector<size_t> sh(ord, nl), t(ord, 0);
   FoE def; bool useDef = c.rng.chance(0.3);
   const double a_alpha[3] = {0.586612685392731, 1.157638405566669, 0.846059486257292};
   const double a_expert[12] = {-0.0582774013402734, 0.0339010363051084, -0.0501593018104054, 0.0745568557931712, 0.0492112815304123, -0.0307820846538285, -0.123247230948424, 0.104812330861557, 0.0562633568728865, 0.0152832583489560, -0.0576215592718086, -0.0139673758425540};
   if(useDef) { f.setDefault(); e.assign(a_expert, a_expert + 12); al.assign(a_alpha, a_alpha + 3); sh.assign(4, 256); }
   VF_CHECK(f.dimension() == sh.size() && f.size() == prod(sh), "size", f.size());
   for(size_t i = 0; i < sh.size(); ++i) VF_CHECK(f.shape(i) == sh[i], "shape", i);
   FoE g(f), h; h = f;
   const size_t od = sh.size();
   for(size_t k = 0; k < (useDef ? 20 : prod(sh)); ++k) {
      if(useDef) { t.resize(4); for(size_t i = 0; i < 4; ++i) t[i] = c.rng.below(256); } else t = tupleAt(sh, k);
      double v = 0; for(size_t x = 0; x < al.size(); ++x) { double dot = 0; for(size_t j = 0; j < od; ++j) dot += e[x * od + j] * t[j]; v += al[x] * std::log(1 + 0.5 * dot * dot); }
      VF_CHECK(close(f(t.begin()), v), useDef ? "default-experts" : "value", f(t.begin()) << " expected " << v << " at " << show(t));
      VF_CHECK(close(g(t.begin()), v) && close(h(t.begin()), v), "copy", show(t));
   }
}
VF_SCENARIO(unary_loss, 300, 6000) {
   typedef opengm::UnaryLossFunction<double, size_t, size_t> U;
   const size_t n = 1 + c.rng.below(6), gt = c.rng.below(n); const double mul = drawValue(c.rng, DYADIC); const int kind = (int)c.rng.below(6);
   c.desc << "loss " << kind << " labels " << n << " gt " << gt; c.digest(kind); c.digest(n * 10 + gt); c.digestD(mul);
   U::SharedMultiplers sm; const size_t sh[2] = {n, n};
   if(kind == 3) sm.labelMult_.resize(sh, sh + 2); else sm.labelMult_.resize(sh, sh + 1);
   for(size_t i = 0; i < sm.labelMult_.size(); ++i) sm.labelMult_(i) = drawValue(c.rng, DYADIC);
   U f(n, gt, (U::LossType)kind, mul, sm, false);
   VF_EXPECT(f.dimension() == 1 && f.shape(0) == n && f.size() == n, "shape", "");
   for(size_t l = 0; l < n; ++l) {
      const double diff = l == gt ? 0 : 1, dist = std::fabs((double)l - (double)gt); double v = 0;
      switch(kind) { case 0: v = -mul * diff; break; case 1: v = mul * diff * sm.labelMult_(l); break; case 2: v = mul * diff * sm.labelMult_(gt); break;
         case 3: v = mul * diff * sm.labelMult_(l, gt); break; case 4: v = mul * dist; break; case 5: v = mul * dist * dist; break; }
      VF_EXPECT(f(&l) == v, "value", f(&l) << " expected " << v << " label " << l);
   }
}
VF_SCENARIO(defaults, 30, 100) {
   // documented default arguments
   const size_t a = 1 + c.rng.below(4), b = 1 + c.rng.below(4); c.digest(a * 10 + b); c.desc << a << "x" << b;
   F::AbsDiff f(a, b); F::SqDiff g(a, b); size_t t[2];
   for(t[0] = 0; t[0] < a; ++t[0]) for(t[1] = 0; t[1] < b; ++t[1]) { const double d = (double)t[0] - (double)t[1];
      VF_EXPECT(f(t) == std::fabs(d), "absolute", f(t)); VF_EXPECT(g(t) == d * d, "squared", g(t)); }
   VF_EXPECT(g.weight() == 1, "weight", "");
   F::Explicit s(3.25); size_t z = 0; VF_EXPECT(s.dimension() == 0 && s.size() == 1 && s(&z) == 3.25, "scalar", "");
}
