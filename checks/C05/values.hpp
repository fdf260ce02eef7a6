#pragma once
// every predefined family: dimension, shape, size and value at every tuple
#include <list>

#include <functions.hpp>
namespace c05 {
using namespace vf;
template<class T, class I, class L> struct Monitor {
   Ctx& c; const FnSpec& s; 
   Monitor(Ctx& cc, const FnSpec& ss) : c(cc), s(ss) {}
   template<class F> void table(const F& f, const char* what) {
      const size_t d = s.shape.size(); const std::string k = std::string(fnName(s.kind)) + "/" + what;
      VF_CHECK(f.dimension() == d, k + "-dimension", f.dimension() << " for " << s.str());
      for(size_t i = 0; i < d; ++i) VF_CHECK((size_t)f.shape(i) == s.shape[i], k + "-shape", "shape(" << i << ")=" << (size_t)f.shape(i) << " for " << s.str());
      VF_CHECK((size_t)f.size() == s.tab.size(), k + "-size", f.size() << " for " << s.str());
      std::vector<size_t> t(d, 0); size_t n = 0;
      do {
         std::vector<L> a(t.begin(), t.end()); std::vector<int> b(t.begin(), t.end()); std::list<size_t> dummy;
         if(a.empty()) { a.push_back(0); b.push_back(0); }
         std::vector<size_t> q(b.begin(), b.end());
         const T want = T(s.tab[n]);
         const T v1 = f(q.begin()), v2 = f(&a[0]), v3 = f(static_cast<const std::vector<L>&>(a).begin());
         VF_CHECK(v1 == want && v2 == want && v3 == want, k + "-value", "at " << show(t) << " read " << v1 << "," << v2 << "," << v3 << " expected " << want << " for " << s.str());
         ++n;
      } while(nextTuple(t, s.shape));
      c.count(std::string("tables of ") + fnName(s.kind));
   }
   template<class F> void operator()(const F& f) {
      table(f, "direct");
      F copy(f); table(copy, "copy");
      F other = F(); other = f; table(other, "assigned");
      F self(copy); const F& alias = self; self = alias; table(self, "self-assigned");
      other = F(); table(copy, "copy-after-reset");
      table(f, "source-after-reset");
      opengm::ExplicitFunction<T, I, L> e; opengm::cloneAsExplicitFunction(f, e);
      if(!s.shape.empty()) table(e, "clone");
      other = f; table(other, "reassigned");
   }
};
template<class T, class I, class L> void values(Ctx& c, Style st, size_t maxL) {
   const size_t order = c.rng.below(6) == 0 ? 5 : c.rng.below(5);
   std::vector<size_t> sh = randLabels(c.rng, order, 1, order <= 2 ? maxL : order == 3 ? 5 : 3);
   const FnKind k = randKind(c.rng, order);
   FnSpec s = randSpec(c.rng, k, sh, st);
   c.desc << s.str(); c.digest(k); c.digestV(sh); for(size_t i = 0; i < s.tab.size(); ++i) c.digestD(s.tab[i]);
   Monitor<T, I, L> m(c, s); withFunction<T, I, L>(s, m);
}
} // namespace
