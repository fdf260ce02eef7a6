#include <list>
#include "common.hpp"
using namespace c18;
namespace {
template<class T, class I, class L> void run(Ctx& c) {
   typedef opengm::IndicatorVariable<I, L> IV; typedef opengm::LinearConstraint<T, I, L> LC; Rng& r = c.rng;
   const size_t nv = 1 + r.below(4); std::vector<size_t> labels; for(size_t i = 0; i < nv; ++i) labels.push_back(1 + r.below(3)); c.desc << "labels" << show(labels);
   // indicator variables
   std::vector<RefInd> ref; std::vector<IV> ind; const size_t n = 2 + r.below(6);
   for(size_t i = 0; i < n; ++i) { RefInd x = i && r.chance(0.4) ? ref[r.below(i)] : randInd(r, nv, labels, 0, 4);
      if(i && r.chance(0.3)) { if(r.chance(0.3)) x.op = r.below(3); else if(x.p.size()) x.p[r.below(x.p.size())].second = r.below(2); }
      for(size_t k = 0; k < x.p.size(); ++k) x.p[k].second = std::min(x.p[k].second, labels[x.p[k].first] - 1);
      ref.push_back(x); ind.push_back(makeInd<IV>(r, x)); c.desc << " " << x.str(); c.digest(x.op); for(size_t k = 0; k < x.p.size(); ++k) c.digest(x.p[k].first * 8 + x.p[k].second); }
   std::vector<size_t> l(nv, 0);
   do for(size_t i = 0; i < n; ++i) { std::vector<L> q(l.begin(), l.end()); VF_EXPECT(ind[i](q.begin()) == ref[i].at(l) && ind[i](&q[0]) == ref[i].at(l), "indicator/value", ref[i].str() << " at " << show(l)); } while(nextTuple(l, labels));
   for(size_t i = 0; i < n; ++i) { VF_EXPECT(sameInd(ind[i], ref[i]), "indicator/pairs", ref[i].str());
      for(size_t j = 0; j < n; ++j) { const bool eq = ref[i].key() == ref[j].key(); const IV &a = ind[i], &b = ind[j];
         VF_EXPECT((a == b) == eq && (a != b) == !eq, "indicator/equality", ref[i].str() << " " << ref[j].str());
         VF_EXPECT((a < b) == (b > a) && (a <= b) == (b >= a) && (a <= b) == !(b < a) && (a < b) + (b < a) + eq == 1, "indicator/order", ref[i].str() << " " << ref[j].str());
         for(size_t k = 0; k < n; ++k) VF_EXPECT(!(a < b && b < ind[k]) || a < ind[k], "indicator/transitive", ref[i].str() << " " << ref[j].str() << " " << ref[k].str()); } }
   { std::set<IV> s(ind.begin(), ind.end()); std::set<std::pair<int, std::multiset<std::pair<size_t, size_t> > > > t; for(size_t i = 0; i < n; ++i) t.insert(ref[i].key()); VF_EXPECT(s.size() == t.size(), "indicator/set", s.size() << " expected " << t.size()); }
   c.count("indicator variables", n);
   // constraints, changed in place several times
   RefCon x = randCon(r, nv, labels, 0, 5, 0, 4); c.desc << " | " << x.str(); x.digest(c); LC k = makeCon<LC>(r, x);
   for(int step = 0; step < 5; ++step) {
      const std::string d = conDiff(k, x); VF_CHECK(d.empty(), "constraint/" + d, x.str() << " step " << step);
      std::vector<size_t> t(nv, 0); do { std::vector<L> q(t.begin(), t.end()); VF_CHECK((double)k(q.begin()) == x.weight(x.lhs(t)), "constraint/violation", (double)k(q.begin()) << " expected " << x.weight(x.lhs(t)) << " at " << show(t) << " of " << x.str()); } while(nextTuple(t, labels));
      LC copy(k); RefCon old = x;
      switch(r.below(4)) {
      case 0: x.bound = dy(r); k.setBound(x.bound); break;
      case 1: x.rel = r.below(3); k.setConstraintOperator(relOf<LC>(x.rel)); break;
      case 2: { RefInd v = x.v.size() && r.chance(0.5) ? x.v[r.below(x.v.size())] : randInd(r, nv, labels, 0, 3); const double w = dy(r); x.v.push_back(v); x.c.push_back(w); k.add(makeInd<IV>(r, v), w); break; }
      default: { RefCon y = randCon(r, nv, labels, 0, 3, 0, 3); k = makeCon<LC>(r, y); x = y; }
      }
      VF_EXPECT(conDiff(copy, old).empty(), "constraint/copy-unchanged", old.str()); c.count("constraint changes");
   }
}
}
VF_SCENARIO(double_size, 500, 20000) { run<double, size_t, size_t>(c); }
VF_SCENARIO(float_small, 300, 10000) { run<float, unsigned, unsigned char>(c); }
VF_SCENARIO(double_u16, 200, 10000) { run<double, unsigned short, unsigned>(c); }
