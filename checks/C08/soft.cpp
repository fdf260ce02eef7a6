#include <models.hpp>
#include <vf.hpp>
#include <opengm/opengm.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
using namespace vf;
namespace {
double dy(Rng& r) { return r.range(-16, 16) / 4.0; }
template<class F> void compare(Ctx& c, const F& f, const std::vector<size_t>& sh, const std::vector<double>& tab, const std::string& k) {
   typedef typename F::LabelType L; VF_CHECK(f.dimension() == sh.size() && (size_t)f.size() == prod(sh), k + "/dimension", f.dimension() << " " << (size_t)f.size());
   for(size_t i = 0; i < sh.size(); ++i) VF_CHECK((size_t)f.shape(i) == sh[i], k + "/shape", i << " " << (size_t)f.shape(i));
   std::vector<size_t> t(sh.size(), 0); size_t i = 0; do { std::vector<L> q(t.begin(), t.end()); VF_CHECK(close((double)f(q.begin()), tab[i], 1e-5, 1e-5) && close((double)f(&q[0]), tab[i], 1e-5, 1e-5), k + "/value", (double)f(q.begin()) << " expected " << tab[i] << " at " << show(t)); ++i; } while(nextTuple(t, sh));
   c.count("functions compared: " + k);
}
template<class F> void checkCopies(Ctx& c, F* f, const std::vector<size_t>& sh, const std::vector<double>& tab, const std::string& k) { F a(*f), b; b = *f; compare(c, *f, sh, tab, k); delete f; compare(c, a, sh, tab, k + "-copied"); compare(c, b, sh, tab, k + "-assigned"); }
std::vector<size_t> shape(Rng& r, bool same) { std::vector<size_t> sh(1 + r.below(4)); do for(size_t i = 0; i < sh.size(); ++i) sh[i] = 1 + r.below(4); while(prod(sh) > 128); if(!same) wideShape(r, sh, 0.15); if(same) std::fill(sh.begin(), sh.end(), sh[0]); return sh; }
template<class T, class I, class L> void cost(Ctx& c) {
   typedef opengm::LabelCostFunction<T, I, L> F; Rng& r = c.rng; const bool same = r.chance(0.5); std::vector<size_t> sh = shape(r, same); const size_t mx = *std::max_element(sh.begin(), sh.end()); const bool single = r.chance(0.4);
   std::vector<T> co(mx, T(0)); const size_t lab = r.below(mx); for(size_t i = 0; i < mx; ++i) if(!single || i == lab) co[i] = r.chance(0.2) ? 0 : dy(r);
   std::vector<double> tab; std::vector<size_t> t(sh.size(), 0); do { std::set<size_t> u(t.begin(), t.end()); double s = 0; for(std::set<size_t>::iterator i = u.begin(); i != u.end(); ++i) s += co[*i]; tab.push_back(s); } while(nextTuple(t, sh));
   c.desc << "costs" << show(co) << " shape" << show(sh) << (single ? " single" : ""); c.digestV(sh); for(size_t i = 0; i < mx; ++i) c.digestD(co[i]); std::vector<L> s(sh.begin(), sh.end()); F* f;
   if(same && r.chance(0.6)) f = single ? new F((I)sh.size(), (L)sh[0], (L)lab, co[lab]) : new F((I)sh.size(), (L)sh[0], co.begin(), co.end());
   else f = single ? new F(s.begin(), s.end(), (L)lab, co[lab]) : new F(s.begin(), s.end(), co.begin(), co.end());
   checkCopies(c, f, sh, tab, "label-cost");
}
template<class T, class I, class L> void sum(Ctx& c) {
   typedef opengm::SumConstraintFunction<T, I, L> F; Rng& r = c.rng; const bool same = r.chance(0.5), share = r.chance(0.5); std::vector<size_t> sh = shape(r, same); const size_t mx = *std::max_element(sh.begin(), sh.end()); size_t n = 0; for(size_t i = 0; i < sh.size(); ++i) n += sh[i]; 
   std::vector<T> co(share ? mx : n); for(size_t i = 0; i < co.size(); ++i) co[i] = r.chance(0.2) ? 0 : dy(r); const double lambda = r.chance(0.2) ? 1 : dy(r), bound = dy(r);
   std::vector<double> tab; std::vector<size_t> t(sh.size(), 0); do { double v = 0; size_t off = 0; for(size_t i = 0; i < sh.size(); ++i) { v += co[share ? t[i] : off + t[i]]; off += sh[i]; } tab.push_back(std::fabs(v - bound) * lambda); } while(nextTuple(t, sh));
   c.desc << "coefficients" << show(co) << " shape" << show(sh) << (share ? " shared" : "") << " lambda " << lambda << " bound " << bound; c.digestV(sh); for(size_t i = 0; i < co.size(); ++i) c.digestD(co[i]); c.digestD(bound); std::vector<L> s(sh.begin(), sh.end());
   F* f = same && r.chance(0.6) ? new F((I)sh.size(), (L)sh[0], co.begin(), co.end(), share, (T)lambda, (T)bound) : new F(s.begin(), s.end(), co.begin(), co.end(), share, (T)lambda, (T)bound);
   checkCopies(c, f, sh, tab, "label-sum");
}
}
VF_SCENARIO(label_cost, 300, 10000) { cost<double, size_t, size_t>(c); }
VF_SCENARIO(label_cost_float, 150, 5000) { cost<float, unsigned, unsigned char>(c); }
VF_SCENARIO(label_sum, 300, 10000) { sum<double, size_t, size_t>(c); }
VF_SCENARIO(label_sum_float, 150, 5000) { sum<float, unsigned, unsigned char>(c); }
