#pragma once
#include <functions.hpp>
#include <unistd.h>
#include <sys/stat.h>
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
namespace c10 {
using namespace vf;
// a scratch file inside the check's own working directory
struct Scratch { std::string dir, path; 
   Scratch() { char t[] = "/tmp/vf_c10_XXXXXX"; if(!mkdtemp(t)) throw std::logic_error("harness: no scratch directory"); dir = t; path = dir + "/m.h5"; H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }
   ~Scratch() { unlink(path.c_str()); unlink((dir + "/n.h5").c_str()); rmdir(dir.c_str()); } };
// structure beyond values: adjacency, order, and further use of the model
template<class GM> void wholeModel(Ctx& c, GM& gm, const RefModel& m, const std::string& k) {
   std::string why; VF_CHECK(sameModel(gm, m, &why), k + "/model", why);
   size_t order = 0; for(size_t i = 0; i < m.f.size(); ++i) order = std::max(order, m.f[i].vars.size());
   VF_CHECK(gm.factorOrder() == order, k + "/order", "factorOrder " << gm.factorOrder() << " expected " << order);
   for(size_t v = 0; v < m.labels.size(); ++v) { std::vector<size_t> w, g; for(size_t i = 0; i < m.f.size(); ++i) if(std::find(m.f[i].vars.begin(), m.f[i].vars.end(), v) != m.f[i].vars.end()) w.push_back(i);
      for(size_t i = 0; i < gm.numberOfFactors(v); ++i) g.push_back(gm.factorOfVariable(v, i)); VF_CHECK(g == w, k + "/adjacency", "variable " << v << " lists factors " << show(g) << " expected " << show(w)); }
   std::vector<size_t> l(m.labels.size(), 0); size_t n = 0;
   do { double e = 0; bool mult = false; for(size_t i = 0; i < m.f.size(); ++i) e += m.at(i, l); (void)mult; std::vector<typename GM::LabelType> q(l.begin(), l.end());
      const double base = (double)gm.evaluate(q.begin()), want = opengm::meta::Compare<typename GM::OperatorType, opengm::Multiplier>::value ? m.eval(l, PROD) : e;
      VF_CHECK(base == want || close(base, want, 1e-6, 1e-9), k + "/evaluate", base << " expected " << want << " at " << show(l)); } while(++n < 60 && nextTuple(l, m.labels));
   c.count("models compared"); c.count("factors compared", m.f.size());
}
template<class F> void sameFunction(Ctx& c, const F& f, const std::vector<size_t>& sh, const std::vector<double>& tab, const std::string& k) {
   VF_CHECK((size_t)f.dimension() == sh.size() && (size_t)f.size() == prod(sh), k + "/size", (size_t)f.dimension() << " " << (size_t)f.size() << " expected shape " << show(sh));
   for(size_t i = 0; i < sh.size(); ++i) VF_CHECK((size_t)f.shape(i) == sh[i], k + "/shape", (size_t)f.shape(i) << " expected " << show(sh));
   std::vector<size_t> t(sh.size(), 0); size_t i = 0;
   do { std::vector<size_t> q = t; q.push_back(0); const double v = (double)f(q.begin()); VF_CHECK(v == tab[i], k + "/value", v << " expected " << tab[i] << " at " << show(t)); ++i; } while(nextTuple(t, sh));
}
template<class F> std::vector<double> tableOf(const F& f, std::vector<size_t>& sh) {
   sh.clear(); for(size_t i = 0; i < (size_t)f.dimension(); ++i) sh.push_back((size_t)f.shape(i));
   std::vector<double> tab; std::vector<size_t> t(sh.size(), 0); do { std::vector<size_t> q = t; q.push_back(0); tab.push_back((double)f(q.begin())); } while(nextTuple(t, sh)); return tab; }
// f through index and value sequences of exactly the announced length, into an empty function and into one with other content
template<class F, class G> void roundTrip(Ctx& c, const F& f, const F& other, const std::string& k, G prepare) {
   typedef opengm::FunctionSerialization<F> S; typedef typename F::ValueType T; std::vector<size_t> sh; const std::vector<double> tab = tableOf(f, sh);
   const size_t ni = S::indexSequenceSize(f), nv = S::valueSequenceSize(f);
   std::vector<opengm::UInt64Type> i1(ni, 0), i2(ni, 9999); std::vector<T> v1(nv, T(0)), v2(nv, T(99));
   S::serialize(f, i1.begin(), v1.begin()); S::serialize(f, i2.begin(), v2.begin());
   VF_CHECK(i1 == i2 && v1 == v2, k + "/writes-all", "the sequences are not filled completely: " << show(i2) << show(v2));
   sameFunction(c, f, sh, tab, k + "/source");
   { F g; prepare(g); S::deserialize(i1.begin(), v1.begin(), g); prepare(g); sameFunction(c, g, sh, tab, k + "/restored");
     VF_CHECK(S::indexSequenceSize(g) == ni && S::valueSequenceSize(g) == nv, k + "/restored-lengths", S::indexSequenceSize(g) << " " << S::valueSequenceSize(g) << " expected " << ni << " " << nv);
     std::vector<opengm::UInt64Type> i3(ni, 7); std::vector<T> v3(nv, T(7)); S::serialize(g, i3.begin(), v3.begin()); VF_CHECK(i3 == i1 && v3 == v1, k + "/restored-sequence", "a restored function serialises to " << show(i3) << show(v3) << " from " << show(i1) << show(v1)); }
   { F g(other); S::deserialize(i1.begin(), v1.begin(), g); prepare(g); sameFunction(c, g, sh, tab, k + "/restored-over"); }
   c.count("function round trips: " + k); for(size_t i = 0; i < ni; ++i) c.digest(i1[i]); for(size_t i = 0; i < nv; ++i) c.digestD((double)v1[i]);
}
struct NoPrep { template<class F> void operator()(F&) const {} };
template<class F> void roundTrip(Ctx& c, const F& f, const F& other, const std::string& k) { roundTrip(c, f, other, k, NoPrep()); }
}
