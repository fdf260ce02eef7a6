// Models over many function types: every operation must reach the function the
// factor was given, wherever its type stands in the model's type list.
#pragma once
#include "gm.hpp"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/graphicalmodel_explicit_storage.hxx>
#include <opengm/functions/function_properties_base.hxx>
#include <opengm/functions/function_properties.hxx>
#include <opengm/utilities/canonical_view.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
namespace c48 {
using namespace vf;

struct Table { int kind; std::vector<size_t> shape; std::vector<double> v; size_t serial;
   double at(const std::vector<size_t>& x) const { size_t o = 0, s = 1; for(size_t j = 0; j < shape.size(); ++j) { o += s * x[j]; s *= shape[j]; } return v[o]; } };

// a function type of its own for every K; all of them hold a table
template<int K, class T, class I, class L> class Tag : public opengm::FunctionBase<Tag<K, T, I, L>, T, I, L> {
public:
   typedef T ValueType; typedef I IndexType; typedef L LabelType; typedef T value_type;
   enum { kind = K };
   Tag() : v_(1, T(0)), serial_(0) {}
   explicit Tag(const Table& t) : shape_(t.shape.begin(), t.shape.end()), v_(t.v.begin(), t.v.end()), serial_(t.serial) {}
   template<class IT> T operator()(IT x) const { size_t o = 0, s = 1; for(size_t j = 0; j < shape_.size(); ++j, ++x) { o += s * (size_t)*x; s *= shape_[j]; } return v_.at(o); }
   size_t size() const { return v_.size(); }
   size_t dimension() const { return shape_.size(); }
   L shape(size_t j) const { return shape_.at(j); }
   size_t serial() const { return serial_; }
   void set(size_t i, T v) { v_.at(i) = v; }
private:
   std::vector<L> shape_; std::vector<T> v_; size_t serial_;
};
// the list of N types whose i-th type is Tag<(i*S+O) % M>
template<int I0, int N, int S, int O, int M, class T, class I, class L> struct MakeList { typedef opengm::meta::TypeList<Tag<(I0 * S + O) % M, T, I, L>, typename MakeList<I0 + 1, N, S, O, M, T, I, L>::type> type; };
template<int N, int S, int O, int M, class T, class I, class L> struct MakeList<N, N, S, O, M, T, I, L> { typedef opengm::meta::ListEnd type; };

// add the function whose type stands at position `pos` of the list
template<class GM, class LIST, int P = 0> struct Adder { static typename GM::FunctionIdentifier add(GM& gm, size_t pos, const Table& t, int how) {
   if(pos != (size_t)P) return Adder<GM, typename LIST::TailType, P + 1>::add(gm, pos, t, how);
   typedef typename LIST::HeadType F; F f(t);
   if(how == 1) return gm.addSharedFunction(f);
   if(how == 2) { std::pair<typename GM::FunctionIdentifier, F&> r = gm.addFunctionWithRefReturn(f); return r.first; }
   if(how == 3) { Table z = t; for(size_t i = 0; i < z.v.size(); ++i) z.v[i] = 0; std::pair<typename GM::FunctionIdentifier, F&> r = gm.addFunctionWithRefReturn(F(z)); for(size_t i = 0; i < t.v.size(); ++i) r.second.set(i, (typename F::ValueType)t.v[i]); return r.first; }
   return gm.addFunction(f); } };
template<class GM, int P> struct Adder<GM, opengm::meta::ListEnd, P> { static typename GM::FunctionIdentifier add(GM&, size_t, const Table&, int) { throw std::logic_error("position"); } };
// tag number at a position, and position of a tag number
template<class LIST> struct Kinds { static void get(std::vector<int>& k) { k.push_back(LIST::HeadType::kind); Kinds<typename LIST::TailType>::get(k); } };
template<> struct Kinds<opengm::meta::ListEnd> { static void get(std::vector<int>&) {} };
// call g(function as stored in the model) through getFunction
template<class GM, class LIST, int P = 0> struct Stored { template<class G> static void call(GM& gm, const typename GM::FunctionIdentifier& id, G& g) {
   if((int)id.functionType == P) { g(gm.template getFunction<typename LIST::HeadType>(id)); return; } Stored<GM, typename LIST::TailType, P + 1>::call(gm, id, g); } };
template<class GM, int P> struct Stored<GM, opengm::meta::ListEnd, P> { template<class G> static void call(GM&, const typename GM::FunctionIdentifier&, G&) { throw std::logic_error("type id"); } };

template<class T> struct Facts { int b[8]; double mn, mx, sm, pr; std::vector<double> inOrder, switched, any, uniq; int kind; size_t serial; };
template<class T> struct Log { std::vector<double>* o; void operator()(const T v) { o->push_back((double)v); } };
// 1 and 0 as answered, -1 where the question is refused
template<class F> void predicates(const F& f, int* b) {
   try { b[0] = f.isPotts(); } catch(const std::exception&) { b[0] = -1; }
   try { b[1] = f.isGeneralizedPotts(); } catch(const std::exception&) { b[1] = -1; }
   try { b[2] = f.isSubmodular(); } catch(const std::exception&) { b[2] = -1; }
   try { b[3] = f.isSquaredDifference(); } catch(const std::exception&) { b[3] = -1; }
   try { b[4] = f.isTruncatedSquaredDifference(); } catch(const std::exception&) { b[4] = -1; }
   try { b[5] = f.isAbsoluteDifference(); } catch(const std::exception&) { b[5] = -1; }
   try { b[6] = f.isTruncatedAbsoluteDifference(); } catch(const std::exception&) { b[6] = -1; }
   try { b[7] = f.isLinearConstraint(); } catch(const std::exception&) { b[7] = -1; }
}
template<class F, class T> void factsOf(const F& f, Facts<T>& r) {
   predicates(f, r.b);
   r.mn = (double)f.min(); r.mx = (double)f.max(); r.sm = (double)f.sum(); r.pr = 0;
   Log<T> l; l.o = &r.inOrder; f.forAllValuesInOrder(l); l.o = &r.switched; f.forAllValuesInSwitchedOrder(l); l.o = &r.any; f.forAllValuesInAnyOrder(l); l.o = &r.uniq; f.forAtLeastAllUniqueValues(l);
}
template<class T, class I, class L> struct WhoIs { int kind; size_t serial, calls; WhoIs() : kind(-1), serial(0), calls(0) {}
   template<int K> void operator()(const Tag<K, T, I, L>& f) { kind = K; serial = f.serial(); ++calls; } };
template<class T, class I, class L> struct WhoIsVi { int kind; size_t serial; std::vector<size_t> vi; WhoIsVi() : kind(-1), serial(0) {}
   template<class IT, int K> void operator()(IT b, IT e, const Tag<K, T, I, L>& f) { kind = K; serial = f.serial(); for(; b != e; ++b) vi.push_back(*b); } };
template<class T> struct StoredFacts { Facts<T> r; template<class F> void operator()(F& f) { r.kind = F::kind; r.serial = f.serial(); factsOf(static_cast<const F&>(f), r); } };

inline Table randTable(Rng& r, const std::vector<size_t>& sh, bool positive) {
   Table t; t.shape = sh; t.v.resize(prod(sh)); const int style = r.below(8); static size_t serial = 0; t.serial = ++serial; t.kind = style;
   const double a = r.range(positive ? 1 : -4, 5), b = r.range(positive ? 1 : -4, 5), cap = r.range(1, 3), w = r.range(1, 3);
   std::vector<size_t> x(sh.size(), 0);
   for(size_t i = 0; i < t.v.size(); ++i) {
      bool eq = true; for(size_t j = 1; j < x.size(); ++j) eq = eq && x[j] == x[0];
      const double d = sh.size() > 1 ? std::fabs((double)x[0] - (double)x[1]) : 0;
      double v = r.range(positive ? 1 : -6, 6);
      if(style == 1) v = eq ? a : b; else if(style == 2) v = w * d * d; else if(style == 3) v = w * d; else if(style == 4) v = w * std::min(d * d, cap); else if(style == 5) v = w * std::min(d, cap); else if(style == 6) v = a;
      if(positive && v <= 0) v = 1;
      t.v[i] = v; nextTuple(x, sh);
   }
   return t;
}
struct Fac { std::vector<size_t> vars, shape; std::vector<double> vals; };
struct Ref { std::vector<size_t> labels; std::vector<Fac> f;
   RefModel model() const { RefModel m; m.labels = labels; for(size_t i = 0; i < f.size(); ++i) { RefFactor g; g.vars = f[i].vars; g.tab = f[i].vals; m.f.push_back(g); } return m; } };
struct Sample { Ref ref; std::vector<Table> fn; std::vector<size_t> pos, of; };
inline Sample randSample(Ctx& c, size_t N, bool positive) {
   Rng& r = c.rng; Sample s; const size_t V = 1 + r.below(6); s.ref.labels.resize(V); const bool same = r.chance(0.5); const size_t l0 = 2 + r.below(2);
   for(size_t v = 0; v < V; ++v) s.ref.labels[v] = same ? l0 : 1 + r.below(4);
   const size_t F = r.below(3 * N < 24 ? 3 * N + 2 : N + 10);
   for(size_t i = 0; i < F; ++i) {
      std::vector<size_t> sc = randScope(r, V, r.chance(0.06) ? 0 : std::min<size_t>(V, 1 + r.below(3))), sh; for(size_t j = 0; j < sc.size(); ++j) sh.push_back(s.ref.labels[sc[j]]);
      size_t k = s.fn.size(); if(r.chance(0.25)) for(size_t q = 0; q < s.fn.size(); ++q) if(s.fn[q].shape == sh) k = q;
      if(k == s.fn.size()) { s.fn.push_back(randTable(r, sh, positive)); s.pos.push_back(r.below(N)); }
      s.of.push_back(k); Fac f; f.vars = sc; f.shape = sh; f.vals = s.fn[k].v; s.ref.f.push_back(f);
   }
   // functions no factor uses are legal too
   for(size_t q = r.below(3); q > 0; --q) { std::vector<size_t> sh(r.below(3), 2); s.fn.push_back(randTable(r, sh, positive)); s.pos.push_back(r.below(N)); }
   return s;
}
template<class GM> void fill(Ctx& c, GM& gm, const Sample& s, std::vector<typename GM::FunctionIdentifier>& id, std::vector<size_t>& count, const char* tag) {
   typedef typename GM::FunctionTypeList LIST;
   for(size_t k = 0; k < s.fn.size(); ++k) {
      const int how = c.rng.chance(0.6) ? 0 : 1 + c.rng.below(3);
      typename GM::FunctionIdentifier f = Adder<GM, LIST>::add(gm, s.pos[k], s.fn[k], how); id.push_back(f);
      VF_EXPECT(f.functionType == s.pos[k], std::string(tag) + "/type-id", "added function has type id " << (size_t)f.functionType << ", its type stands at " << s.pos[k]);
      VF_EXPECT(how == 1 ? f.functionIndex <= count[s.pos[k]] : f.functionIndex == count[s.pos[k]], std::string(tag) + "/function-index", "function number " << (size_t)f.functionIndex << " of its type, expected " << count[s.pos[k]]);
      if(f.functionIndex == count[s.pos[k]]) ++count[s.pos[k]];
   }
   for(size_t i = 0; i < s.ref.f.size(); ++i) gm.addFactor(id[s.of[i]], s.ref.f[i].vars.begin(), s.ref.f[i].vars.end());
}
inline std::vector<double> switchedOrder(const Fac& f) { // first coordinate runs slowest
   std::vector<double> o; std::vector<size_t> rs(f.shape.rbegin(), f.shape.rend()), x(rs.size(), 0); Table t; t.shape = f.shape; t.v = f.vals;
   for(size_t i = 0; i < f.vals.size(); ++i) { std::vector<size_t> y(x.rbegin(), x.rend()); o.push_back(t.at(y)); nextTuple(x, rs); } return o; }
inline std::vector<double> sorted(std::vector<double> v) { std::sort(v.begin(), v.end()); return v; }
inline std::vector<double> uniq(std::vector<double> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }

// everything a factor answers, against the table it was built from; `kinds` is the tag at each list position
template<class GM> void judgeModel(Ctx& c, GM& gm, const Sample& s, const std::vector<int>& kinds, const std::vector<int>& kindOfFn, const std::string& tag, bool serials = true) {
   typedef typename GM::ValueType T; typedef typename GM::IndexType I; typedef typename GM::LabelType L; typedef typename GM::FunctionTypeList LIST;
   VF_CHECK(gm.numberOfFactors() == s.ref.f.size() && gm.numberOfVariables() == s.ref.labels.size(), tag + "/size", "wrong number of factors or variables");
   for(size_t i = 0; i < s.ref.f.size(); ++i) {
      const Fac& f = s.ref.f[i]; const typename GM::FactorType& g = gm[i]; const size_t k = s.of[i];
      const size_t ft = g.functionType();
      VF_CHECK(ft < kinds.size() && kinds[ft] == kindOfFn[k], tag + "/factor-type", "factor " << i << " has function type " << ft << ", which is not the type it was given");
      c.count("factors"); c.seen(); const std::string at = ft >= 16 ? "late" : ft < 3 ? "early" : "middle"; c.count("factors of " + at + " types");
      VF_CHECK(g.numberOfVariables() == f.vars.size() && g.size() == f.vals.size(), tag + "/shape", "factor " << i << " size");
      for(size_t j = 0; j < f.vars.size(); ++j) VF_CHECK(g.variableIndex(j) == f.vars[j] && g.numberOfLabels(j) == f.shape[j] && g.shape(j) == f.shape[j], tag + "/shape", "factor " << i << " axis " << j);
      std::vector<size_t> x(f.shape.size(), 0); std::vector<L> xl(f.shape.size() + 1);
      for(size_t q = 0; q < f.vals.size(); ++q) { for(size_t j = 0; j < x.size(); ++j) xl[j] = (L)x[j]; const double v = (double)g(xl.begin()); VF_EXPECT(v == f.vals[q], tag + "/value", "factor " << i << " (type " << ft << ") at " << show(x) << " is " << v << ", the table says " << f.vals[q]); nextTuple(x, f.shape); }
      std::vector<T> o(f.vals.size() + 1, (T)-77); g.copyValues(o.begin()); VF_EXPECT(std::vector<double>(o.begin(), o.end() - 1) == f.vals && o.back() == (T)-77, tag + "/copyValues", "factor " << i << " type " << ft);
      const std::vector<double> sw = switchedOrder(f);
      g.copyValuesSwitchedOrder(o.begin()); VF_EXPECT(std::vector<double>(o.begin(), o.end() - 1) == sw && o.back() == (T)-77, tag + "/copyValuesSwitchedOrder", "factor " << i << " type " << ft);
      // the functors
      { Log<T> l; std::vector<double> a, b, d, e; l.o = &a; g.forAllValuesInOrder(l); l.o = &b; g.forAllValuesInSwitchedOrder(l); l.o = &d; g.forAllValuesInAnyOrder(l); l.o = &e; g.forAtLeastAllUniqueValues(l);
        VF_EXPECT(a == f.vals, tag + "/forAllValuesInOrder", "factor " << i << " type " << ft << " visited " << show(a) << " of " << show(f.vals));
        VF_EXPECT(b == sw, tag + "/forAllValuesInSwitchedOrder", "factor " << i << " type " << ft << " visited " << show(b) << " of " << show(sw));
        VF_EXPECT(sorted(d) == sorted(f.vals), tag + "/forAllValuesInAnyOrder", "factor " << i << " type " << ft << " visited " << show(d) << " of " << show(f.vals));
        VF_EXPECT(uniq(e) == uniq(f.vals), tag + "/forAtLeastAllUniqueValues", "factor " << i << " type " << ft << " visited " << show(e) << " of " << show(f.vals)); }
      // which function a functor is handed
      WhoIs<T, I, L> w; g.callFunctor(w); VF_EXPECT(w.calls == 1 && w.kind == kindOfFn[k], tag + "/callFunctor", "factor " << i << " of type " << ft << " handed over a function of kind " << w.kind << ", it has kind " << kindOfFn[k]);
      WhoIsVi<T, I, L> wv; g.callViFunctor(wv); VF_EXPECT(wv.kind == kindOfFn[k] && wv.vi == f.vars && wv.serial == w.serial, tag + "/callViFunctor", "factor " << i << " type " << ft);
      // predicates and reductions are the stored function's own
      typename GM::FunctionIdentifier id(g.functionIndex(), g.functionType()); StoredFacts<T> st; Stored<GM, LIST>::call(gm, id, st);
      VF_EXPECT(st.r.kind == kindOfFn[k] && st.r.inOrder == f.vals && st.r.serial == w.serial, tag + "/getFunction", "factor " << i << " type " << ft);
      int b[8]; predicates(g, b);
      static const char* names[8] = {"isPotts", "isGeneralizedPotts", "isSubmodular", "isSquaredDifference", "isTruncatedSquaredDifference", "isAbsoluteDifference", "isTruncatedAbsoluteDifference", "isLinearConstraint"};
      for(int q = 0; q < 8; ++q) { VF_EXPECT(b[q] == st.r.b[q], tag + "/" + names[q], "factor " << i << " type " << ft << " answers " << b[q] << ", its function " << st.r.b[q]); if(b[q] > 0) c.count(std::string("positive ") + names[q]); }
      double mn = f.vals[0], mx = f.vals[0], sm = 0, pr = 1; for(size_t q = 0; q < f.vals.size(); ++q) { mn = std::min(mn, f.vals[q]); mx = std::max(mx, f.vals[q]); sm += f.vals[q]; pr *= f.vals[q]; }
      VF_EXPECT((double)g.min() == mn, tag + "/min", "factor " << i << " type " << ft << ": " << (double)g.min() << " instead of " << mn);
      VF_EXPECT((double)g.max() == mx, tag + "/max", "factor " << i << " type " << ft << ": " << (double)g.max() << " instead of " << mx);
      VF_EXPECT((double)g.sum() == sm, tag + "/sum", "factor " << i << " type " << ft << ": " << (double)g.sum() << " instead of " << sm);
      const bool exact = std::fabs(pr) < (sizeof(T) == 4 ? 1e6 : 1e15);
      bool small = exact; { double p = 1; for(size_t q = 0; q < f.vals.size(); ++q) { p *= std::max(1.0, std::fabs(f.vals[q])); small = small && p < (sizeof(T) == 4 ? 1e6 : 1e15); } } // in any order of multiplication
      if(small) VF_EXPECT((double)g.product() == pr, tag + "/product", "factor " << i << " type " << ft << ": " << (double)g.product() << " instead of " << pr);
      VF_EXPECT((double)g.template valueProperty<opengm::ValueProperties::Minimum>() == mn, tag + "/valueProperty-min", "factor " << i << " type " << ft);
      VF_EXPECT((double)g.template valueProperty<opengm::ValueProperties::Maximum>() == mx, tag + "/valueProperty-max", "factor " << i << " type " << ft);
      VF_EXPECT((double)g.template valueProperty<opengm::ValueProperties::Sum>() == sm, tag + "/valueProperty-sum", "factor " << i << " type " << ft);
      if(small) VF_EXPECT((double)g.template valueProperty<opengm::ValueProperties::Product>() == pr, tag + "/valueProperty-product", "factor " << i << " type " << ft);
      if(f.shape.size() == 2) { // Potts: one value where labels agree, one where they differ
         bool potts = true; for(size_t q = 0; q < f.vals.size(); ++q) for(size_t p = 0; p < f.vals.size(); ++p) if((q % f.shape[0] == q / f.shape[0]) == (p % f.shape[0] == p / f.shape[0]) && f.vals[p] != f.vals[q]) potts = false;
         if(f.shape[0] > 1 && f.shape[1] > 1) VF_EXPECT(g.template binaryProperty<opengm::BinaryProperties::IsPotts>() == potts, tag + "/binaryProperty", "factor " << i << " type " << ft << " potts " << potts); }
      // the factor on its own
      typename GM::IndependentFactorType ind(g); bool same = ind.numberOfVariables() == f.vars.size() && ind.size() == f.vals.size(); std::fill(x.begin(), x.end(), 0);
      std::vector<size_t> order(f.vars.size()); for(size_t q = 0; same && q < f.vals.size(); ++q) { for(size_t j = 0; j < x.size(); ++j) xl[j] = (L)x[j]; same = (double)ind(xl.begin()) == f.vals[q]; nextTuple(x, f.shape); }
      VF_EXPECT(same, tag + "/independent-factor", "factor " << i << " type " << ft);
   }
   std::vector<L> l(s.ref.labels.size() + 1, 0); const vf::Op op = opengm::meta::Compare<typename GM::OperatorType, opengm::Adder>::value ? SUM : PROD;
   for(int q = 0; q < 6; ++q) { std::vector<size_t> y(s.ref.labels.size()); for(size_t v = 0; v < y.size(); ++v) { y[v] = c.rng.below(s.ref.labels[v]); l[v] = (L)y[v]; }
      const double want = s.ref.model().eval(y, op); if(std::fabs(want) < (sizeof(T) == 4 ? 1e6 : 1e15)) VF_EXPECT((double)gm.evaluate(l.begin()) == want, tag + "/evaluate", "labeling " << show(y) << ": " << (double)gm.evaluate(l.begin()) << " instead of " << want); }
}
template<class GM> void counts(Ctx& c, const GM& gm, const std::vector<size_t>& n, const std::string& tag) {
   for(size_t p = 0; p < n.size(); ++p) VF_EXPECT(gm.numberOfFunctions(p) == n[p], tag + "/numberOfFunctions", "type " << p << ": " << (size_t)gm.numberOfFunctions(p) << " functions instead of " << n[p]);
   VF_MUST_THROW(gm.numberOfFunctions(n.size()), tag + "/numberOfFunctions-range", "a type id outside of the list was answered");
   VF_MUST_THROW(gm.numberOfFunctions(n.size() + 3), tag + "/numberOfFunctions-range", "a type id outside of the list was answered");
}
template<class M> bool sameTables(const M& gm, const Ref& m) {
   if(gm.numberOfFactors() != m.f.size()) return false;
   for(size_t i = 0; i < m.f.size(); ++i) { std::vector<size_t> x(m.f[i].shape.size(), 0); x.push_back(0); for(size_t q = 0; q < m.f[i].vals.size(); ++q) { if((double)gm[i](x.begin()) != m.f[i].vals[q]) return false; x.pop_back(); nextTuple(x, m.f[i].shape); x.push_back(0); } }
   return true;
}

// N types in an order given by stride S and offset O
template<int N, int S, int O, class T, class I, class L, class OP, int S2, int O2> void run(Ctx& c, const char* tag0) {
   typedef typename MakeList<0, N, S, O, N, T, I, L>::type LIST; typedef opengm::DiscreteSpace<I, L> Space; typedef opengm::GraphicalModel<T, OP, LIST, Space> GM;
   // the same types in another order and with two further ones
   typedef typename MakeList<0, N, S2, O2, N, T, I, L>::type PERM; typedef opengm::meta::TypeList<Tag<N + 1, T, I, L>, opengm::meta::TypeList<Tag<N, T, I, L>, PERM> > LIST2; typedef opengm::GraphicalModel<T, OP, LIST2, Space> GM2;
   const std::string tag(tag0);
   std::vector<int> kinds, kinds2; Kinds<LIST>::get(kinds); Kinds<LIST2>::get(kinds2);
   VF_CHECK((int)GM::NrOfFunctionTypes == N && kinds.size() == (size_t)N, tag + "/list-length", "length of the type list");
   Sample s = randSample(c, N, !opengm::meta::Compare<OP, opengm::Adder>::value); s.ref.model().digest(c); for(size_t k = 0; k < s.pos.size(); ++k) c.digest(s.pos[k]);
   c.desc << N << " types, labels " << show(s.ref.labels) << ", factors"; for(size_t i = 0; i < s.ref.f.size(); ++i) c.desc << " " << show(s.ref.f[i].vars) << "@type" << s.pos[s.of[i]];
   std::vector<int> kindOfFn; for(size_t k = 0; k < s.pos.size(); ++k) kindOfFn.push_back(kinds[s.pos[k]]);
   std::vector<L> sp(s.ref.labels.begin(), s.ref.labels.end()); Space space(sp.begin(), sp.end());
   GM gm(space); std::vector<typename GM::FunctionIdentifier> id; std::vector<size_t> n(N, 0); fill(c, gm, s, id, n, tag0);
   judgeModel(c, gm, s, kinds, kindOfFn, tag + "/built"); counts(c, gm, n, tag + "/built");
   if(s.ref.f.empty()) c.trivial();
   const int part = c.rng.below(6);
   if(part == 0) { GM b(gm); judgeModel(c, b, s, kinds, kindOfFn, tag + "/copied"); counts(c, b, n, tag + "/copied"); GM d; d = gm; judgeModel(c, d, s, kinds, kindOfFn, tag + "/assigned"); counts(c, d, n, tag + "/assigned"); c.count("copies"); }
   if(part == 1) { GM2 b; if(c.rng.chance(0.5)) { Sample o = randSample(c, N + 2, !opengm::meta::Compare<OP, opengm::Adder>::value); std::vector<L> so(o.ref.labels.begin(), o.ref.labels.end()); b = GM2(Space(so.begin(), so.end())); std::vector<typename GM2::FunctionIdentifier> i2; std::vector<size_t> n2(N + 2, 0); fill(c, b, o, i2, n2, tag0); }
      b = gm; judgeModel(c, b, s, kinds2, kindOfFn, tag + "/reordered"); std::vector<size_t> n2; for(size_t p = 0; p < kinds2.size(); ++p) { size_t q = std::find(kinds.begin(), kinds.end(), kinds2[p]) - kinds.begin(); n2.push_back(q < kinds.size() ? n[q] : 0); } counts(c, b, n2, tag + "/reordered"); c.count("assignments to another type list");
      // and back: works as the further types are empty
      GM d; d = b; judgeModel(c, d, s, kinds, kindOfFn, tag + "/back"); counts(c, d, n, tag + "/back");
      // a function of a type the other list lacks cannot be carried over
      Table t = randTable(c.rng, std::vector<size_t>(1, s.ref.labels[0]), true); typename GM2::FunctionIdentifier f = Adder<GM2, LIST2>::add(b, c.rng.below(2), t, 0); if(c.rng.chance(0.5)) { size_t v = 0; b.addFactor(f, &v, &v + 1); }
      VF_MUST_THROW(d = b, tag + "/lost-type", "a model holding a function of a type missing in the target was assigned"); judgeModel(c, d, s, kinds, kindOfFn, tag + "/kept-after-refusal"); c.count("refused assignments"); }
   if(part == 2) { opengm::ExplicitStorage<GM> st(gm), st2(st); bool ok = true; for(size_t i = 0; i < s.ref.f.size(); ++i) for(size_t q = 0; q < s.ref.f[i].vals.size(); ++q) ok = ok && (double)st[gm[i]][q] == s.ref.f[i].vals[q] && (double)st2[gm[i]][q] == s.ref.f[i].vals[q];
      VF_EXPECT(ok, tag + "/explicit-storage", "stored values differ from the tables"); c.count("explicit storages");
      typename opengm::ConvertToExplicit<GM>::ExplicitGraphicalModelType e; opengm::ConvertToExplicit<GM>::convert(gm, e); VF_EXPECT(sameTables(e, s.ref), tag + "/convert-explicit", "converted model differs"); c.count("explicit conversions"); }
   if(part == 3) { opengm::Bruteforce<GM, opengm::Minimizer> bf(gm); bf.infer(); std::vector<L> x; bf.arg(x); std::vector<size_t> y(x.begin(), x.end()); const vf::Op op = opengm::meta::Compare<OP, opengm::Adder>::value ? SUM : PROD;
      const double best = s.ref.model().best(false, op); if(std::fabs(best) < 1e6 && y.size() == s.ref.labels.size()) { VF_EXPECT(s.ref.model().eval(y, op) == best && (double)bf.value() == best, tag + "/solved", "optimum " << best << ", solver " << (double)bf.value() << " at " << show(y)); c.count("solved"); } }
   if(part == 4) view(c, gm, s, tag);
   if(part == 5) { // the model grows after copies were made
      GM b(gm); Table t = randTable(c.rng, std::vector<size_t>(1, s.ref.labels[0]), true); const size_t p = c.rng.below(N); typename GM::FunctionIdentifier f = Adder<GM, LIST>::add(b, p, t, 0); size_t v = 0; b.addFactor(f, &v, &v + 1);
      Sample s2 = s; s2.fn.push_back(t); s2.pos.push_back(p); s2.of.push_back(s2.fn.size() - 1); Fac rf; rf.vars.push_back(0); rf.shape = t.shape; rf.vals = t.v; s2.ref.f.push_back(rf); std::vector<int> k2 = kindOfFn; k2.push_back(kinds[p]);
      judgeModel(c, b, s2, kinds, k2, tag + "/grown"); judgeModel(c, gm, s, kinds, kindOfFn, tag + "/untouched"); counts(c, gm, n, tag + "/untouched"); c.count("grown"); }
}
// canonical views: one unary factor per variable, one factor per variable set, same objective
template<class GM, class V> void judgeView(Ctx& c, const GM& gm, const V& v, const Sample& s, const std::string& tag) {
   std::map<std::vector<size_t>, std::vector<size_t> > by; std::vector<bool> un(s.ref.labels.size(), false); bool constants = false;
   for(size_t i = 0; i < s.ref.f.size(); ++i) { by[s.ref.f[i].vars].push_back(i); if(s.ref.f[i].vars.empty()) constants = true; }
   for(size_t j = 0; j < un.size(); ++j) by[std::vector<size_t>(1, j)];
   VF_CHECK(v.numberOfVariables() == s.ref.labels.size() && v.numberOfFactors() == by.size(), tag + "/shape", "view has " << v.numberOfFactors() << " factors, " << by.size() << " variable sets");
   std::set<std::vector<size_t> > seen;
   for(size_t i = 0; i < v.numberOfFactors(); ++i) { std::vector<size_t> vars(v[i].variableIndicesBegin(), v[i].variableIndicesEnd()); VF_CHECK(by.count(vars) && seen.insert(vars).second, tag + "/sets", "view factor " << i << " on " << show(vars));
      std::vector<size_t> sh; for(size_t j = 0; j < vars.size(); ++j) sh.push_back(s.ref.labels[vars[j]]); std::vector<size_t> x(sh.size() + 1, 0);
      const std::vector<size_t>& parts = by[vars]; const bool sum = opengm::meta::Compare<typename GM::OperatorType, opengm::Adder>::value;
      for(size_t q = 0; q < prod(sh); ++q) { double want = sum ? 0 : 1; for(size_t p = 0; p < parts.size(); ++p) { if(sum) want += s.ref.f[parts[p]].vals[q]; else want *= s.ref.f[parts[p]].vals[q]; } VF_EXPECT((double)v[i](x.begin()) == want, tag + "/value", "view factor on " << show(vars) << " of " << parts.size() << " factors: " << (double)v[i](x.begin()) << " instead of " << want); x.pop_back(); nextTuple(x, sh); x.push_back(0); } }
   c.count("canonical views");
}
template<class GM> void view(Ctx& c, const GM& gm, const Sample& s, const std::string& tag) {
   opengm::CanonicalView<GM> a(gm); judgeView(c, gm, a, s, tag + "/view");
}
} // namespace c48
using namespace c48;
