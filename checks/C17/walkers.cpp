// C17: coordinate walkers, index iterators, canonical views, sorting and small functors.
#include "gm.hpp"
#include "functions.hpp"
#include <list>
#include <opengm/utilities/indexing.hxx>
#include <opengm/utilities/shape_accessor.hxx>
#include <opengm/utilities/subsequence_iterator.hxx>
#include <opengm/utilities/accessor_iterator.hxx>
#include <opengm/utilities/canonical_view.hxx>
#include <opengm/utilities/sorting.hxx>
#include <opengm/utilities/vector_view.hxx>
#include <opengm/utilities/functors.hxx>
#include <opengm/utilities/unsigned_integer_pow.hxx>
#include <opengm/utilities/metaprogramming.hxx>

namespace {
typedef std::vector<size_t> V;
std::vector<size_t> rshape(vf::Rng& r, size_t maxD, size_t minD = 1, size_t maxN = 600) {
   V s; do { s.resize(minD + r.below(maxD - minD + 1)); for(size_t i = 0; i < s.size(); ++i) s[i] = r.chance(0.15) ? 1 : 1 + r.below(4); } while(vf::prod(s) > maxN);
   return s;
}
template<class T> V vec(const T& t) { return V(t.begin(), t.end()); }

// shape accessor for iterator tests: any container of shapes
template<class It> struct Any { };
struct ByValue { // an accessor returning by value
   typedef int value_type; const std::vector<int>* v;
   ByValue(const std::vector<int>* p = 0) : v(p) {}
   size_t size() const { return v ? v->size() : 0; }
   const int operator[](const size_t j) const { return (*v)[j] * 3 + 1; }
   bool operator==(const ByValue& o) const { return v == o.v; }
};
struct ByRef { // an accessor returning references
   typedef std::string value_type; std::vector<std::string>* v;
   ByRef(std::vector<std::string>* p = 0) : v(p) {}
   size_t size() const { return v ? v->size() : 0; }
   std::string& operator[](const size_t j) { return (*v)[j]; }
   const std::string& operator[](const size_t j) const { return (*v)[j]; }
   bool operator==(const ByRef& o) const { return v == o.v; }
};
struct Meta { const char* name; bool ok; };
}

VF_SCENARIO(shapewalk, 300, 6000) {
   const V sh = rshape(c.rng, 6); const size_t d = sh.size();
   c.desc << vf::show(sh); c.digestV(sh);
   { opengm::ShapeWalker<V::const_iterator> w(sh.begin(), d); V t(d, 0); size_t n = 0;
     do { VF_CHECK(vec(w.coordinateTuple()) == t, "walker-order", vf::show(t)); ++w; ++n; } while(vf::nextTuple(t, sh));
     V end(d, 0); end[d - 1] = sh[d - 1]; VF_EXPECT(vec(w.coordinateTuple()) == end, "walker-end", "past the end");
     w.reset(); VF_EXPECT(vec(w.coordinateTuple()) == V(d, 0), "walker-reset", "reset");
     if(n > 1) { ++w; V one(d, 0); vf::nextTuple(one, sh); VF_EXPECT(vec(w.coordinateTuple()) == one, "walker-reset", "reset then increment"); } }
   { // last index fastest
     opengm::ShapeWalkerSwitchedOrder<V::const_iterator> w(sh.begin(), d); V rs(sh.rbegin(), sh.rend()), t(d, 0);
     do { V q(t.rbegin(), t.rend()); VF_CHECK(vec(w.coordinateTuple()) == q, "switched-order", vf::show(q)); ++w; } while(vf::nextTuple(t, rs)); }
   c.count("tuples walked", vf::prod(sh));
}
VF_SCENARIO(subshapewalk, 400, 8000) {
   const V sh = rshape(c.rng, 7, 1, 1500); const size_t d = sh.size();
   V idx(d); std::iota(idx.begin(), idx.end(), size_t(0)); c.rng.shuffle(idx); idx.resize(c.rng.below(d + 1));
   const bool sorted = c.rng.chance(0.6); if(sorted) std::sort(idx.begin(), idx.end());
   V val(idx.size()); for(size_t i = 0; i < idx.size(); ++i) val[i] = c.rng.below(sh[idx[i]]);
   c.desc << "shape " << vf::show(sh) << " fixed " << vf::show(idx) << " at " << vf::show(val); c.digestV(sh); c.digestV(idx); c.digestV(val);
   opengm::SubShapeWalker<V::const_iterator, V, V> w(sh.begin(), d, idx, val);
   std::vector<V> want; V t(d, 0);
   do { bool m = true; for(size_t i = 0; i < idx.size(); ++i) if(t[idx[i]] != val[i]) m = false; if(m) want.push_back(t); } while(vf::nextTuple(t, sh));
   VF_EXPECT(w.subSize() == want.size(), "sub-size", w.subSize() << " expected " << want.size());
   const size_t rounds = 2;
   for(size_t q = 0; q < rounds; ++q) {
      for(size_t i = 0; i < want.size(); ++i) { VF_CHECK(vec(w.coordinateTuple()) == want[i], "sub-walk", "step " << i << " got " << vf::show(vec(w.coordinateTuple())) << " expected " << vf::show(want[i])); if(i + 1 < want.size()) ++w; }
      w.resetCoordinate();
   }
   c.count(sorted ? "sorted fixed" : "unsorted fixed"); c.count("tuples walked", want.size());
   if(want.size() < 2) c.trivial();
}
VF_SCENARIO(jointwalk, 300, 6000) {
   // AB: sorted variables with their shape; A and B sorted subsequences
   const V sh = rshape(c.rng, 6); const size_t d = sh.size(); V vi(d); size_t cur = 0; for(size_t i = 0; i < d; ++i) { cur += c.rng.below(3); vi[i] = cur++; }
   V pa, pb; for(size_t i = 0; i < d; ++i) { if(c.rng.chance(0.6)) pa.push_back(i); if(c.rng.chance(0.6)) pb.push_back(i); }
   if(pa.empty()) pa.push_back(c.rng.below(d)); if(pb.empty()) pb.push_back(c.rng.below(d));
   V va, vb; for(size_t i = 0; i < pa.size(); ++i) va.push_back(vi[pa[i]]); for(size_t i = 0; i < pb.size(); ++i) vb.push_back(vi[pb[i]]);
   c.desc << "shape " << vf::show(sh) << " vars " << vf::show(vi) << " A " << vf::show(va) << " B " << vf::show(vb); c.digestV(sh); c.digestV(vi); c.digestV(pa); c.digestV(pb);
   opengm::TripleShapeWalker<V::const_iterator> w3(sh.begin(), d, vi, va, vb);
   opengm::DoubleShapeWalker<V::const_iterator> w2(sh.begin(), d, vi, va);
   V t(d, 0);
   do {
      V a, b; for(size_t i = 0; i < pa.size(); ++i) a.push_back(t[pa[i]]); for(size_t i = 0; i < pb.size(); ++i) b.push_back(t[pb[i]]);
      VF_CHECK(vec(w3.coordinateTupleAB()) == t && vec(w2.coordinateTupleAB()) == t, "joint-walk-order", vf::show(t));
      VF_CHECK(vec(w3.coordinateTupleA()) == a && vec(w3.coordinateTupleB()) == b, "joint-walk-parts", "at " << vf::show(t) << " got " << vf::show(vec(w3.coordinateTupleA())) << vf::show(vec(w3.coordinateTupleB())));
      VF_CHECK(vec(w2.coordinateTupleA()) == a, "joint-walk-parts", "double walker at " << vf::show(t));
      ++w3; ++w2;
   } while(vf::nextTuple(t, sh));
   // wraps to the start
   VF_EXPECT(vec(w3.coordinateTupleAB()) == V(d, 0) && vec(w3.coordinateTupleA()) == V(pa.size(), 0) && vec(w2.coordinateTupleA()) == V(pa.size(), 0), "joint-walk-wrap", "wrap");
}

// random-access iterator laws against an index into the known sequence
template<class It, class T> void accessorLaws(vf::Ctx& c, const It& begin, const std::vector<T>& ref, const char* what) {
   const size_t n = ref.size(); size_t pos = 0; It it = begin; const It end = begin + n;
   for(size_t s = 0; s < 30; ++s) {
      const size_t op = c.rng.below(11); c.count(std::string(what) + " op"); 
      switch(op) {
      case 0: if(pos < n) { It& r = ++it; ++pos; VF_EXPECT(&r == &it, "prefix-returns-self", what); } break;
      case 1: if(pos < n) { It o = it++; VF_EXPECT(size_t(o - begin) == pos, "postfix-value", what); ++pos; } break;
      case 2: if(pos > 0) { It& r = --it; --pos; VF_EXPECT(&r == &it, "prefix-returns-self", what); } break;
      case 3: if(pos > 0) { It o = it--; VF_EXPECT(size_t(o - begin) == pos, "postfix-value", what); --pos; } break;
      case 4: { size_t k = c.rng.below(n - pos + 1); it += k; pos += k; } break;
      case 5: { size_t k = c.rng.below(pos + 1); it -= k; pos -= k; } break;
      case 6: { size_t k = c.rng.below(n - pos + 1); it = it + k; pos += k; } break;
      case 7: { size_t k = c.rng.below(pos + 1); it = it - k; pos -= k; } break;
      case 8: it = begin; pos = 0; break;
      case 9: it = end; pos = n; break;
      default: { It o(it); it = o; } break;
      }
      VF_CHECK(size_t(it - begin) == pos, "iterator-difference", what << " at " << pos << " difference " << (it - begin));
      VF_CHECK(size_t(end - it) == n - pos, "iterator-difference", what);
      VF_CHECK((std::ptrdiff_t)(begin - it) == -(std::ptrdiff_t)pos, "iterator-difference", what);
      const It q = begin + c.rng.below(n + 1); const size_t qp = size_t(q - begin);
      VF_CHECK((it == q) == (pos == qp) && (it != q) == (pos != qp) && (it < q) == (pos < qp) && (it > q) == (pos > qp) && (it <= q) == (pos <= qp) && (it >= q) == (pos >= qp), "iterator-order", what << " " << pos << " vs " << qp);
      if(pos < n) { VF_CHECK(*it == ref[pos], "dereference", what << " at " << pos); const It k = it; VF_CHECK(*k == ref[pos], "constant-dereference", what << " at " << pos);
         const size_t j = c.rng.below(n - pos); VF_CHECK(it[j] == ref[pos + j], "subscript", what << " " << pos << "+" << j); VF_CHECK(k[j] == ref[pos + j], "constant-subscript", what << " " << pos << "+" << j); }
   }
   std::vector<T> all; for(It i = begin; i != end; ++i) all.push_back(*i);
   VF_EXPECT(all == ref, "traversal", what);
   std::vector<T> rng(begin, end); VF_EXPECT(rng == ref, "range-construction", what);
   c.digest(n);
}
VF_SCENARIO(iterators, 300, 6000) {
   std::vector<int> v(c.rng.below(9)); std::vector<int> ref; for(size_t i = 0; i < v.size(); ++i) { v[i] = (int)c.rng.range(-9, 9); ref.push_back(v[i] * 3 + 1); }
   std::vector<std::string> s(c.rng.below(9)); for(size_t i = 0; i < s.size(); ++i) s[i] = std::string(c.rng.below(40), 'x') + std::to_string(i);
   c.desc << "sizes " << v.size() << "," << s.size();
   accessorLaws(c, opengm::AccessorIterator<ByValue, true>(ByValue(&v)), ref, "by value");
   accessorLaws(c, opengm::AccessorIterator<ByRef, true>(ByRef(&s)), s, "by constant reference");
   accessorLaws(c, opengm::AccessorIterator<ByRef, false>(ByRef(&s)), s, "by reference");
   { // mixed constness, writing, arrow, clamping past the end
      typedef opengm::AccessorIterator<ByRef, false> M; typedef opengm::AccessorIterator<ByRef, true> K; 
      ByRef rs(&s); M m(rs); K k(rs);
      const size_t a = c.rng.below(s.size() + 1), b = c.rng.below(s.size() + 1); M x = m + a; K y = k + b;
      VF_EXPECT((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (y <= x) == (b <= a) && (x > y) == (a > b) && (y >= x) == (b >= a), "mixed-order", a << " " << b);
      VF_EXPECT((std::ptrdiff_t)(x - y) == (std::ptrdiff_t)a - (std::ptrdiff_t)b, "mixed-difference", a << " " << b);
      if(a < s.size()) { *x = "written"; VF_EXPECT(s[a] == "written" && x->size() == 7, "write-through", a); x[0] = "again"; VF_EXPECT(s[a] == "again", "write-through", a); const M cx = x; VF_EXPECT(cx->size() == 5, "arrow", a); }
      M z = m + a; z += s.size() + 3; VF_EXPECT(size_t(z - m) == s.size(), "clamped-at-end", z - m);
      VF_EXPECT((c.rng.below(s.size() + 1) + m) - m <= s.size(), "offset-plus-iterator", "");
   }
   { // subsequence iterator
      std::vector<double> seq(1 + c.rng.below(12)); for(size_t i = 0; i < seq.size(); ++i) seq[i] = c.rng.range(-50, 50);
      V ind(1 + c.rng.below(10)); for(size_t i = 0; i < ind.size(); ++i) ind[i] = c.rng.below(seq.size());
      std::vector<double> want; for(size_t i = 0; i < ind.size(); ++i) want.push_back(seq[ind[i]]);
      typedef opengm::SubsequenceIterator<std::vector<double>::const_iterator, V::const_iterator> S;
      S b(seq.begin(), ind.begin()), e(seq.begin(), ind.begin(), ind.size());
      VF_EXPECT(e - b == (long)ind.size() && b + (long)ind.size() == e, "subsequence-range", e - b);
      VF_EXPECT((b - e) == -(long)ind.size(), "subsequence-range", b - e);
      accessorLaws(c, b, want, "subsequence");
      S it = b; long pos = 0; const long n = (long)ind.size();
      for(size_t q = 0; q < 20; ++q) { long np = (long)c.rng.below(n + 1), k = np - pos; if(c.rng.chance(0.5)) { if(c.rng.chance(0.5)) it += k; else it -= -k; } else { if(c.rng.chance(0.5)) it = it + k; else it = it - (-k); } pos = np;
         VF_CHECK(it - b == pos, "subsequence-jump", it - b); if(pos < n) { VF_CHECK(*it == want[pos] && *(it.operator->()) == want[pos], "subsequence-value", pos); long j = c.rng.range(-pos, n - 1 - pos); VF_CHECK(it[j] == want[pos + j], "subsequence-subscript", j); } }
      S dflt; dflt = b; VF_EXPECT(dflt == b && !(dflt != b), "subsequence-assign", "");
      std::vector<double> sorted(b, e); std::sort(sorted.begin(), sorted.end()); VF_EXPECT(*std::max_element(b, e) == sorted.back() && *std::min_element(b, e) == sorted[0], "subsequence-algorithms", "");
   }
}

VF_SCENARIO(accessors, 200, 4000) {
   typedef opengm::GraphicalModel<double, opengm::Adder, vf::FnTypes<double, size_t, size_t>::All, opengm::DiscreteSpace<size_t, size_t> > GM;
   vf::MixedModel mm = vf::randMixed(c.rng, 1, 6, 1, 4, 4, 6, vf::SMALLINT); const GM gm = vf::buildMixed<GM>(c.rng, mm);
   V labels(gm.numberOfVariables()); for(size_t i = 0; i < labels.size(); ++i) labels[i] = c.rng.below(gm.numberOfLabels(i));
   c.desc << "vars " << gm.numberOfVariables() << " factors " << gm.numberOfFactors();
   for(size_t f = 0; f < gm.numberOfFactors(); ++f) {
      typedef GM::FactorType F; const F& fac = gm[f]; const size_t d = fac.numberOfVariables();
      V sh, vi, lb; for(size_t i = 0; i < d; ++i) { vi.push_back(fac.variableIndex(i)); sh.push_back(gm.numberOfLabels(vi[i])); lb.push_back(labels[vi[i]]); }
      c.digestV(sh); c.digestV(vi);
      accessorLaws(c, opengm::AccessorIterator<opengm::FactorShapeAccessor<F>, true>(opengm::FactorShapeAccessor<F>(fac)), sh, "factor shape");
      accessorLaws(c, opengm::AccessorIterator<opengm::FactorVariablesAccessor<F>, true>(opengm::FactorVariablesAccessor<F>(&fac)), vi, "factor variables");
      typedef opengm::GmLabelFactorLabelAccessor<F, V::const_iterator> A; accessorLaws(c, opengm::AccessorIterator<A, true>(A(fac, labels.begin())), lb, "factor labels");
      typedef opengm::SubsetAccessor<V::const_iterator, V::const_iterator> B; accessorLaws(c, opengm::AccessorIterator<B, true>(B(vi.begin(), vi.end(), labels.begin())), lb, "subset labels");
      accessorLaws(c, fac.shapeBegin(), sh, "factor shapeBegin"); VF_EXPECT(size_t(fac.shapeEnd() - fac.shapeBegin()) == d, "shape-range", d);
   }
   opengm::FactorShapeAccessor<GM::FactorType> none; VF_EXPECT(none.size() == 0, "empty-accessor", none.size());
   // function shape accessor
   typedef opengm::ExplicitFunction<double, size_t, size_t> E; const V sh = rshape(c.rng, 4); E e(sh.begin(), sh.end(), 1.0);
   accessorLaws(c, opengm::AccessorIterator<opengm::FunctionShapeAccessor<E>, true>(opengm::FunctionShapeAccessor<E>(e)), sh, "function shape");
   accessorLaws(c, e.functionShapeBegin(), sh, "functionShapeBegin");
}

namespace {
template<class GM, opengm::canonical_view::CloneOption CL> void canonical(vf::Ctx& c, const vf::MixedModel& mm, const char* what) {
   const GM gm = vf::buildMixed<GM>(c.rng, mm); typedef opengm::CanonicalView<GM, CL> CV;
   CV cv(gm); const size_t n = gm.numberOfVariables();
   c.count(what);
   VF_CHECK(cv.numberOfVariables() == n, "canonical-variables", cv.numberOfVariables());
   std::set<V> scopes; std::map<V, size_t> groups;
   for(size_t f = 0; f < gm.numberOfFactors(); ++f) { V v(gm[f].variableIndicesBegin(), gm[f].variableIndicesEnd()); if(v.size() != 1) ++groups[v]; }
   V unary(n, 0);
   for(size_t f = 0; f < cv.numberOfFactors(); ++f) {
      V v(cv[f].variableIndicesBegin(), cv[f].variableIndicesEnd());
      if(v.size() == 1) ++unary[v[0]]; else { VF_CHECK(scopes.insert(v).second, "canonical-duplicate-scope", vf::show(v)); VF_CHECK(groups.count(v), "canonical-scope", vf::show(v)); }
      // the merged factor is the combination of the originals with that scope
      V sh; for(size_t i = 0; i < v.size(); ++i) sh.push_back(gm.numberOfLabels(v[i])); V t(sh.size(), 0);
      do {
         double e = GM::OperatorType::template neutral<double>(); V q = t; if(q.empty()) q.push_back(0);
         for(size_t g = 0; g < gm.numberOfFactors(); ++g) if(V(gm[g].variableIndicesBegin(), gm[g].variableIndicesEnd()) == v) GM::OperatorType::op((double)gm[g](q.begin()), e);
         VF_CHECK(vf::close(cv[f](q.begin()), e), "canonical-factor-value", what << " factor " << f << " at " << vf::show(t) << " is " << cv[f](q.begin()) << " expected " << e);
      } while(vf::nextTuple(t, sh));
   }
   for(size_t i = 0; i < n; ++i) VF_EXPECT(unary[i] == 1 && cv[i].numberOfVariables() == 1 && cv[i].variableIndex(0) == i, "canonical-one-unary", "variable " << i << " has " << unary[i]);
   VF_EXPECT(cv.numberOfFactors() == n + groups.size(), "canonical-factors", cv.numberOfFactors());
   V l(n, 0), sh(n); for(size_t i = 0; i < n; ++i) sh[i] = gm.numberOfLabels(i);
   for(size_t k = 0; k < 20; ++k) { for(size_t i = 0; i < n; ++i) l[i] = c.rng.below(sh[i]); VF_CHECK(vf::close(cv.evaluate(l), gm.evaluate(l)), "canonical-energy", what << " " << cv.evaluate(l) << " expected " << gm.evaluate(l)); }
}
template<class OP> void canonicalAll(vf::Ctx& c, const vf::MixedModel& mm) {
   typedef opengm::GraphicalModel<double, OP, vf::FnTypes<double, size_t, size_t>::All, opengm::DiscreteSpace<size_t, size_t> > GM;
   const size_t k = c.rng.below(3);
   if(k == 0) canonical<GM, opengm::canonical_view::CloneNever>(c, mm, "canonical never"); else if(k == 1) canonical<GM, opengm::canonical_view::CloneViews>(c, mm, "canonical views"); else canonical<GM, opengm::canonical_view::CloneDeep>(c, mm, "canonical deep");
}
}
VF_SCENARIO(canonicalview, 200, 4000) {
   const bool add = c.rng.chance(0.6);
   vf::MixedModel mm = vf::randMixed(c.rng, 1, 5, 1, 4, 4, 9, add ? vf::SMALLINT : vf::POSDYADIC, 0.1);
   c.desc << (add ? "adder " : "multiplier ") << mm.ref.brief(); mm.ref.digest(c);
   if(add) canonicalAll<opengm::Adder>(c, mm); else canonicalAll<opengm::Multiplier>(c, mm);
}

VF_SCENARIO(sorting, 300, 6000) {
   std::vector<int> v(1 + c.rng.below(14)); for(size_t i = 0; i < v.size(); ++i) v[i] = (int)c.rng.range(-6, 12); const bool pre = c.rng.chance(0.4); if(pre) std::sort(v.begin(), v.end());
   c.desc << vf::show(v); c.digestV(v);
   VF_EXPECT(opengm::isSorted(v.begin(), v.end()) == std::is_sorted(v.begin(), v.end()), "is-sorted", "isSorted");
   std::list<int>* unused = 0; (void)unused;
   VF_EXPECT(opengm::isEqualValueVector(v) == (std::count(v.begin(), v.end(), v[0]) == (long)v.size()), "equal-values", "isEqualValueVector");
   for(size_t i = 0; i < v.size(); ++i) VF_EXPECT(opengm::iteratorAt(v.begin(), i) == v[i], "iterator-at", i);
   std::vector<std::string> w(v.size()); std::multiset<std::pair<int, std::string> > want; for(size_t i = 0; i < v.size(); ++i) { w[i] = std::to_string(i * 7 % 5) + "#"; want.insert(std::make_pair(v[i], w[i])); }
   std::vector<int> a(v); std::vector<std::string> b(w); opengm::doubleSort(a.begin(), a.end(), b.begin());
   VF_EXPECT(std::is_sorted(a.begin(), a.end()), "double-sort-order", vf::show(a));
   std::multiset<std::pair<int, std::string> > got; for(size_t i = 0; i < a.size(); ++i) got.insert(std::make_pair(a[i], b[i])); VF_EXPECT(got == want, "double-sort-pairs", vf::show(a) << vf::show(b));
   std::set<int> uniq(v.begin(), v.end()); std::vector<int> s(uniq.begin(), uniq.end());
   for(int x = -8; x <= 14; ++x) { size_t p = 777; const bool f = opengm::findInSortedSequence(s.begin(), s.size(), x, p); const size_t at = std::lower_bound(s.begin(), s.end(), x) - s.begin(); const bool e = at < s.size() && s[at] == x;
      VF_EXPECT(f == e && (!e || p == at), "find-in-sorted", x << " found " << f << " at " << p); }
   // vector view
   std::vector<size_t> base(3 + c.rng.below(10)); for(size_t i = 0; i < base.size(); ++i) base[i] = c.rng.below(50); const size_t st = c.rng.below(base.size()), n = c.rng.below(base.size() - st + 1);
   typedef opengm::VectorView<std::vector<size_t>, size_t> VV; VV vv0(base, st, n), vv1(base); vv1.assign(base, st, n);
   const VV& x = vv0; const VV& y = vv1; V part(base.begin() + st, base.begin() + st + n);
   VF_EXPECT(x.size() == n && V(x.begin(), x.end()) == part && V(y.begin(), y.end()) == part, "vector-view", st << "+" << n);
   for(size_t i = 0; i < n; ++i) VF_EXPECT(x[i] == part[i], "vector-view", i);
   std::vector<size_t> moved(base); VV z(x); z.assignPtr(moved); const VV& zc = z; if(n) VF_EXPECT(&zc[0] == &moved[st], "vector-view-rebase", "");
   VV un(base); const VV& unc = un; VF_EXPECT(unc.size() == 0 && unc.begin() == unc.end(), "vector-view", "empty");
}
VF_SCENARIO(functors, 200, 3000) {
   std::vector<double> v(1 + c.rng.below(12)); for(size_t i = 0; i < v.size(); ++i) v[i] = c.rng.range(-40, 40) / 4.0;
   c.desc << vf::show(v); for(size_t i = 0; i < v.size(); ++i) c.digestD(v[i]);
   opengm::MinMaxFunctor<double> mm; opengm::MinMaxFunctor<double> m2(-1.0, 1.0); opengm::AccumulationFunctor<opengm::Integrator, double> sum; opengm::AccumulationFunctor<opengm::Minimizer, double> mi; opengm::AccumulationFunctor<opengm::Maximizer, double> ma(0.5);
   std::vector<double> out(v.size()); opengm::CopyFunctor<std::vector<double>::iterator> cp(out.begin());
   for(size_t i = 0; i < v.size(); ++i) { mm(v[i]); m2(v[i]); sum(v[i]); mi(v[i]); ma(v[i]); cp(v[i]); }
   const double lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end()); double t = 0; for(size_t i = 0; i < v.size(); ++i) t += v[i];
   VF_EXPECT(mm.min() == lo && mm.max() == hi, "min-max", mm.min() << " " << mm.max()); VF_EXPECT(m2.min() == std::min(lo, -1.0) && m2.max() == std::max(hi, 1.0), "min-max", "with start");
   VF_EXPECT(sum.value() == t && mi.value() == lo && ma.value() == std::max(0.5, hi), "accumulation", sum.value()); VF_EXPECT(out == v, "copy-functor", "");
   std::minus<double> minus; opengm::BinaryToUnaryFunctor<double, std::minus<double>, true> L(3.0, minus); opengm::BinaryToUnaryFunctor<double, std::minus<double>, false> R(3.0, minus); opengm::SwapArgumemtFunctor<double, std::minus<double> > S(minus);
   opengm::BinaryToUnaryFunctor<double, std::minus<double>, true> L2(L); opengm::SwapArgumemtFunctor<double, std::minus<double> > S2(S);
   VF_EXPECT(L(v[0]) == 3.0 - v[0] && R(v[0]) == v[0] - 3.0 && S(v[0], 1.5) == 1.5 - v[0] && L2(v[0]) == L(v[0]) && S2(v[0], 2.0) == 2.0 - v[0], "functor-arguments", v[0]);
   opengm::PowFunctor<double> P(2), P2(P); VF_EXPECT(P(v[0]) == v[0] * v[0] && P2(v[0]) == v[0] * v[0], "pow-functor", P(v[0]));
   const size_t base = c.rng.below(20), ex = c.rng.below(14); size_t p = 1; for(size_t i = 0; i < ex; ++i) p *= base; // modular in size_t either way
   VF_EXPECT(opengm::unsignedIntegerPow(base, ex) == p, "integer-pow", base << "^" << ex << " = " << opengm::unsignedIntegerPow(base, ex));
   VF_EXPECT(opengm::unsignedIntegerPow(1, size_t(-1)) == 1 && opengm::unsignedIntegerPow(0, 5) == 0 && opengm::unsignedIntegerPow(7, 0) == 1, "integer-pow", "edges");
}
namespace { namespace mt = opengm::meta;
template<int I> struct T {};
typedef mt::TypeListGenerator<T<0>, T<1>, T<2> >::type L3; typedef mt::TypeListGenerator<T<2>, T<3>, T<0>, T<4> >::type M4;
template<class L> struct Names; template<int I, class R> struct Names<mt::TypeList<T<I>, R> > { static std::string s() { return std::to_string(I) + Names<R>::s(); } }; template<> struct Names<mt::ListEnd> { static std::string s() { return ""; } };
}
VF_SCENARIO(typelists, 1, 1) {
   VF_EXPECT(Names<L3>::s() == "012" && Names<M4>::s() == "2304", "type-list", Names<M4>::s());
   VF_EXPECT(mt::LengthOfTypeList<L3>::type::value == 3 && mt::LengthOfTypeList<M4>::type::value == 4 && mt::LengthOfTypeList<mt::ListEnd>::type::value == 0, "type-list-length", "");
   VF_EXPECT((std::is_same<mt::TypeAtTypeList<M4, 2>::type, T<0> >::value && std::is_same<mt::TypeAtTypeList<M4, 3>::type, T<4> >::value), "type-at", "");
   VF_EXPECT((mt::GetIndexInTypeList<M4, T<3> >::type::value == 1 && mt::GetIndexInTypeListSafely<M4, T<4>, 9>::type::value == 3 && mt::GetIndexInTypeListSafely<M4, T<7>, 9>::type::value >= 9), "type-index", "");
   VF_EXPECT((bool(mt::HasTypeInTypeList<M4, T<4> >::type::value) && !bool(mt::HasTypeInTypeList<M4, T<1> >::type::value)), "has-type", "");
   VF_EXPECT((Names<mt::MergeTypeLists<L3 , M4>::type>::s() == "0122304"), "merge-lists", "");
   std::string u = Names<mt::MergeTypeListsNoDuplicates<L3 , M4>::type>::s(); std::sort(u.begin(), u.end()); VF_EXPECT(u == "01234", "merge-no-duplicates", u);
   u = Names<mt::MergeTypeListsWithoutDups<L3 , M4>::type>::s(); std::sort(u.begin(), u.end()); VF_EXPECT(u == "01234", "merge-without-dups", u);
   VF_EXPECT((Names<mt::DeleteTypeInTypeList<M4 , T<0> >::type>::s() == "234" && Names<mt::BackInsert<L3 , T<9> >::type>::s() == "0129" && Names<mt::FrontInsert<L3 , T<9> >::type>::s() == "9012"), "insert-delete", "");
   VF_EXPECT((bool(mt::HasDuplicatesInTypeList<mt::BackInsert<L3, T<1> >::type>::type::value) && !bool(mt::HasDuplicatesInTypeList<L3>::type::value)), "duplicates", "");
   VF_EXPECT((bool(mt::IsFundamental<int>::value) && bool(mt::IsFundamental<const double>::value) && !bool(mt::IsFundamental<std::string>::value) && bool(mt::IsFloatingPoint<float>::value) && !bool(mt::IsFloatingPoint<int>::value)), "traits", "");
   c.digest(1);
}
