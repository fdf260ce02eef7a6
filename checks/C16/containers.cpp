// C16: containers against the structures they implement, over random histories.
// Several objects live at once so that copies, assignments and swaps mix their states.
#include "vf.hpp"
#include <opengm/opengm.hxx>
#include <opengm/datastructures/randomaccessset.hxx>
#include <opengm/datastructures/buffer_randomaccessset.hxx>
#include <opengm/datastructures/partition.hxx>
#include <opengm/datastructures/fast_sequence.hxx>
#include <opengm/datastructures/buffer_vector.hxx>
#include <opengm/utilities/queues.hxx>
#include <opengm/utilities/disjoint-set.hxx>
#include <opengm/utilities/tribool.hxx>
#include <string>
#include <memory>

namespace {

inline int& mkRange() { static int n = 60; return n; }
template<class T> struct Mk { static T make(vf::Rng& r) { return static_cast<T>(r.range(-20, mkRange())); } };
template<> struct Mk<size_t> { static size_t make(vf::Rng& r) { return r.below(mkRange()); } };
template<> struct Mk<std::string> { static std::string make(vf::Rng& r) { std::string s(r.below(30), 'a'); for(size_t i = 0; i < s.size(); ++i) s[i] = 'a' + r.below(3); return s; } };

template<class T> uint64_t hv(const T& t) { std::ostringstream o; o << t; return vf::hashStr(o.str()); }

// ---------------------------------------------------------------- sequences
template<class S, class T> void sameSeq(vf::Ctx& c, S& s, const std::vector<T>& m, const char* when) {
   const S& k = s;
   VF_CHECK(k.size() == m.size(), std::string("size-after-") + when, "size " << k.size() << " expected " << m.size());
   VF_EXPECT(k.empty() == m.empty(), "empty", "empty()");
   VF_CHECK(size_t(k.end() - k.begin()) == m.size(), "iterator-range", "end-begin");
   VF_CHECK(size_t(s.end() - s.begin()) == m.size(), "iterator-range", "end-begin");
   for(size_t i = 0; i < m.size(); ++i) {
      VF_CHECK(k[i] == m[i] && s[i] == m[i], std::string("content-after-") + when, "element " << i);
      VF_CHECK(*(k.begin() + i) == m[i] && *(s.begin() + i) == m[i], "iteration", "element " << i);
   }
   if(!m.empty()) {
      VF_EXPECT(k.front() == m.front() && s.front() == m.front(), "front", "front");
      VF_EXPECT(k.back() == m.back() && s.back() == m.back(), "back", "back");
   }
   c.digest(m.size());
}

// fresh elements of a grown sequence are unspecified: write them at once
template<class S, class T> void seqHistory(vf::Ctx& c, size_t inlineCap, const char* what) {
   c.desc << what << ": ";
   const size_t N = 3;
   std::vector<std::unique_ptr<S> > s(N); std::vector<std::vector<T> > m(N);
   for(size_t i = 0; i < N; ++i) {
      const size_t n = c.rng.chance(0.3) ? 0 : c.rng.chance(0.5) ? inlineCap + c.rng.below(3) - 1 : c.rng.chance(0.1) ? c.rng.below(300) : c.rng.below(2 * inlineCap + 4);
      switch(c.rng.below(3)) {
      case 0: s[i].reset(new S()); break;
      case 1: { s[i].reset(new S(n)); m[i].resize(n); for(size_t j = 0; j < n; ++j) (*s[i])[j] = m[i][j] = Mk<T>::make(c.rng); } break;
      default: { T v = Mk<T>::make(c.rng); s[i].reset(new S(n, v)); m[i].assign(n, v); }
      }
      sameSeq(c, *s[i], m[i], "construct");
   }
   const size_t steps = 20 + c.rng.below(c.thorough ? 120 : 40);
   for(size_t t = 0; t < steps; ++t) {
      const size_t a = c.rng.below(N), b = c.rng.below(N);
      const size_t op = c.rng.below(12);
      c.desc << op << (char)('a' + a); c.count(std::string(what) + " op " + std::to_string(op));
      const char* when = "?";
      switch(op) {
      case 0: case 1: { T v = Mk<T>::make(c.rng); s[a]->push_back(v); m[a].push_back(v); when = "push_back"; } break;
      case 2: if(!m[a].empty()) { const size_t j = c.rng.below(m[a].size()); s[a]->push_back((*s[a])[j]); T v = m[a][j]; m[a].push_back(v); c.count("appended own element"); } when = "push_back-of-own-element"; break;
      case 3: { // fill up to the capacity limits
         const size_t n = inlineCap + c.rng.below(3) - 1;
         while(m[a].size() < n) { T v = Mk<T>::make(c.rng); s[a]->push_back(v); m[a].push_back(v); } when = "push_back"; } break;
      case 4: { const size_t n = c.rng.below(2 * inlineCap + 4), o = m[a].size(); s[a]->resize(n); m[a].resize(n); for(size_t j = o; j < n; ++j) (*s[a])[j] = m[a][j] = Mk<T>::make(c.rng); when = "resize"; } break;
      case 5: s[a]->reserve(c.rng.below(3 * inlineCap + 4)); when = "reserve"; break;
      case 6: s[a]->clear(); m[a].clear(); when = "clear"; break;
      case 7: *s[a] = *s[b]; m[a] = std::vector<T>(m[b]); when = a == b ? "self-assignment" : "assignment"; break;
      case 8: { S copy(*s[b]); s[a].reset(new S(copy)); m[a] = std::vector<T>(m[b]); when = "copy"; } break;
      case 9: { std::vector<T> src(c.rng.below(2 * inlineCap + 4)); for(size_t j = 0; j < src.size(); ++j) src[j] = Mk<T>::make(c.rng); s[a]->assign(src.begin(), src.end()); m[a] = src; when = "assign"; } break;
      case 10: if(!m[a].empty()) { const size_t j = c.rng.below(m[a].size()); T v = Mk<T>::make(c.rng); if(c.rng.chance(0.5)) (*s[a])[j] = v; else *(s[a]->begin() + j) = v; m[a][j] = v; } when = "write"; break;
      default: if(!m[a].empty()) { T v = Mk<T>::make(c.rng); if(c.rng.chance(0.5)) { s[a]->front() = v; m[a].front() = v; } else { s[a]->back() = v; m[a].back() = v; } } when = "write"; break;
      }
      for(size_t i = 0; i < N; ++i) sameSeq(c, *s[i], m[i], when);
   }
   for(size_t i = 0; i < N; ++i) for(size_t j = 0; j < m[i].size(); ++j) c.digest(hv(m[i][j]));
}

struct CmpMod { // order by residue, then value
   int m; CmpMod(int mm = 7) : m(mm) {}
   template<class T> bool operator()(const T& a, const T& b) const { int x = ((int)a % m + m) % m, y = ((int)b % m + m) % m; return x != y ? x < y : a < b; }
};
struct CmpLen { bool operator()(const std::string& a, const std::string& b) const { return a.size() < b.size(); } }; // equivalence != equality

template<class RS, class MS> void sameSet(vf::Ctx& c, RS& s, const MS& m, const char* when) {
   const RS& k = s;
   VF_CHECK(k.size() == m.size(), std::string("set-size-after-") + when, k.size() << " expected " << m.size());
   VF_EXPECT(k.empty() == m.empty(), "set-empty", "empty");
   size_t i = 0;
   typename RS::const_iterator ki = k.begin();
   typename RS::iterator si = s.begin();
   for(typename MS::const_iterator it = m.begin(); it != m.end(); ++it, ++i, ++ki, ++si) {
      VF_CHECK(k[i] == *it, std::string("set-content-after-") + when, "element " << i);
      VF_CHECK(*ki == *it && *si == *it, "set-iteration", "element " << i);
   }
   VF_EXPECT(ki == k.end() && si == s.end(), "set-end", "end");
   typename MS::const_reverse_iterator mr = m.rbegin();
   for(typename RS::const_reverse_iterator r = k.rbegin(); r != k.rend(); ++r, ++mr) VF_CHECK(*r == *mr, "set-reverse-iteration", "reverse");
   VF_EXPECT(k.max_size() >= k.size() && k.capacity() >= k.size(), "set-capacity", "capacity");
}

template<class T, class CMP> void setHistory(vf::Ctx& c, CMP cmp1, CMP cmp2, const char* what) {
   typedef opengm::RandomAccessSet<T, CMP> RS; typedef std::set<T, CMP> MS; const bool big = c.rng.chance(0.1); struct Range { Range(bool b) { mkRange() = b ? 1000 : 60; } ~Range() { mkRange() = 60; } } range(big);
   c.desc << what << ": ";
   const size_t N = 3;
   std::vector<std::unique_ptr<RS> > s(N); std::vector<std::unique_ptr<MS> > m(N);
   for(size_t i = 0; i < N; ++i) {
      CMP cmp = c.rng.chance(0.5) ? cmp1 : cmp2;
      std::vector<T> src(c.rng.below(big ? 200 : 12)); for(size_t j = 0; j < src.size(); ++j) src[j] = Mk<T>::make(c.rng);
      switch(c.rng.below(3)) {
      case 0: s[i].reset(new RS(cmp)); m[i].reset(new MS(cmp)); break;
      case 1: s[i].reset(new RS(c.rng.below(9), cmp)); m[i].reset(new MS(cmp)); break;
      default: s[i].reset(new RS(src.begin(), src.end(), cmp)); m[i].reset(new MS(src.begin(), src.end(), cmp));
      }
      sameSet(c, *s[i], *m[i], "construct");
   }
   const size_t steps = 20 + c.rng.below(c.thorough ? 150 : 50);
   for(size_t t = 0; t < steps; ++t) {
      const size_t a = c.rng.below(N), b = c.rng.below(N), op = c.rng.below(16);
      RS& S = *s[a]; MS& M = *m[a]; const RS& K = S;
      T v = Mk<T>::make(c.rng);
      if(!M.empty() && c.rng.chance(0.4)) v = S[c.rng.below(S.size())];
      c.desc << op << (char)('a' + a); c.count(std::string(what) + " op " + std::to_string(op));
      const char* when = "?";
      switch(op) {
      case 0: case 1: case 2: {
         std::pair<typename RS::const_iterator, bool> r = S.insert(v); std::pair<typename MS::iterator, bool> e = M.insert(v);
         VF_EXPECT(r.second == e.second, "insert-flag", r.second); VF_EXPECT(*r.first == *e.first, "insert-position", "position"); 
         VF_EXPECT(r.first - K.begin() == std::distance(M.begin(), e.first), "insert-position", "rank"); when = "insert"; } break;
      case 3: { // hinted
         typename RS::const_iterator hint = K.begin() + c.rng.below(K.size() + 1);
         if(c.rng.chance(0.5)) hint = K.lower_bound(v);
         typename RS::const_iterator r = S.insert(hint, v); typename MS::iterator e = M.insert(v).first;
         VF_EXPECT(r - K.begin() == std::distance(M.begin(), e), "hinted-insert-position", "rank " << (r - K.begin())); VF_EXPECT(*r == *e, "hinted-insert-value", "value"); when = "hinted-insert"; } break;
      case 4: { std::vector<T> src(c.rng.below(6)); for(size_t j = 0; j < src.size(); ++j) src[j] = Mk<T>::make(c.rng); S.insert(src.begin(), src.end()); M.insert(src.begin(), src.end()); when = "range-insert"; } break;
      case 5: { size_t r = S.erase(v), e = M.erase(v); VF_EXPECT(r == e, "erase-count", r); when = "erase-key"; } break;
      case 6: if(!M.empty()) { size_t j = c.rng.below(M.size()); typename MS::iterator it = M.begin(); std::advance(it, j); M.erase(it); S.erase(S.begin() + j); } when = "erase-position"; break;
      case 7: if(!M.empty() && c.rng.chance(0.4)) { size_t i = c.rng.below(M.size() + 1), j = i + c.rng.below(M.size() + 1 - i); typename MS::iterator x = M.begin(), y = M.begin(); std::advance(x, i); std::advance(y, j); M.erase(x, y); S.erase(K.begin() + i, K.begin() + j); } when = "erase-range"; break;
      case 8: S.swap(*s[b]); if(a != b) M.swap(*m[b]); when = "swap"; break;
      case 9: if(c.rng.chance(0.2)) { S.clear(); M.clear(); } when = "clear"; break;
      case 10: *s[a] = *s[b]; *m[a] = MS(*m[b]); when = "assignment"; break;
      case 11: { std::unique_ptr<RS> n(new RS(*s[b])); std::unique_ptr<MS> n2(new MS(*m[b])); s[a].swap(n); m[a].swap(n2); when = "copy"; } break;
      case 12: S.reserve(c.rng.below(40)); when = "reserve"; break;
      case 13: S.assignFromSet(M); when = "assignFromSet"; break;
      default: {
         VF_EXPECT(K.count(v) == M.count(v), "count", K.count(v));
         typename MS::iterator f = M.find(v); const long rf = std::distance(M.begin(), f);
         VF_EXPECT(K.find(v) - K.begin() == rf && S.find(v) - S.begin() == rf, "find", "rank");
         const long lo = std::distance(M.begin(), M.lower_bound(v)), up = std::distance(M.begin(), M.upper_bound(v));
         VF_EXPECT(K.lower_bound(v) - K.begin() == lo && S.lower_bound(v) - S.begin() == lo, "lower_bound", "rank");
         VF_EXPECT(K.upper_bound(v) - K.begin() == up && S.upper_bound(v) - S.begin() == up, "upper_bound", "rank");
         VF_EXPECT(K.equal_range(v).first - K.begin() == lo && K.equal_range(v).second - K.begin() == up, "equal_range", "rank");
         VF_EXPECT(S.equal_range(v).first - S.begin() == lo && S.equal_range(v).second - S.begin() == up, "equal_range", "rank");
         T w = Mk<T>::make(c.rng);
         VF_EXPECT(K.key_comp()(v, w) == M.key_comp()(v, w) && K.value_comp()(w, v) == M.value_comp()(w, v), "key_comp", "comparator");
         typename RS::allocator_type al = K.get_allocator(); (void)al; when = "query"; }
      }
      for(size_t i = 0; i < N; ++i) sameSet(c, *s[i], *m[i], when);
   }
   for(size_t i = 0; i < N; ++i) for(typename MS::iterator it = m[i]->begin(); it != m[i]->end(); ++it) c.digest(hv(*it));
}

// ---------------------------------------------------------------- partitions
// colour[i]: merging recolours
struct RefPart { std::vector<size_t> col; size_t next;
   explicit RefPart(size_t n = 0) : next(0) { add(n); }
   void add(size_t n) { while(n--) col.push_back(next++); }
   void merge(size_t a, size_t b) { size_t x = col[a], y = col[b]; for(size_t i = 0; i < col.size(); ++i) if(col[i] == y) col[i] = x; }
   size_t sets() const { return std::set<size_t>(col.begin(), col.end()).size(); }
   size_t setSize(size_t i) const { return std::count(col.begin(), col.end(), col[i]); } };

template<class T> void partState(vf::Ctx& c, opengm::Partition<T>& P, const RefPart& r, bool compress) {
   const opengm::Partition<T>& K = P; const size_t n = r.col.size();
   VF_CHECK(size_t(K.numberOfElements()) == n, "elements", (size_t)K.numberOfElements());
   VF_CHECK(size_t(K.numberOfSets()) == r.sets(), "number-of-sets", (size_t)K.numberOfSets() << " expected " << r.sets());
   std::vector<T> rep(n);
   for(size_t i = 0; i < n; ++i) { rep[i] = K.find(T(i)); if(compress) VF_CHECK(P.find(T(i)) == rep[i], "find-compressing", "element " << i); }
   for(size_t i = 0; i < n; ++i) { VF_CHECK(size_t(rep[i]) < n && rep[size_t(rep[i])] == rep[i], "representative-of-itself", i); VF_CHECK(r.col[size_t(rep[i])] == r.col[i], "representative-in-set", i);
      for(size_t j = 0; j < i; ++j) VF_CHECK((rep[i] == rep[j]) == (r.col[i] == r.col[j]), "same-set", i << " " << j); }
   std::vector<T> reps(r.sets() + 1, T(99)); K.representatives(reps.begin());
   std::set<T> want(rep.begin(), rep.end());
   VF_EXPECT(std::vector<T>(want.begin(), want.end()) == std::vector<T>(reps.begin(), reps.begin() + r.sets()) && reps.back() == T(99), "representatives", "list");
   std::map<T, T> rl; rl[T(77)] = T(1); K.representativeLabeling(rl);
   VF_CHECK(rl.size() == r.sets(), "representative-labels", rl.size());
   std::set<T> labs; for(typename std::map<T, T>::iterator it = rl.begin(); it != rl.end(); ++it) { VF_EXPECT(want.count(it->first), "representative-labels", "key"); labs.insert(it->second); VF_EXPECT(size_t(it->second) < r.sets(), "representative-labels", "label range"); }
   VF_EXPECT(labs.size() == rl.size(), "representative-labels", "labels distinct");
   std::vector<T> el(n + 1, T(99)); K.elementLabeling(el.begin());
   for(size_t i = 0; i < n; ++i) VF_CHECK(el[i] == rl[rep[i]], "element-labels", i);
   VF_EXPECT(el[n] == T(99), "element-labels", "wrote past the end");
   for(size_t i = 0; i < n; ++i) c.digest(size_t(el[i]));
}
template<class T> void partHistory(vf::Ctx& c) {
   const bool big = c.rng.chance(0.08); const size_t N = big ? 1 : 2; std::vector<opengm::Partition<T> > p; if(big) c.count("large partitions"); std::vector<RefPart> r;
   for(size_t i = 0; i < N; ++i) { size_t n = big ? 40 + c.rng.below(120) : c.rng.below(20); if(c.rng.chance(0.2)) { p.push_back(opengm::Partition<T>()); n = 0; } else p.push_back(opengm::Partition<T>(T(n))); r.push_back(RefPart(n)); partState(c, p[i], r[i], false); }
   const size_t steps = big ? 3 + c.rng.below(6) : 10 + c.rng.below(c.thorough ? 100 : 40); bool any = false;
   for(size_t t = 0; t < steps; ++t) {
      const size_t a = c.rng.below(N), b = c.rng.below(N), n = r[a].col.size(); const size_t op = c.rng.below(11);
      c.desc << op << (char)('a' + a); c.count("partition op " + std::to_string(op));
      if(op < 5) { if(n) { size_t x = c.rng.below(n), y = c.rng.below(n); p[a].merge(T(x), T(y)); r[a].merge(x, y); any = true; } }
      else if(op == 5) { size_t k = c.rng.below(4); if(n + k < 60) { p[a].insert(T(k)); r[a].add(k); } }
      else if(op == 6) { if(c.rng.chance(0.3)) { size_t k = c.rng.below(25); p[a].reset(T(k)); r[a] = RefPart(k); } }
      else if(op == 7) { p[a] = opengm::Partition<T>(p[b]); r[a] = RefPart(r[b]); }
      else if(op == 8) { if(n) { T x = T(c.rng.below(n)); p[a].find(x); } }
      else if(op == 10) { // tournaments produce high ranks
         for(size_t st = 1; st < n && c.rng.chance(0.9); st *= 2) for(size_t i = 0; i + st < n; i += 2 * st) { const size_t x = i + c.rng.below(st), y = i + st + c.rng.below(std::min(st, n - i - st)); p[a].merge(T(x), T(y)); r[a].merge(x, y); any = true; } }
      else { // chain merges produce deep trees
         for(size_t i = 1; i < n && c.rng.chance(0.7); ++i) { p[a].merge(T(i - 1), T(i)); r[a].merge(i - 1, i); } }
      for(size_t i = 0; i < N; ++i) partState(c, p[i], r[i], c.rng.chance(0.3));
   }
   if(!any) c.trivial();
}
template<class T> void dsState(vf::Ctx& c, opengm::disjoint_set<T>& P, const RefPart& r) {
   const size_t n = r.col.size();
   VF_CHECK(size_t(P.numberOfSets()) == r.sets(), "ds-number-of-sets", (size_t)P.numberOfSets() << " expected " << r.sets());
   std::vector<T> rep(n);
   for(size_t i = 0; i < n; ++i) { rep[i] = P.find(T(i)); VF_CHECK(size_t(P.size(T(i))) == r.setSize(i), "ds-size", "element " << i << " size " << (size_t)P.size(T(i))); }
   for(size_t i = 0; i < n; ++i) { VF_CHECK(r.col[size_t(rep[i])] == r.col[i], "ds-representative", i); for(size_t j = 0; j < i; ++j) VF_CHECK((rep[i] == rep[j]) == (r.col[i] == r.col[j]), "ds-same-set", i << " " << j); }
   std::map<T, T> rl; rl[T(77)] = 1; P.representativeLabeling(rl);
   std::set<T> labs, want(rep.begin(), rep.end());
   for(typename std::map<T, T>::iterator it = rl.begin(); it != rl.end(); ++it) { VF_EXPECT(want.count(it->first), "ds-labels", "key"); labs.insert(it->second); VF_EXPECT(size_t(it->second) < want.size(), "ds-labels", "range"); }
   VF_EXPECT(rl.size() == want.size() && labs.size() == want.size(), "ds-labels", "bijection");
   for(size_t i = 0; i < n; ++i) c.digest(size_t(rl[rep[i]]));
}

// ---------------------------------------------------------------- priority queue
template<class P, class CMP> void pqHistory(vf::Ctx& c, CMP cmp, const char* what) {
   const bool big = c.rng.chance(0.08); const size_t cap = big ? 40 + c.rng.below(100) : 1 + c.rng.below(20);
   typedef opengm::ChangeablePriorityQueue<P, CMP> Q;
   Q q(cap); std::map<int, P> m; std::vector<P> pr(cap, P()); // remembered priorities
   c.desc << what << " cap " << cap << ": ";
   const size_t steps = (big ? 200 : 20) + c.rng.below(c.thorough ? 200 : 80);
   for(size_t t = 0; t < steps; ++t) {
      const int i = (int)c.rng.below(cap); const P p = static_cast<P>(big ? c.rng.range(-200, 200) : c.rng.range(-6, 6)); const size_t op = c.rng.below(12);
      c.desc << op << "," << i << "," << p << ";"; c.count("queue op " + std::to_string(op));
      if(op < 5) { q.push(i, p); m[i] = p; pr[i] = p; }
      else if(op < 7) { if(!m.empty()) { const int k = q.top(); VF_CHECK(m.count(k), "pq-top-member", k); q.pop(); m.erase(k); } }
      else if(op == 7) { if(m.count(i)) { q.deleteItem(i); m.erase(i); c.count("deleted"); } }
      else if(op < 10) { if(m.count(i)) { q.changePriority(i, p); m[i] = p; pr[i] = p; } }
      else if(op == 10) { if(c.rng.chance(0.2)) { q.reset(); m.clear(); } }
      else { if(c.rng.chance(0.3) && m.empty()) { q.setPriorities(p); std::fill(pr.begin(), pr.end(), p); } }
      const Q& k = q;
      VF_CHECK(size_t(k.size()) == m.size() && k.empty() == m.empty(), "pq-size", k.size() << " expected " << m.size());
      for(size_t j = 0; j < cap; ++j) { VF_CHECK(k.contains((int)j) == (m.count((int)j) == 1), "pq-contains", j); VF_CHECK(k.priority((int)j) == pr[j], "pq-priority", j); }
      if(!m.empty()) {
         VF_CHECK(m.count(k.top()), "pq-top-member", k.top());
         VF_CHECK(k.topPriority() == m[k.top()], "pq-top-priority", k.topPriority());
         for(typename std::map<int, P>::iterator it = m.begin(); it != m.end(); ++it) VF_CHECK(!cmp(it->second, k.topPriority()), "pq-top-is-first", "top " << k.topPriority() << " but holds " << it->second);
      }
   }
   // drain: popped in order
   bool first = true; P last = P();
   while(!m.empty()) { const int k = q.top(); const P p = q.topPriority(); VF_CHECK(m.count(k), "pq-top-member", k); VF_CHECK(first || !cmp(p, last), "pq-order", "popped " << p << " after " << last); c.digest(k); q.pop(); m.erase(k); first = false; last = p; VF_CHECK(size_t(q.size()) == m.size(), "pq-size", "drain"); }
   VF_EXPECT(q.empty(), "pq-drained", "not empty");
}
} // namespace

VF_SCENARIO(sequence, 500, 12000) {
   switch(c.rng.below(5)) {
   case 0: seqHistory<opengm::FastSequence<int, 1>, int>(c, 1, "FastSequence<int,1>"); break;
   case 1: seqHistory<opengm::FastSequence<size_t, 5>, size_t>(c, 5, "FastSequence<size_t,5>"); break;
   case 2: seqHistory<opengm::FastSequence<std::string, 3>, std::string>(c, 3, "FastSequence<string,3>"); break;
   case 3: seqHistory<opengm::BufferVector<int>, int>(c, 4, "BufferVector<int>"); break;
   default: seqHistory<opengm::BufferVector<std::string>, std::string>(c, 4, "BufferVector<string>");
   }
}
VF_SCENARIO(sets, 500, 12000) {
   switch(c.rng.below(5)) {
   case 0: setHistory<int, std::less<int> >(c, std::less<int>(), std::less<int>(), "set<int>"); break;
   case 1: setHistory<size_t, std::greater<size_t> >(c, std::greater<size_t>(), std::greater<size_t>(), "set<size_t,greater>"); break;
   case 2: setHistory<int, CmpMod>(c, CmpMod(7), CmpMod(5), "set<int,mod>"); break;
   case 3: setHistory<std::string, std::less<std::string> >(c, std::less<std::string>(), std::less<std::string>(), "set<string>"); break;
   default: setHistory<std::string, CmpLen>(c, CmpLen(), CmpLen(), "set<string,length>");
   }
}
VF_SCENARIO(partition, 300, 8000) { if(c.rng.chance(0.7)) partHistory<size_t>(c); else if(c.rng.chance(0.5)) partHistory<int>(c); else partHistory<unsigned char>(c); }
VF_SCENARIO(disjointset, 200, 6000) {
   const size_t n = c.rng.chance(0.06) ? 40 + c.rng.below(60) : 1 + c.rng.below(25); opengm::disjoint_set<size_t> a(n), b(1 + c.rng.below(10)); RefPart r(n);
   c.desc << "n=" << n; dsState(c, a, r);
   const size_t steps = 5 + c.rng.below(40);
   for(size_t t = 0; t < steps; ++t) {
      size_t x = c.rng.below(n), y = c.rng.below(n);
      if(c.rng.chance(0.15)) { opengm::disjoint_set<size_t> copy(a); RefPart rc(r); copy.join(x, y); rc.merge(x, y); dsState(c, copy, rc); dsState(c, a, r); b = copy; dsState(c, b, rc); c.count("copies diverged"); }
      else { a.join(x, y); r.merge(x, y); c.count("joins"); }
      if(c.rng.chance(0.5)) dsState(c, a, r);
   }
   dsState(c, a, r);
}
VF_SCENARIO(priorityqueue, 400, 10000) {
   if(c.rng.chance(0.5)) pqHistory<double>(c, std::less<double>(), "less<double>");
   else if(c.rng.chance(0.5)) pqHistory<float, std::greater<float> >(c, std::greater<float>(), "greater<float>");
   else pqHistory<int>(c, std::less<int>(), "less<int>");
}
VF_SCENARIO(fifo, 150, 3000) {
   const size_t cap = 1 + c.rng.below(c.rng.chance(0.1) ? 200 : 20); opengm::FiFoQueue<int> q(cap); std::vector<int> m; size_t pushed = 0, head = 0;
   c.desc << "cap " << cap;
   for(size_t t = 0; t < 60 + 4 * cap; ++t) {
      if(pushed < cap && c.rng.chance(0.6)) { int v = (int)c.rng.below(100); q.push(v); m.push_back(v); ++pushed; c.digest(v); c.count("pushed"); }
      else if(head < m.size() && c.rng.chance(0.6)) { q.pop(); ++head; }
      else if(c.rng.chance(0.05)) { q.clear(); m.clear(); pushed = head = 0; }
      VF_CHECK(q.size() == m.size() - head && q.empty() == (m.size() == head), "fifo-size", q.size());
      if(head < m.size()) VF_CHECK(q.front() == m[head], "fifo-front", q.front());
   }
}
VF_SCENARIO(tribool, 60, 500) {
   using opengm::Tribool;
   // states: -1 maybe, 0 false, 1 true; a history of assignments
   Tribool t; int m = -1;
   for(size_t k = 0; k < 30; ++k) {
      const size_t op = c.rng.below(7); const int v = (int)c.rng.range(-1, 1); c.digest(op * 3 + v + 1);
      const Tribool::State st = v == 1 ? Tribool::True : v == 0 ? Tribool::False : Tribool::Maybe;
      if(op == 0) { t = st; m = v; } else if(op == 1) { t = v; m = v; } else if(op == 2) { bool b = c.rng.chance(0.5); t = b; m = b; }
      else if(op == 3) { Tribool u(st); t = u; m = v; } else if(op == 4) { Tribool u(v); Tribool w(u); t = w; m = v; } else if(op == 5) { Tribool u(v == 1); t = u; m = v == 1; }
      else { t &= st; if(v == 1 && m != 0) m = 1; if(v == 0) m = 0; }
      VF_EXPECT(t.maybe() == (m == -1), "tribool-maybe", m);
      VF_EXPECT(bool(t) == (m == 1), "tribool-bool", m);
      VF_EXPECT((!t) == (m == 0), "tribool-not", m);
      VF_EXPECT((t == true) == (m == 1) && (t == false) == (m == 0), "tribool-equal", m);
      VF_EXPECT((t != true) == (m != 1) && (t != false) == (m != 0), "tribool-unequal", m);
      VF_EXPECT((t == Tribool::True) == (m == 1) && (t == Tribool::False) == (m == 0) && (t == Tribool::Maybe) == (m == -1), "tribool-state", m);
      std::ostringstream o; o << t; VF_EXPECT(o.str() == std::to_string(m), "tribool-print", o.str());
   }
   c.count("histories");
}
