#include <arrays.hpp>
using namespace vf;
namespace {
// the position at which the reference model expects each of the view's elements
template<class T, bool K> void geometryCheck(Ctx& c, const marray::View<T, K>& v, const RefView& m, const T* mem) {
   VF_CHECK(v.dimension() == m.shape.size(), "dimension", v.dimension() << m.str());
   VF_EXPECT(v.size() == m.size(), "size", v.size() << m.str());
   VF_EXPECT((v.coordinateOrder() == marray::FirstMajorOrder) == m.first, "order", m.str());
   VF_EXPECT(!v.isSimple() || m.natural(), "simple-but-strided", m.str());
   for(size_t j = 0; j < m.shape.size(); ++j) { VF_EXPECT(v.shape(j) == m.shape[j] && v.shapeBegin()[j] == m.shape[j], "shape", j << m.str()); VF_EXPECT(m.shape[j] == 1 || (v.strides(j) == m.strides[j] && v.stridesBegin()[j] == m.strides[j]), "strides", j << " " << v.strides(j) << m.str()); }
   VF_EXPECT((size_t)(v.shapeEnd() - v.shapeBegin()) == m.shape.size() && (size_t)(v.stridesEnd() - v.stridesBegin()) == m.shape.size(), "shape-range", "");
   c.count(m.natural() ? "views natural" : "views strided");
   Coord t(m.shape.size(), 0);
   do {
      const T* want = mem + m.at(t); const size_t ix = m.index(t); size_t o = 77, i = 77;
      if(!t.empty()) {
         VF_EXPECT(&v(t.begin()) == want, "by-coordinates", show(t) << m.str());
         v.coordinatesToIndex(t.begin(), i); VF_EXPECT(i == ix, "coordinates-to-index", show(t) << " " << i << m.str());
         v.coordinatesToOffset(t.begin(), o); VF_EXPECT(o == m.at(t) - m.off, "coordinates-to-offset", show(t) << " " << o << m.str());
         Coord b(t.size(), 99); v.indexToCoordinates(ix, b.begin()); VF_EXPECT(b == t, "index-to-coordinates", ix << " " << show(b) << m.str());
         std::vector<int> ti(t.begin(), t.end()); VF_EXPECT(&v(ti.begin()) == want, "by-int-coordinates", show(t) << m.str());
      }
      VF_EXPECT(&v(ix) == want, "by-index", ix << m.str()); VF_EXPECT(&v((int)ix) == want, "by-int-index", ix << m.str());
      v.indexToOffset(ix, o); VF_EXPECT(o == m.at(t) - m.off, "index-to-offset", ix << " " << o << m.str());
      const T* got = want;
      switch(t.size()) { case 2: got = &v(t[0], t[1]); break; case 3: got = &v(t[0], t[1], t[2]); break; case 4: got = &v(t[0], t[1], t[2], t[3]); break; case 5: got = &v(t[0], t[1], t[2], t[3], t[4]); break;
         case 10: got = &v(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9]); break; }
      VF_EXPECT(got == want, "by-arguments", show(t) << m.str());
   } while(nextTuple(t, m.shape));
}
template<class It, class V, class T> void iteratorCheck(Ctx& c, V& v, const RefView& m, const T* mem, It first, It last, const char* kind) {
   Rng& r = c.rng; const size_t n = m.size(); const std::string K(kind);
   #define AT(IT, P, WHERE) { const size_t p_ = P; VF_EXPECT((IT).index() == p_ && (IT).hasMore() == (p_ < n), K + "/index-" WHERE, (IT).index() << " want " << p_ << m.str()); if(p_ < n) { const Coord q_ = m.coord(p_); VF_EXPECT(&*(IT) == mem + m.at(q_) && (IT).operator->() == mem + m.at(q_), K + "/element-" WHERE, p_ << m.str()); \
      if(!q_.empty()) { Coord g_(q_.size(), 9); (IT).coordinate(g_.begin()); VF_EXPECT(g_ == q_, K + "/coordinate-" WHERE, show(g_) << show(q_) << m.str()); } } }
   It it = first; for(size_t p = 0; p <= n; ++p) { AT(it, p, "forward") VF_EXPECT((it == last) == (p == n) && (it != last) == (p != n), K + "/end", p); if(p < n) { if(r.chance(0.5)) ++it; else { It old = it++; AT(old, p, "post-increment") } } }
   it = last; for(size_t p = n; p > 0; --p) { if(r.chance(0.5)) --it; else { It old = it--; AT(old, p, "post-decrement") } AT(it, p - 1, "backward") }
   VF_EXPECT(it == first, K + "/back-at-begin", m.str());
   size_t p = 0, jumps = 12;
   for(size_t k = 0; k < jumps; ++k) {
      const size_t q = r.below(n + 1); const std::ptrdiff_t d = (std::ptrdiff_t)q - (std::ptrdiff_t)p; const size_t how = r.below(6);
      It old = it;
      if(how == 0 || (how == 4 && q == n)) it += d; else if(how == 1) it -= -d; else if(how == 2) it = it + d; else if(how == 3) it = it - (-d); else if(how == 4) { if(p < n || q < n) VF_EXPECT(q >= p ? &it[q - p] == mem + m.at(m.coord(q)) : true, K + "/subscript", p << " " << q << m.str()); it = first + q; } else it = first + (std::ptrdiff_t)q;
      AT(it, q, "jump") AT(old, p, "copy")
      VF_EXPECT(it - old == d && old - it == -d, K + "/difference", p << " " << q); VF_EXPECT((old < it) == (p < q) && (old > it) == (p > q) && (old <= it) == (p <= q) && (old >= it) == (p >= q) && (old == it) == (p == q), K + "/comparison", p << " " << q);
      p = q;
      if(p < n && r.chance(0.3)) { ++it; ++p; AT(it, p, "increment-after-jump") } else if(p > 0 && r.chance(0.3)) { --it; --p; AT(it, p, "decrement-after-jump") }
   }
   it = first; it += n + 3; VF_EXPECT(it == last, K + "/clamped-at-end", ""); c.count("iterator walks");
   (void)v;
}
template<class T> struct Base { std::vector<T> values; T* mem; Base(size_t n) : values(n), mem(new T[n]) { for(size_t i = 0; i < n; ++i) values[i] = mem[i] = T(1000 + 7 * i); } ~Base() { delete[] mem; } private: Base(const Base&); };
// a random chain of view operations; in place or through the functions that return a new view
template<class T, bool K> void step(Ctx& c, marray::View<T, K>& v, RefView& m, std::ostringstream& log) {
   Rng& r = c.rng; const size_t d = m.shape.size(); const size_t op = r.below(9); const bool in = r.chance(0.5); typedef marray::View<T, K> V;
   switch(op) {
   case 0: { if(!v.isSimple()) return; // reshape: same size, any factorisation
      Coord s; size_t left = m.size(); while(left > 1) { std::vector<size_t> div; for(size_t k = 2; k <= left; ++k) if(left % k == 0) div.push_back(k); const size_t k = r.pick(div); s.push_back(k); left /= k; if(s.size() > 7) { s.push_back(left); left = 1; } }
      while(s.size() < 8 && (s.empty() ? r.chance(0.8) : r.chance(0.3))) s.insert(s.begin() + r.below(s.size() + 1), 1);
      if(s.empty() && d == 0) return;
      log << " reshape" << show(s); if(in) v.reshape(s.begin(), s.end()); else { V w = v.reshapedView(s.begin(), s.end()); v.assign(); v = w; }
      m.shape = s; m.strides = naturalStrides(s, m.first); break; }
   case 1: { if(d == 0) return; Coord p(d); for(size_t j = 0; j < d; ++j) p[j] = j; r.shuffle(p); log << " permute" << show(p); if(in) v.permute(p.begin()); else { V w = v.permutedView(p.begin()); v.assign(); v = w; }
      RefView o = m; for(size_t j = 0; j < d; ++j) { m.shape[j] = o.shape[p[j]]; m.strides[j] = o.strides[p[j]]; } break; }
   case 2: { if(d == 0) return; const size_t a = r.below(d), b = r.below(d); log << " transpose" << a << "," << b; if(in) v.transpose(a, b); else { V w = v.transposedView(a, b); v.assign(); v = w; } std::swap(m.shape[a], m.shape[b]); std::swap(m.strides[a], m.strides[b]); break; }
   case 3: { if(d == 0) return; log << " reverse"; if(in) v.transpose(); else { V w = v.transposedView(); v.assign(); v = w; } std::reverse(m.shape.begin(), m.shape.end()); std::reverse(m.strides.begin(), m.strides.end()); break; }
   case 4: { if(d == 0) return; const int n = (int)r.range(-(long)(3 * d), (long)(3 * d)); log << " shift" << n; if(in) v.shift(n); else { V w = v.shiftedView(n); v.assign(); v = w; }
      // shift by n moves dimension j to position j+n (cyclically)
      RefView o = m; for(size_t j = 0; j < d; ++j) { const size_t to = (size_t)((((long)j + n) % (long)d + (long)d) % (long)d); m.shape[to] = o.shape[j]; m.strides[to] = o.strides[j]; } break; }
   case 5: { log << " squeeze"; if(in) v.squeeze(); else { V w = v.squeezedView(); v.assign(); v = w; } Coord s, t; for(size_t j = 0; j < d; ++j) if(m.shape[j] != 1) { s.push_back(m.shape[j]); t.push_back(m.strides[j]); } m.shape = s; m.strides = t; break; }
   case 6: { if(d == 0) return; const size_t j = r.below(d), x = r.below(m.shape[j]); log << " bound" << j << "=" << x; V w = v.boundView(j, x); v.assign(); v = w; m.off += m.strides[j] * x; m.shape.erase(m.shape.begin() + j); m.strides.erase(m.strides.begin() + j); break; }
   default: { if(d == 0) return; Coord b(d), s(d); for(size_t j = 0; j < d; ++j) { b[j] = r.chance(0.5) ? 0 : r.below(m.shape[j]); s[j] = r.chance(0.5) ? m.shape[j] - b[j] : 1 + r.below(m.shape[j] - b[j]); }
      const bool ord = r.chance(0.5), f = ord ? r.chance(0.5) : m.first; log << " sub" << show(b) << show(s) << (ord ? (f ? "F" : "L") : "");
      V w; if(r.chance(0.5)) { if(ord) v.view(b.begin(), s.begin(), co(f), w); else v.view(b.begin(), s.begin(), w); } else w = ord ? v.view(b.begin(), s.begin(), co(f)) : v.view(b.begin(), s.begin());
      v.assign(); v = w; m.off = m.at(b); m.shape = s; m.first = f; break; }
   }
   c.count("view operations");
}
template<class T, bool K> void chain(Ctx& c, Base<T>& base, marray::View<T, K>& v, RefView m, size_t len) {
   Rng& r = c.rng; std::ostringstream log; log << m.str();
   for(size_t k = 0; k <= len; ++k) {
      try {
         if(k) step(c, v, m, log);
         c.digestV(m.shape); c.digestV(m.strides); c.digest(m.off);
         geometryCheck(c, v, m, base.mem);
         const marray::View<T, K>& cv = v; 
         iteratorCheck(c, v, m, base.mem, v.begin(), v.end(), "iterator");
         if(r.chance(0.4)) iteratorCheck(c, cv, m, base.mem, cv.begin(), cv.end(), "const-iterator");
         if(r.chance(0.3)) { size_t p = m.size(); for(typename marray::View<T, K>::reverse_iterator it = v.rbegin(); it != v.rend(); ++it) { --p; VF_EXPECT(&*it == base.mem + m.at(m.coord(p)), "reverse-iterator", p << m.str()); } VF_EXPECT(p == 0, "reverse-iterator-length", p); }
         { marray::View<T, true> w(v); geometryCheck(c, w, m, base.mem); if(r.chance(0.2)) iteratorCheck(c, w, m, base.mem, w.begin(), w.end(), "const-view-iterator"); }
         if(!m.shape.empty() && r.chance(0.3)) { Coord b(m.shape.size()), s(b); for(size_t j = 0; j < b.size(); ++j) { b[j] = r.below(m.shape[j]); s[j] = 1 + r.below(m.shape[j] - b[j]); } marray::View<T, true> w; v.constView(b.begin(), s.begin(), w); RefView n = m; n.off = m.at(b); n.shape = s; geometryCheck(c, w, n, base.mem); w = v.constView(b.begin(), s.begin(), co(!m.first)); n.first = !m.first; geometryCheck(c, w, n, base.mem);
            const bool ov = v.overlaps(w); VF_EXPECT(ov, "overlap-with-part", ""); }
      } catch(const std::exception& e) { c.fail(std::string("exception:") + e.what(), log.str()); throw Abort(); }
   }
   c.desc << log.str() << " ";
}
template<class T> void writes(Ctx& c, Base<T>& b, marray::View<T, false>& v, const RefView& m) {
   Rng& r = c.rng; 
   for(size_t k = 0; k < 10; ++k) { const size_t i = r.below(m.size()); const Coord t = m.coord(i); const T x = T(r.below(100000)); b.values[m.at(t)] = x;
      switch(r.below(4)) { case 0: v(i) = x; break; case 1: if(t.empty()) v(0) = x; else v(t.begin()) = x; break; case 2: { typename marray::View<T, false>::iterator it = v.begin(); it += i; *it = x; break; } 
         default: if(t.size() == 2) v(t[0], t[1]) = x; else if(t.size() == 3) v(t[0], t[1], t[2]) = x; else if(t.size() == 4) v(t[0], t[1], t[2], t[3]) = x; else v(i) = x; } }
   for(size_t i = 0; i < b.values.size(); ++i) VF_EXPECT(b.mem[i] == b.values[i], "written-element", i << m.str());
}
RefView place(Ctx& c, size_t maxSize, bool ext, bool in) { RefView m; Rng& r = c.rng; const size_t d = r.chance(0.05) ? 10 : r.chance(0.08) ? 0 : 1 + r.below(6); m.shape = randShape(r, d, maxSize); m.strides = naturalStrides(m.shape, ext); m.off = 0; m.first = in; return m; }
}
// views over caller-owned memory, external and internal coordinate order chosen independently
VF_SCENARIO(view_chains, 900, 20000) {
   Rng& r = c.rng; const bool ext = r.chance(0.5), in = r.chance(0.5); RefView m = place(c, 200, ext, in); Base<int> b(m.size());
   if(m.shape.empty()) { marray::View<int> v(b.mem); m.first = false; chain(c, b, v, m, 1 + r.below(5)); if(v.dimension() == 0) { v(0) = 5; VF_EXPECT(b.mem[0] == 5, "scalar-view", ""); } return; }
   marray::View<int> v; if(r.chance(0.5)) v = marray::View<int>(m.shape.begin(), m.shape.end(), b.mem, co(ext), co(in)); else v.assign(m.shape.begin(), m.shape.end(), b.mem, co(ext), co(in));
   if(r.chance(0.3)) { marray::View<int, true> w(m.shape.begin(), m.shape.end(), b.mem, co(ext), co(in)); chain(c, b, w, m, 1 + r.below(7)); return; }
   chain(c, b, v, m, 1 + r.below(7));
}
// writing through a view changes exactly the selected element
VF_SCENARIO(view_writes, 500, 12000) {
   Rng& r = c.rng; const bool ext = r.chance(0.5), in = r.chance(0.5); RefView m = place(c, 100, ext, in); Base<double> b(m.size()); if(m.shape.empty()) throw Skip();
   marray::View<double> v(m.shape.begin(), m.shape.end(), b.mem, co(ext), co(in)); std::ostringstream log;
   for(size_t k = 0; k < 5; ++k) { try { step(c, v, m, log); writes(c, b, v, m); } catch(const std::exception& e) { c.fail(std::string("exception:") + e.what(), log.str()); throw Abort(); } }
   c.digestV(m.shape); c.digestV(m.strides); c.digest(m.off); c.desc << log.str();
}
// views with arbitrary strides given by the caller
VF_SCENARIO(explicit_strides, 400, 10000) {
   Rng& r = c.rng; RefView m; const size_t d = 1 + r.below(4); m.shape = randShape(r, d, 60); Coord p(d); for(size_t j = 0; j < d; ++j) p[j] = j; r.shuffle(p); m.strides.resize(d); size_t s = 1 + r.below(2); for(size_t j = 0; j < d; ++j) { m.strides[p[j]] = s; s *= m.shape[p[j]]; s += r.below(3); } m.off = 0; m.first = r.chance(0.5);
   Coord last(m.shape); for(size_t j = 0; j < d; ++j) --last[j];
   Base<unsigned char> b(m.at(last) + 1); marray::View<unsigned char> v(m.shape.begin(), m.shape.end(), m.strides.begin(), b.mem, co(m.first)); chain(c, b, v, m, r.below(4));
}
// arrays own contiguous memory; views of arrays
VF_SCENARIO(array_views, 500, 12000) {
   Rng& r = c.rng; RefView m = place(c, 120, false, false); m.first = r.chance(0.5); m.strides = naturalStrides(m.shape, m.first);
   marray::Marray<int> a(m.shape.begin(), m.shape.end(), 0, co(m.first)); if(m.shape.empty()) throw Skip();
   Base<int> b(1); delete[] b.mem; b.mem = &a(0); b.values.resize(m.size()); for(size_t i = 0; i < m.size(); ++i) { a(i) = int(i); b.values[i] = int(i); }
   try { geometryCheck(c, a, m, b.mem); iteratorCheck(c, a, m, b.mem, a.begin(), a.end(), "array-iterator"); marray::View<int> v = a; chain(c, b, v, m, 1 + r.below(5)); if(v.size() > 1) { } 
      // non-constant and constant iterators of the same array compare with each other
      const marray::Marray<int>& ca = a; marray::Marray<int>::iterator it = a.begin(); marray::Marray<int>::const_iterator ct = it; VF_EXPECT(ct == ca.begin() && it == ct && !(it != ct), "mixed-iterators", ""); it += (std::ptrdiff_t)a.size(); VF_EXPECT(it - ct == (std::ptrdiff_t)a.size() && ct < it && it > ct && ct <= it && it >= ct, "mixed-iterators-order", "");
   } catch(...) { b.mem = new int[1]; throw; }
   b.mem = new int[1];
}
// misuse is reported in checked builds
VF_SCENARIO(misuse_reported, 300, 4000) {
   Rng& r = c.rng; RefView m = place(c, 60, false, false); if(m.shape.empty()) throw Skip(); Base<int> b(m.size()); marray::View<int> v(m.shape.begin(), m.shape.end(), b.mem); c.digestV(m.shape); const size_t d = m.shape.size(), j = r.below(d);
   Coord t(d, 0); t[j] = m.shape[j] + r.below(2); size_t o; VF_MUST_THROW(v(t.begin()), "coordinate-out-of-range", show(t) << m.str()); VF_MUST_THROW(v(m.size() + r.below(2)), "index-out-of-range", m.str()); VF_MUST_THROW(v.coordinatesToIndex(t.begin(), o), "coordinate-out-of-range-index", m.str()); VF_MUST_THROW(v.boundView(j, m.shape[j]), "bound-out-of-range", m.str()); VF_MUST_THROW(v.boundView(d, 0), "bound-dimension", m.str());
   Coord s(1, m.size() + 1); VF_MUST_THROW(v.reshape(s.begin(), s.end()), "reshape-size", m.str()); Coord p(d, 0); if(d > 1) VF_MUST_THROW(v.permute(p.begin()), "permutation", m.str()); VF_MUST_THROW(v.transpose(j, d), "transpose-dimension", m.str()); VF_MUST_THROW(v.shape(d), "shape-dimension", m.str()); VF_MUST_THROW(*v.end(), "dereference-end", m.str());
   geometryCheck(c, v, m, b.mem);
}
