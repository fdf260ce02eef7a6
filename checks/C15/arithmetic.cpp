#include <arrays.hpp>
using namespace vf;
namespace {
// a plain array: values stored first index fastest
struct Ref { Coord shape; std::vector<double> v; size_t pos(const Coord& c) const { size_t p = 0, s = 1; for(size_t j = 0; j < c.size(); ++j) { p += c[j] * s; s *= shape[j]; } return p; } };
// an operand: a strided view (or an array) with known contents
template<class T> struct Operand {
   marray::Marray<T>* array; T* mem; std::vector<T> all; marray::View<T> view; RefView m; Ref ref; bool plain;
   Operand() : array(0), mem(0) {}
   ~Operand() { delete array; delete[] mem; }
   void make(Rng& r, const Coord& shape, long lo, long hi) {
      const size_t d = shape.size(); plain = d == 0 || r.chance(0.4); m.shape = shape; m.first = r.chance(0.5); m.off = 0;
      if(plain) { m.strides = naturalStrides(shape, m.first); array = d == 0 ? new marray::Marray<T>(T(0), co(m.first)) : new marray::Marray<T>(shape.begin(), shape.end(), T(0), co(m.first)); if(d == 0) m.first = array->coordinateOrder() == marray::FirstMajorOrder; for(size_t i = 0; i < m.size(); ++i) (*array)(i) = T(r.range(lo, hi)); view = *array; all.resize(m.size()); }
      else { Coord big(shape); for(size_t j = 0; j < d; ++j) big[j] += r.below(3); Coord p(d), bigP(d), perm(d); for(size_t j = 0; j < d; ++j) p[j] = j; r.shuffle(p); for(size_t j = 0; j < d; ++j) bigP[p[j]] = big[j]; 
         const bool ext = r.chance(0.5); const size_t n = prod(big); mem = new T[n]; for(size_t i = 0; i < n; ++i) mem[i] = T(r.range(lo, hi)); all.resize(n);
         marray::View<T> v(bigP.begin(), bigP.end(), mem, co(ext), co(m.first)); v.permute(p.begin()); Coord b(d); for(size_t j = 0; j < d; ++j) b[j] = r.below(big[j] - shape[j] + 1); v.view(b.begin(), shape.begin(), co(m.first), view);
         Coord bs = naturalStrides(bigP, ext); m.strides.resize(d); for(size_t j = 0; j < d; ++j) { m.strides[j] = bs[p[j]]; m.off += b[j] * m.strides[j]; } }
      read(); 
   }
   const T* base() const { return plain ? &const_cast<const marray::Marray<T>*>(array)->operator()(0) : mem; }
   void read() { ref.shape = m.shape; ref.v.resize(m.size()); Coord t(m.shape.size(), 0); do { ref.v[ref.pos(t)] = double(base()[m.at(t)]); } while(nextTuple(t, m.shape)); for(size_t i = 0; i < all.size(); ++i) all[i] = base()[i]; }
   // every element of the underlying memory that is not addressed by the view is unchanged, those addressed equal want
   std::string differs(const std::vector<double>& want) const { std::vector<T> w(all); Coord t(m.shape.size(), 0); do { w[m.at(t)] = T(want[ref.pos(t)]); } while(nextTuple(t, m.shape));
      for(size_t i = 0; i < w.size(); ++i) if(!(base()[i] == w[i])) { std::ostringstream o; o << "memory[" << i << "] = " << double(base()[i]) << " instead of " << double(w[i]) << " " << m.str(); return o.str(); } return ""; }
   private: Operand(const Operand&);
};
template<class T, bool K> std::string diff(const marray::View<T, K>& a, const Coord& shape, const std::vector<double>& want) {
   std::ostringstream o; if(a.dimension() != shape.size()) { o << "dimension " << a.dimension() << " instead of " << shape.size(); return o.str(); }
   for(size_t j = 0; j < shape.size(); ++j) if(a.shape(j) != shape[j]) { o << "extent " << j << " is " << a.shape(j); return o.str(); }
   Coord t(shape.size(), 0); size_t p = 0; do { const double x = t.empty() ? double(a(0)) : double(a(t.begin())); if(x != want[p]) { o << "element " << show(t) << " = " << x << " instead of " << want[p] << " shape " << show(shape); return o.str(); } ++p; } while(nextTuple(t, shape));
   return "";
}
#define SAME(A, SHAPE, WANT, KEY) { const std::string d_ = diff(A, SHAPE, WANT); VF_EXPECT(d_.empty(), KEY, d_); }
template<class A, class B> struct Scalar { // the same operation on two scalars
   static double op(int k, A a, B b) { switch(k) { case 0: return double(a + b); case 1: return double(a - b); case 2: return double(a * b); default: return double(a / b); } } };
Coord randomShape(Ctx& c) { Rng& r = c.rng; const size_t d = r.chance(0.04) ? 10 : r.chance(0.03) ? 11 : r.chance(0.1) ? 6 + r.below(4) : r.chance(0.06) ? 0 : 1 + r.below(5); return randShape(r, d, 120); }
template<class T1, class T2> void expressions(Ctx& c, long lo, long hi) {
   Rng& r = c.rng; const Coord s = randomShape(c); c.digestV(s);
   Operand<T1> A; Operand<T2> B; A.make(r, s, lo, hi); B.make(r, s, lo < 1 ? 1 : lo, hi); int k0 = (int)r.below(4); if(k0 == 1 && lo >= 0) k0 = 0; const int k = k0; /* small unsigned types would wrap */ const size_t n = prod(s); c.digest(k); c.digestV(A.m.strides); c.digestV(B.m.strides); c.digestV(A.ref.v);
   c.desc << "op " << k << " " << A.m.str() << (A.plain ? "array " : "view ") << B.m.str() << (B.plain ? "array" : "view");
   std::vector<double> w(n), ws(n), wf(n); const T2 sc = T2(r.range(lo < 1 ? 1 : lo, hi));
   for(size_t i = 0; i < n; ++i) { w[i] = Scalar<T1, T2>::op(k, T1(A.ref.v[i]), T2(B.ref.v[i])); ws[i] = Scalar<T1, T2>::op(k, T1(A.ref.v[i]), sc); wf[i] = Scalar<T2, T2>::op(k, sc, T2(B.ref.v[i])); }
   const marray::View<T1>& a = A.view; const marray::View<T2>& b = B.view; 
   #define EXPR(E, WANT, KEY) { marray::Marray<double> x(E); SAME(x, s, WANT, KEY "/constructed") marray::Marray<double> y; if(r.chance(0.5)) { Coord q = randShape(r, 1 + r.below(3), 30); y.resize(q.begin(), q.end(), 3); } y = E; SAME(y, s, WANT, KEY "/assigned") \
      if(!s.empty()) { Operand<double> D; D.make(r, s, 0, 9); D.view = E; const std::string d_ = D.differs(WANT); VF_EXPECT(d_.empty(), KEY "/assigned-to-view", d_); } }
   switch(k) { case 0: EXPR(a + b, w, "plus") EXPR(a + sc, ws, "plus-scalar") EXPR(sc + b, wf, "scalar-plus") break; case 1: EXPR(a - b, w, "minus") EXPR(a - sc, ws, "minus-scalar") EXPR(sc - b, wf, "scalar-minus") break;
      case 2: EXPR(a * b, w, "times") EXPR(a * sc, ws, "times-scalar") EXPR(sc * b, wf, "scalar-times") break; default: EXPR(a / b, w, "divide") EXPR(a / sc, ws, "divide-scalar") EXPR(sc / b, wf, "scalar-divide") }
   { std::vector<double> q(n); for(size_t i = 0; i < n; ++i) q[i] = (A.ref.v[i] + B.ref.v[i]) * A.ref.v[i] - 2 * B.ref.v[i]; marray::Marray<double> x((a + b) * a - b * T2(2)); SAME(x, s, q, "nested") }
   { std::string d = A.differs(A.ref.v); VF_EXPECT(d.empty(), "operand-changed", d); d = B.differs(B.ref.v); VF_EXPECT(d.empty(), "operand-changed", d); }
   // compound assignment
   if(true) { for(size_t i = 0; i < n; ++i) { T1 x = T1(A.ref.v[i]); const T2 y = T2(B.ref.v[i]); switch(k) { case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; default: x /= y; } w[i] = double(x); }
      switch(k) { case 0: A.view += B.view; break; case 1: A.view -= B.view; break; case 2: A.view *= B.view; break; default: A.view /= B.view; } const std::string d = A.differs(w); VF_EXPECT(d.empty(), "compound", d); A.read(); }
   // with a zero-dimensional operand
   if(!s.empty()) { marray::Marray<T2> one(sc); for(size_t i = 0; i < n; ++i) { T1 x = T1(A.ref.v[i]); switch(k) { case 0: x += sc; break; case 1: x -= sc; break; case 2: x *= sc; break; default: x /= sc; } w[i] = double(x); } 
      switch(k) { case 0: A.view += one; break; case 1: A.view -= one; break; case 2: A.view *= one; break; default: A.view /= one; } const std::string d = A.differs(w); VF_EXPECT(d.empty(), "compound-zero-dimensional", d); A.read(); }
   { for(size_t i = 0; i < n; ++i) w[i] = double(T1(A.ref.v[i] + 1)); ++A.view; std::string d = A.differs(w); VF_EXPECT(d.empty(), "increment", d); A.read(); for(size_t i = 0; i < n; ++i) w[i] = double(T1(A.ref.v[i] - 1)); --A.view; d = A.differs(w); VF_EXPECT(d.empty(), "decrement", d); A.read(); }
   { marray::Marray<T1> x(A.view); const std::vector<double> old = A.ref.v; for(size_t i = 0; i < n; ++i) w[i] = double(T1(old[i] + 1)); marray::Marray<T1> y = x++; SAME(y, s, old, "post-increment-result") SAME(x, s, w, "post-increment") y = x--; SAME(y, s, w, "post-decrement-result") SAME(x, s, old, "post-decrement") }
   { const T1 val = T1(r.range(lo, hi)); for(size_t i = 0; i < n; ++i) w[i] = double(val); A.view = val; const std::string d = A.differs(w); VF_EXPECT(d.empty(), "fill", d); }
   c.count("expressions");
}
// operations whose operands share memory behave as if the right-hand side was evaluated first
template<class T> void aliasing(Ctx& c) {
   Rng& r = c.rng; const size_t d = 1 + r.below(3); Coord big(d); for(size_t j = 0; j < d; ++j) big[j] = 2 + r.below(4); if(r.chance(0.4)) for(size_t j = 0; j < d; ++j) big[j] = big[0];
   const size_t n = prod(big); const bool ext = r.chance(0.5); std::vector<T> mem(n); for(size_t i = 0; i < n; ++i) mem[i] = T(r.range(1, 50));
   marray::Marray<T> arr(big.begin(), big.end(), T(0), co(ext)); for(size_t i = 0; i < n; ++i) arr(i) = mem[i];
   Coord s(d); for(size_t j = 0; j < d; ++j) s[j] = 1 + r.below(big[j]); Coord b1(d), b2(d); RefView v1, v2; const Coord bs = naturalStrides(big, ext); v1.off = v2.off = 0; 
   for(size_t j = 0; j < d; ++j) { b1[j] = r.below(big[j] - s[j] + 1); b2[j] = r.below(big[j] - s[j] + 1); v1.off += b1[j] * bs[j]; v2.off += b2[j] * bs[j]; } v1.shape = v2.shape = s; v1.strides = v2.strides = bs; v1.first = r.chance(0.5); v2.first = r.chance(0.5);
   marray::View<T> x, y; arr.view(b1.begin(), s.begin(), co(v1.first), x); arr.view(b2.begin(), s.begin(), co(v2.first), y);
   bool square = true; for(size_t j = 0; j < d; ++j) square = square && s[j] == s[0]; if(square && r.chance(0.5)) { y.transpose(); std::reverse(v2.strides.begin(), v2.strides.end()); }
   const int k = (int)r.below(6); c.digest(k); c.digestV(s); c.digest(v1.off); c.digest(v2.off); c.digestV(v2.strides); c.digestV(mem); c.desc << "op " << k << v1.str() << v2.str() << " in " << show(big);
   std::vector<T> w(mem); Coord t(d, 0); do { const T p = mem[v1.at(t)], q = mem[v2.at(t)]; T& o = w[v1.at(t)]; switch(k) { case 0: o = q; break; case 1: o = p + q; break; case 2: o = p - q; break; case 3: o = q + p; break; case 4: o = p * q; break; default: o = q * T(2) + q; } } while(nextTuple(t, s));
   switch(k) { case 0: if(r.chance(0.5)) x = y; else x = marray::View<T, true>(y); break; case 1: x += y; break; case 2: x -= y; break; case 3: x = y + x; break; case 4: x *= y; break; default: x = y * T(2) + y; }
   for(size_t i = 0; i < n; ++i) VF_EXPECT(arr(i) == w[i], "shared-memory", i << " is " << arr(i) << " want " << w[i]);
   // an array assigned from a view of itself
   for(size_t i = 0; i < n; ++i) arr(i) = mem[i]; Ref want; want.shape = s; want.v.resize(n); t.assign(d, 0); do { want.v[want.pos(t)] = double(mem[v2.at(t)]) * (k > 2 ? 2 : 1); } while(nextTuple(t, s));
   if(k > 2) arr = y + y; else arr = y; SAME(arr, s, want.v, "array-from-own-view")
}
// copies: deep for arrays, element-wise for initialised views, aliasing for uninitialised views
template<class T1, class T2> void copies(Ctx& c) {
   Rng& r = c.rng; const Coord s = randomShape(c); Operand<T1> A; A.make(r, s, 0, 100); c.digestV(s); c.digestV(A.m.strides); c.digestV(A.ref.v); c.desc << A.m.str(); const size_t n = prod(s); const std::vector<double> before = A.ref.v;
   { marray::Marray<T2> x(A.view); SAME(x, s, before, "converted") VF_EXPECT((x.coordinateOrder() == marray::FirstMajorOrder) == A.m.first && x.isSimple(), "copy-order", ""); 
     marray::Marray<T2> y(x), z; z = x; SAME(z, s, before, "array-assigned") x(0) = T2(111); y(n - 1) = T2(112); SAME(z, s, before, "copies-independent") std::string d = A.differs(before); VF_EXPECT(d.empty(), "source-written", d); z = z; SAME(z, s, before, "self-assigned")
     marray::Marray<T2> e; z = e; VF_EXPECT(z.size() == 0, "assigned-empty", z.size()); z = A.view; SAME(z, s, before, "assigned-after-empty") z.assign(); VF_EXPECT(z.size() == 0, "cleared", ""); marray::Marray<T2> f(e); VF_EXPECT(f.size() == 0, "copied-empty", ""); }
   { marray::Marray<T2> x; Coord q = randShape(r, r.below(4), 20); if(q.empty()) x = marray::Marray<T2>(T2(4)); else x.resize(q.begin(), q.end(), T2(1)); x = A.view; SAME(x, s, before, "assigned-over-other-shape") marray::View<T1, true> cv(A.view); x = cv; SAME(x, s, before, "assigned-const-view") }
   if(!s.empty()) { Operand<T2> B; B.make(r, s, 0, 100); B.view = A.view; std::string d = B.differs(before); VF_EXPECT(d.empty(), "view-assigned", d); B.read(); marray::Marray<T1> x(A.view); x = T1(3); std::vector<double> three(n, 3); B.view = x; d = B.differs(three); VF_EXPECT(d.empty(), "view-assigned-array", d); }
   { marray::View<T1> v; v = A.view; VF_EXPECT(v.size() == n && &v(0) == &A.view(0), "uninitialised-view-aliases", ""); marray::View<T1, true> w; w = A.view; VF_EXPECT(&w(0) == (const T1*)&A.view(0), "constant-view-aliases", ""); marray::Marray<T1> x(A.view); w = x; VF_EXPECT(&w(0) == (const T1*)&x(0), "constant-view-rebound", ""); std::string d = A.differs(before); VF_EXPECT(d.empty(), "constant-view-wrote", d); }
   c.count("copies");
}
template<class T> void resizes(Ctx& c) {
   Rng& r = c.rng; bool first = r.chance(0.5); Ref ref; marray::Marray<T> a; bool scalarOrder = false; (void)scalarOrder;
   if(r.chance(0.8)) { ref.shape = randShape(r, r.below(5), 60); const T v0 = T(r.range(1, 9)); if(ref.shape.empty()) a = marray::Marray<T>(v0, co(first)); else a = marray::Marray<T>(ref.shape.begin(), ref.shape.end(), v0, co(first)); ref.v.assign(prod(ref.shape), double(v0)); for(size_t i = 0; i < ref.v.size(); ++i) { RefView m; m.shape = ref.shape; m.first = first; const Coord t = m.coord(i); const T x = T(r.range(0, 90)); a(i) = x; ref.v[ref.pos(t)] = double(x); } }
   for(size_t step = 0; step < 6; ++step) {
      c.desc << show(ref.shape) << (ref.v.empty() ? "-" : "") << " ";
      const Coord s = randShape(r, r.chance(0.1) ? 0 : r.chance(0.5) ? ref.shape.size() : r.below(6), 80); const T v = T(r.range(10, 90)); const bool skip = r.chance(0.3) && !s.empty(); c.digestV(s); c.desc << "->" << show(s) << (skip ? "skip " : " ");
      Ref nw; nw.shape = s; nw.v.assign(prod(s), double(v)); std::vector<bool> known(nw.v.size(), !skip); Coord t(s.size(), 0);
      if(!ref.v.empty()) do { bool in = true; Coord o(ref.shape.size(), 0); for(size_t j = 0; j < s.size(); ++j) if(j < o.size()) { in = in && t[j] < ref.shape[j]; o[j] = t[j]; } else in = in && t[j] == 0; if(in) { nw.v[nw.pos(t)] = ref.v[ref.pos(o)]; known[nw.pos(t)] = true; } } while(nextTuple(t, s));
      if(skip) a.resize(marray::SkipInitialization, s.begin(), s.end()); else a.resize(s.begin(), s.end(), v);
      VF_CHECK(a.dimension() == s.size() && a.size() == prod(s), "resized-size", show(s)); t.assign(s.size(), 0); do { if(known[nw.pos(t)]) VF_EXPECT(double(s.empty() ? a(0) : a(t.begin())) == nw.v[nw.pos(t)], "resized-element", show(ref.shape) << "->" << show(s) << " at " << show(t) << " is " << double(s.empty() ? a(0) : a(t.begin())) << " want " << nw.v[nw.pos(t)]); else if(s.empty()) a(0) = T(nw.v[0]); else a(t.begin()) = T(nw.v[nw.pos(t)]); } while(nextTuple(t, s));
      ref = nw;
      if(r.chance(0.3)) { marray::Marray<T> b; b = a; a = b; }
   }
}
}
VF_SCENARIO(expressions_int, 220, 6000) { expressions<int, int>(c, -20, 60); }
VF_SCENARIO(expressions_double, 220, 6000) { expressions<double, double>(c, -20, 60); }
VF_SCENARIO(expressions_mixed, 200, 6000) { switch(c.rng.below(3)) { case 0: expressions<int, double>(c, -20, 60); break; case 1: expressions<float, int>(c, -20, 60); break; default: expressions<double, short>(c, -20, 60); } }
VF_SCENARIO(expressions_small, 160, 4000) { expressions<short, unsigned char>(c, 1, 5); }
VF_SCENARIO(shared_memory, 900, 20000) { if(c.rng.chance(0.5)) aliasing<int>(c); else aliasing<double>(c); }
VF_SCENARIO(copying, 700, 15000) { switch(c.rng.below(3)) { case 0: copies<int, int>(c); break; case 1: copies<double, float>(c); break; default: copies<unsigned char, double>(c); } }
VF_SCENARIO(resizing, 700, 15000) { if(c.rng.chance(0.5)) resizes<int>(c); else resizes<unsigned char>(c); }
VF_SCENARIO(vector_matrix, 500, 10000) {
   Rng& r = c.rng; 
   { size_t n = 1 + r.below(8); std::vector<double> ref(n, 3); marray::Vector<double> v(n, 3.0); c.digest(n);
     for(size_t k = 0; k < 8; ++k) { const size_t i = r.below(n); const double x = r.range(0, 99); v[i] = x; ref[i] = x; const marray::Vector<double>& cv = v; VF_EXPECT(cv[i] == x && v(i) == x, "vector-element", i);
        switch(r.below(5)) { case 0: { const size_t m = 1 + r.below(9); const double f = r.range(0, 9); v.resize(m, f); ref.resize(m, f); n = m; break; } case 1: { marray::Vector<double> w(v); v[0] = ref[0] = 77; Coord one(1, n); std::vector<double> old(ref); old[0] = w[0]; SAME(w, one, old, "vector-copy") w = v; SAME(w, one, ref, "vector-assigned") break; } 
           case 2: { v = v + v; for(size_t j = 0; j < n; ++j) ref[j] *= 2; break; } case 3: { marray::Vector<double> w = marray::Vector<double>(v * 2.0); v = w; for(size_t j = 0; j < n; ++j) ref[j] *= 2; break; } default: { v.reshape(n); marray::Matrix<double> m(2, n, 1.0); v = m.boundView(0, 1); ref.assign(n, 1); v = 5.0; ref.assign(n, 5); } }
        Coord s(1, n); SAME(v, s, ref, "vector-contents") VF_EXPECT(v.dimension() == 1 && v.size() == n, "vector-shape", n); } }
   { size_t a = 1 + r.below(5), b = 1 + r.below(5); const bool first = r.chance(0.5); marray::Matrix<int> m(a, b, 4, co(first)); Ref ref; ref.shape.push_back(a); ref.shape.push_back(b); ref.v.assign(a * b, 4); c.digest(a); c.digest(b);
     for(size_t k = 0; k < 8; ++k) { Coord t(2); t[0] = r.below(a); t[1] = r.below(b); const int x = (int)r.range(0, 99); m(t[0], t[1]) = x; ref.v[ref.pos(t)] = x;
        switch(r.below(5)) { case 0: { const size_t p = 1 + r.below(5), q = 1 + r.below(5); const int f = (int)r.range(0, 9); Ref o; o.shape.push_back(p); o.shape.push_back(q); o.v.assign(p * q, f); for(size_t i = 0; i < std::min(a, p); ++i) for(size_t j = 0; j < std::min(b, q); ++j) o.v[i + p * j] = ref.v[i + a * j]; m.resize(p, q, f); ref = o; a = p; b = q; break; }
           case 1: { marray::Matrix<int> w(m); w(0, 0) = -3; marray::Matrix<int> z(m.transposedView()); for(size_t i = 0; i < a; ++i) for(size_t j = 0; j < b; ++j) VF_EXPECT(z(j, i) == (int)ref.v[i + a * j], "matrix-transposed-copy", i << j); break; } case 2: { m = m + m; for(size_t j = 0; j < ref.v.size(); ++j) ref.v[j] *= 2; break; } 
           case 3: { m = m.transposedView(); Ref o; o.shape.push_back(b); o.shape.push_back(a); o.v.resize(a * b); for(size_t i = 0; i < a; ++i) for(size_t j = 0; j < b; ++j) o.v[j + b * i] = ref.v[i + a * j]; ref = o; std::swap(a, b); break; }
           default: { const bool f = m.coordinateOrder() == marray::FirstMajorOrder; m.reshape(b, a); Ref o; o.shape.push_back(b); o.shape.push_back(a); o.v.resize(a * b); for(size_t i = 0; i < a * b; ++i) { RefView u, w; u.shape = ref.shape; u.first = w.first = f; w.shape = o.shape; o.v[o.pos(w.coord(i))] = ref.v[ref.pos(u.coord(i))]; } ref = o; std::swap(a, b); } }
        if(ref.v[0] > 1e6) { m = 1; std::fill(ref.v.begin(), ref.v.end(), 1.0); }
        SAME(m, ref.shape, ref.v, "matrix-contents") } }
}
