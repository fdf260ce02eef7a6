#pragma once
#include "vf.hpp"
#include "models.hpp"
#include <opengm/opengm.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
// minimum cuts: the returned sides against an independent maximum flow
namespace c30 {
using namespace vf;
struct Net { size_t n; struct E { size_t a, b; double c; }; std::vector<E> e; std::string str() const { std::ostringstream o; o << n << " nodes"; for(size_t i = 0; i < e.size(); ++i) o << " " << e[i].a << ">" << e[i].b << ":" << e[i].c; return o.str(); } };
// augmenting paths on a capacity matrix
inline double maxFlow(const Net& g) {
   std::vector<std::vector<double> > r(g.n, std::vector<double>(g.n, 0)); for(size_t i = 0; i < g.e.size(); ++i) if(g.e[i].a != g.e[i].b) r[g.e[i].a][g.e[i].b] += g.e[i].c;
   double flow = 0; for(;;) { std::vector<size_t> p(g.n, size_t(-1)); std::vector<size_t> q(1, 0); p[0] = 0; for(size_t k = 0; k < q.size() && p[1] == size_t(-1); ++k) for(size_t v = 0; v < g.n; ++v) if(p[v] == size_t(-1) && r[q[k]][v] > 0) { p[v] = q[k]; q.push_back(v); }
      if(p[1] == size_t(-1)) return flow; double m = 1e300; for(size_t v = 1; v != 0; v = p[v]) m = std::min(m, r[p[v]][v]); for(size_t v = 1; v != 0; v = p[v]) { r[p[v]][v] -= m; r[v][p[v]] += m; } flow += m; }
}
inline double cutWeight(const Net& g, const std::vector<bool>& s) { double w = 0; for(size_t i = 0; i < g.e.size(); ++i) { const bool a = g.e[i].a == 0 ? false : g.e[i].a == 1 ? true : s[g.e[i].a], b = g.e[i].b == 0 ? false : g.e[i].b == 1 ? true : s[g.e[i].b]; if(!a && b) w += g.e[i].c; } return w; }
inline double randCap(Rng& r, int style) { switch(style) { case 0: return r.below(4); case 1: return r.below(1000); case 2: return r.chance(0.4) ? 0 : 1; default: return r.below(8) == 0 ? 100000 : r.below(20); } }
inline Net randNet(Rng& r) {
   Net g; g.n = 2 + (r.chance(0.1) ? 0 : r.below(r.chance(0.2) ? 30 : 9)); const int style = r.below(4); const size_t kind = r.below(4); 
   if(kind == 0) { size_t m = r.below(4 * g.n + 1); for(size_t i = 0; i < m; ++i) { Net::E e = {r.below(g.n), r.below(g.n), randCap(r, style)}; if(e.a == e.b) continue; g.e.push_back(e); if(r.chance(0.2)) { Net::E o = {e.b, e.a, randCap(r, style)}; g.e.push_back(o); } if(r.chance(0.15)) g.e.push_back(e); } }
   else if(kind == 1) { size_t h = 1 + r.below(4), w = 1 + r.below(5); g.n = 2 + h * w; for(size_t i = 0; i < h * w; ++i) { Net::E s = {0, i + 2, r.chance(0.5) ? randCap(r, style) : 0}, t = {i + 2, 1, r.chance(0.5) ? randCap(r, style) : 0}; g.e.push_back(s); g.e.push_back(t); if(i % w + 1 < w) { Net::E e = {i + 2, i + 3, randCap(r, style)}, b = {i + 3, i + 2, randCap(r, style)}; g.e.push_back(e); g.e.push_back(b); } if(i + w < h * w) { Net::E e = {i + 2, i + 2 + w, randCap(r, style)}, b = {i + 2 + w, i + 2, randCap(r, style)}; g.e.push_back(e); g.e.push_back(b); } } }
   else if(kind == 2) { g.n = 3 + r.below(8); for(size_t i = 2; i + 1 < g.n; ++i) { Net::E e = {i, i + 1, randCap(r, style)}; g.e.push_back(e); } Net::E s = {0, 2, randCap(r, style)}, t = {g.n - 1, 1, randCap(r, style)}; g.e.push_back(s); g.e.push_back(t); for(size_t i = 0; i < 3; ++i) { Net::E e = {r.below(g.n), r.below(g.n), randCap(r, style)}; if(e.a != e.b) g.e.push_back(e); } }
   else { for(size_t a = 0; a < g.n && g.n < 14; ++a) for(size_t b = 0; b < g.n; ++b) if(a != b && r.chance(0.7)) { Net::E e = {a, b, randCap(r, style)}; g.e.push_back(e); } }
   // the orientation interfaces use: nothing into the source nor out of the sink, or anything
   if(r.chance(0.5)) { std::vector<Net::E> k; for(size_t i = 0; i < g.e.size(); ++i) if(g.e[i].b != 0 && g.e[i].a != 1) k.push_back(g.e[i]); g.e.swap(k); }
   r.shuffle(g.e); return g;
}
template<class S> void cuts(Ctx& c, double scale) {
   typedef typename S::ValueType V; Rng& r = c.rng; Net g = randNet(r); if(scale != 1) for(size_t i = 0; i < g.e.size(); ++i) g.e[i].c *= scale; c.desc << g.str(); for(size_t i = 0; i < g.e.size(); ++i) { c.digest(g.e[i].a * 31 + g.e[i].b); c.digest((size_t)(g.e[i].c * 8)); }
   S s(g.n, r.chance(0.5) ? g.e.size() : 0); Net part; part.n = g.n; std::vector<bool> seg; if(r.chance(0.3)) seg.assign(g.n + r.below(3), r.chance(0.5)); const size_t split = r.chance(0.3) ? r.below(g.e.size() + 1) : g.e.size();
   for(size_t i = 0; i <= g.e.size(); ++i) {
      if(i == g.e.size() || i == split) { if(i != g.e.size()) c.count("intermediate cuts"); if(r.chance(0.3)) seg.clear();
         for(int k = 0; k < (r.chance(0.3) ? 2 : 1); ++k) { s.calculateCut(seg); VF_CHECK(seg.size() == g.n, "size", seg.size()); const double w = cutWeight(part, seg), f = maxFlow(part); VF_CHECK(close(w, f, 1e-9, 1e-9), k ? "cut/again" : "cut", "weight " << w << " flow " << f); c.count("cuts checked"); c.count("source side", std::count(seg.begin(), seg.end(), false)); } }
      if(i < g.e.size()) { s.addEdge(g.e[i].a, g.e[i].b, (V)g.e[i].c); part.e.push_back(g.e[i]); }
   }
   S* orig = new S(s); S copy(*orig), other; delete orig; { S tmp(copy); other = tmp; } other = *&other; if(r.chance(0.3)) { copy.addEdge(0, 1, 1); Net h(g); Net::E e = {0, 1, 1}; h.e.push_back(e); std::vector<bool> z; copy.calculateCut(z); VF_CHECK(close(cutWeight(h, z), maxFlow(h), 1e-9, 1e-9), "copy/extended", ""); s.calculateCut(z); VF_CHECK(close(cutWeight(g, z), maxFlow(g), 1e-9, 1e-9), "copy/original", ""); } std::vector<bool> x, y; copy.calculateCut(x); other.calculateCut(y); VF_CHECK(x.size() == g.n && y.size() == g.n && close(cutWeight(g, y), maxFlow(g), 1e-9, 1e-9) && close(cutWeight(g, x), maxFlow(g), 1e-9, 1e-9), "copy", "");
}
template<class S> void none(Ctx& c) { Rng& r = c.rng; S s; std::vector<bool> seg(r.below(4), true); const double cap = r.below(5); c.digest((size_t)cap); if(r.chance(0.5)) s.addEdge(0, 1, (typename S::ValueType)cap); s.calculateCut(seg); VF_EXPECT(seg.size() == 2, "default/size", seg.size()); }
}
