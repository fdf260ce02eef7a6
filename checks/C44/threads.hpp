// Jobs run by several threads at once on shared constant objects, then one
// after the other; what each job saw must be the same. The race detector
// watches the concurrent part.
#pragma once
#include <atomic>
#include <thread>
#include <sched.h>
#include <vf.hpp>
namespace c44 {
using namespace vf;
struct Seen { std::vector<double> v; std::vector<size_t> ends; std::vector<const char*> what; std::string error;
   void operator()(double x) { v.push_back(x); }
   void end(const char* w) { what.push_back(w); ends.push_back(v.size()); } };
// order in which the operations of the threads began
struct Trace { std::vector<std::atomic<unsigned char> > who; std::atomic<size_t> n; Trace() : who(4096), n(0) {} void note(size_t t) { const size_t i = n.fetch_add(1, std::memory_order_relaxed); if(i < who.size()) who[i].store((unsigned char)t, std::memory_order_relaxed); } };
template<class JOB> void together(Ctx& c, size_t threads, const JOB& job, const std::string& tag) {
   std::vector<Seen> seen(threads), alone(threads); std::vector<uint64_t> seeds; for(size_t i = 0; i < threads; ++i) seeds.push_back(c.rng.u64());
   const unsigned pauses = (unsigned)c.rng.below(4); Trace trace; std::atomic<size_t> ready(0); std::vector<std::thread> ts;
   for(size_t i = 0; i < threads; ++i) ts.push_back(std::thread([&, i] {
      Rng r(seeds[i]), delay(seeds[i] + 1); ready.fetch_add(1); while(ready.load(std::memory_order_relaxed) < threads) sched_yield();
      std::function<void()> at = [&] { trace.note(i); if(pauses) for(size_t k = delay.below(1 + 3 * pauses); k-- > 0;) sched_yield(); };
      try { job(r, seen[i], at); } catch(const std::exception& e) { seen[i].error = e.what(); } }));
   for(size_t i = 0; i < threads; ++i) ts[i].join();
   std::function<void()> none = [] {};
   for(size_t i = 0; i < threads; ++i) { Rng r(seeds[i]); try { job(r, alone[i], none); } catch(const std::exception& e) { alone[i].error = e.what(); } }
   size_t switches = 0; const size_t n = std::min(trace.n.load(), trace.who.size()); uint64_t h = 14695981039346656037ull; for(size_t i = 0; i < n; ++i) { if(i && trace.who[i] != trace.who[i - 1]) ++switches; h = (h ^ trace.who[i]) * 1099511628211ull; }
   c.count("concurrent operations", n); c.count("switches between threads", switches); c.count(switches >= threads ? "interleaved runs" : "runs one after the other"); c.digest(h);
   for(size_t i = 0; i < threads; ++i) {
      VF_CHECK(seen[i].error == alone[i].error, tag + "/error", "thread " << i << ": '" << seen[i].error << "' alone '" << alone[i].error << "'");
      VF_CHECK(seen[i].ends.size() == alone[i].ends.size(), tag + "/operations", seen[i].ends.size() << " " << alone[i].ends.size());
      size_t b = 0; for(size_t o = 0; o < seen[i].ends.size(); ++o) { const size_t e = seen[i].ends[o]; bool same = e == alone[i].ends[o]; for(size_t k = b; same && k < e; ++k) same = seen[i].v[k] == alone[i].v[k] || (std::isnan(seen[i].v[k]) && std::isnan(alone[i].v[k]));
         VF_CHECK(same, tag + "/" + seen[i].what[o], "thread " << i << " operation " << o << ": " << show(std::vector<double>(seen[i].v.begin() + b, seen[i].v.begin() + e)) << " alone " << show(std::vector<double>(alone[i].v.begin() + b, alone[i].v.begin() + std::min(e, alone[i].v.size())))); b = e; c.count("results compared"); }
   }
}
struct Collect { Seen& s; Collect(Seen& x) : s(x) {} template<class T> void operator()(const T x) { s((double)x); } };
// read-only queries shared by functions and factors
template<class F> void query(const F& f, Rng& r, Seen& s, bool wide) {
   const size_t d = f.dimension(); std::vector<size_t> sh; for(size_t i = 0; i < d; ++i) sh.push_back(f.shape(i));
   switch(r.below(8)) {
   case 0: case 1: for(size_t k = 0; k < 4; ++k) { std::vector<size_t> q; for(size_t i = 0; i < d; ++i) q.push_back(r.below(sh[i])); q.push_back(0); s((double)f(q.begin())); } s.end("values"); break;
   case 2: s((double)f.size()); for(size_t i = 0; i < d; ++i) s((double)sh[i]); s.end("shape"); break;
   case 3: s((double)f.min()); s((double)f.max()); s((double)f.sum()); s((double)f.product()); s.end("extrema"); break;
   case 4: if(wide) { if(d >= 2) s(f.isPotts()); if(d >= 2 && d <= 4) s(f.isGeneralizedPotts()); if(d == 1 || (d == 2 && sh[0] == 2 && sh[1] == 2)) s(f.isSubmodular()); s.end("forms"); } break;
   case 5: if(wide && d == 2 && sh[0] >= 2) { s(f.isSquaredDifference()); s(f.isAbsoluteDifference()); s(f.isTruncatedSquaredDifference()); s(f.isTruncatedAbsoluteDifference()); s.end("differences"); } break;
   case 6: { Collect k(s); f.forAllValuesInOrder(k); f.forAtLeastAllUniqueValues(k); s.end("traversal"); break; }
   default: { Collect k(s); f.forAllValuesInAnyOrder(k); if(d) f.forAllValuesInSwitchedOrder(k); s.end("traversal"); } }
}
}
