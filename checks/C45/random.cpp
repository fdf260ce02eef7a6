#include "../../harness/vf.hpp"
#include "script.hpp"
#include <cstdlib>
#include <iomanip>
#include <set>
#include <opengm/utilities/random.hxx>
namespace script { namespace { std::vector<int> q; size_t at = 0, nSeeds = 0; bool on = false; unsigned last = 0; }
void set(const std::vector<int>& v) { q = v; at = 0; on = true; } void off() { on = false; } size_t used() { return at; } size_t seeds() { return nSeeds; } unsigned lastSeed() { return last; } }
extern "C" int rand() noexcept { if(script::on) { const int v = script::q[script::at % script::q.size()]; ++script::at; return v; } return (int)::random(); }
extern "C" void srand(unsigned s) noexcept { script::last = s; ++script::nSeeds; ::srandom(s); }
using namespace vf;
namespace {
struct Off { ~Off() { script::off(); } };
template<class T> void integers(Ctx& c, long minLow, long maxLow, long maxRange) {
   typedef opengm::RandomUniform<T> U; Rng& r = c.rng; const long lo = r.range(minLow, maxLow), n = 1 + (long)r.below(r.chance(0.7) ? std::min(maxRange, 20L) : maxRange); const T low = (T)lo, high = (T)(lo + n); c.desc << "[" << lo << "," << lo + n << ")"; c.digest(lo); c.digest(n); Off off;
   const size_t seed = r.below(100000); const size_t k = script::seeds(); const int how = (int)r.below(4);
   U u = how == 0 ? U(low, high, seed) : how == 1 ? U(low, high) : U(); if(how == 0) VF_EXPECT(script::seeds() == k + 1 && script::lastSeed() == seed, "int/seed", "seed not used"); else srand((unsigned)seed);
   if(how == 2) { u.setHigh(high); u.setLow(low); } if(how == 3) { U w(low, high); u = w; }
   std::vector<T> a; std::set<T> seen; for(size_t i = 0; i < 400; ++i) { const T x = u(); VF_CHECK(x >= low && x < high, "int/range", (long)x << " not in [" << (long)low << "," << (long)high << ")"); a.push_back(x); seen.insert(x); c.count("draws"); }
   srand((unsigned)seed); for(size_t i = 0; i < a.size(); ++i) { const T x = u(); VF_CHECK(x == a[i], "int/reproducible", "draw " << i << " was " << (long)a[i] << " now " << (long)x); }
   if(n <= 8) VF_EXPECT(seen.size() == (size_t)n, "int/coverage", seen.size() << " of " << n << " values in 400 draws"); // chance of a miss below 1e-21
   std::vector<int> dict; for(long i = 0; i < std::min(n, 2000L); ++i) dict.push_back((int)i); dict.push_back(RAND_MAX); dict.push_back(RAND_MAX - 1); dict.push_back(0); script::set(dict); seen.clear();
   for(size_t i = 0; i < dict.size(); ++i) { const T x = u(); VF_CHECK(x >= low && x < high, "int/range", (long)x << " for rand()=" << dict[i]); seen.insert(x); } if(n <= 2000) VF_EXPECT(seen.size() == (size_t)n, "int/coverage", seen.size() << " of " << n << " integers are reachable");
}
template<class T> void reals(Ctx& c) {
   typedef opengm::RandomUniform<T> U; Rng& r = c.rng; T low, high; const int style = (int)r.below(4);
   if(style == 0) { low = 0; high = 1; } else if(style == 1) { low = (T)r.range(-30, 30) / 10; high = low + (T)(1 + r.below(40)) / 10; } else if(style == 2) { low = (T)((r.unit() - 0.5) * 200); high = low + (T)(r.unit() * 3 + 0.01); } else { low = (T)(-r.unit() * 1e6); high = (T)(r.unit() * 1e6 + 1); }
   c.desc.precision(17); c.desc << "[" << low << "," << high << ")"; c.digestD(low); c.digestD(high); Off off; const size_t seed = r.below(100000); const int how = (int)r.below(3);
   U u = how == 0 ? U(low, high, seed) : how == 1 ? U(low, high) : U(); if(how) srand((unsigned)seed); if(how == 2) { u.setLow(low); u.setHigh(high); }
   std::vector<T> a; double mean = 0; for(size_t i = 0; i < 400; ++i) { const T x = u(); VF_CHECK(x >= low && x < high, "real/range", x); a.push_back(x); mean += ((double)x - low) / ((double)high - low) / 400; c.count("draws"); }
   VF_EXPECT(std::fabs(mean - 0.5) < 0.11, "real/mean", "mean at " << mean << " of the interval"); // 0.5 +- 7.6 sigma
   srand((unsigned)seed); for(size_t i = 0; i < a.size(); ++i) { const T x = u(); VF_CHECK(x == a[i], "real/reproducible", "draw " << i); }
   for(size_t k = 0; k < 40; ++k) { // dictated draws at both ends, followed by an ordinary one
      std::vector<int> d; const int v = k == 0 ? RAND_MAX : k == 1 ? 0 : k % 2 ? RAND_MAX - (int)r.below(1 + (1u << r.below(10))) : (int)r.below(RAND_MAX); d.push_back(v); d.push_back(1 + (int)r.below(RAND_MAX / 2)); script::set(d); const T x = u(); VF_CHECK(x >= low && x < high, "real/range", std::setprecision(17) << x << " for rand()=RAND_MAX-" << RAND_MAX - v);
      const double want = (double)low + ((double)high - low) * ((double)v / RAND_MAX); if(script::used() == 1) VF_EXPECT(std::fabs(x - want) <= 1e-5 * (std::fabs(low) + std::fabs(high)), "real/value", x << " should be " << want); c.count("dictated draws"); }
}
template<class T, class W> void weighted(Ctx& c) {
   typedef opengm::RandomDiscreteWeighted<T, W> D; Rng& r = c.rng; const size_t n = 1 + r.below(r.chance(0.2) ? 40 : 7); std::vector<W> w(n); const int style = (int)r.below(4); double sum = 0; size_t positive = 0;
   do { sum = 0; positive = 0; for(size_t i = 0; i < n; ++i) { w[i] = r.chance(0.3) ? 0 : style == 0 ? (W)r.range(1, 5) : style == 1 ? (W)r.unit() + (W)1e-3 : style == 2 ? (W)0.1 : (W)std::exp(r.unit() * 12 - 6); if(r.chance(0.2) && i + 1 == n) w[i] = 0; sum += w[i]; positive += w[i] > 0; } } while(positive == 0);
   c.desc.precision(9); c.desc << show(w); for(size_t i = 0; i < n; ++i) c.digestD(w[i]); Off off; const size_t seed = r.below(100000); const bool seeded = r.chance(0.5);
   const D made = seeded ? D(w.begin(), w.end(), seed) : D(w.begin(), w.end()); D d; if(r.chance(0.5)) d = made; else d = D(made); if(!seeded) srand((unsigned)seed); else VF_EXPECT(script::lastSeed() == seed, "weighted/seed", "");
   std::vector<T> a; std::vector<size_t> hist(n, 0); const size_t N = 1500; for(size_t i = 0; i < N; ++i) { const T x = d(); VF_CHECK((size_t)x < n && x >= 0, "weighted/range", (long)x); VF_CHECK(w[(size_t)x] > 0, "weighted/impossible", "state " << (size_t)x << " has weight 0"); ++hist[(size_t)x]; a.push_back(x); c.count("draws"); }
   for(size_t i = 0; i < n; ++i) { const double p = w[i] / sum, s = std::sqrt(N * p * (1 - p)) + 1; VF_EXPECT(std::fabs(hist[i] - N * p) < 8 * s + 4, "weighted/frequency", "state " << i << " drawn " << hist[i] << " times, expected " << N * p); }
   srand((unsigned)seed); for(size_t i = 0; i < N; ++i) VF_CHECK(d() == a[i], "weighted/reproducible", "draw " << i);
   for(size_t k = 0; k < 60; ++k) { // dictated draws near the boundaries of the states and at both ends
      double u = r.unit(); const size_t b = r.below(n + 1); if(r.chance(0.6)) { double s = 0; for(size_t i = 0; i < b; ++i) s += w[i] / sum; u = s + (r.unit() - 0.5) * 1e-6; } u = std::min(1.0, std::max(0.0, u)); int v = (int)(u * RAND_MAX); if(k < 4) v = k == 0 ? 0 : RAND_MAX - (int)k; if(k >= 4 && k < 12) v = RAND_MAX - (int)r.below(400);
      std::vector<int> q; q.push_back(v); q.push_back((int)r.below(RAND_MAX)); script::set(q); const size_t x = (size_t)d(); const double used = (double)q[(script::used() - 1) % 2] / RAND_MAX; VF_CHECK(x < n && w[x] > 0, "weighted/impossible", "state " << x << " for rand()/RAND_MAX=" << std::setprecision(17) << used);
      double lo = 0; for(size_t i = 0; i < x; ++i) lo += w[i] / sum; const double hi = lo + w[x] / sum; VF_CHECK(used >= lo - 1e-5 && used <= hi + 1e-5, "weighted/state", "state " << x << " [" << lo << "," << hi << ") for " << used); c.count("dictated draws"); }
}
}
VF_SCENARIO(IntegerInt, 300, 5000) { integers<int>(c, -1000, 1000, 1000000); }
VF_SCENARIO(IntegerLong, 200, 5000) { integers<long>(c, -1000000, 1000000, 1000000); }
VF_SCENARIO(IntegerSize, 300, 5000) { integers<size_t>(c, 0, 1000, 1000000); }
VF_SCENARIO(IntegerByte, 200, 5000) { integers<unsigned char>(c, 0, 100, 150); }
VF_SCENARIO(IntegerShort, 200, 5000) { integers<short>(c, -1000, 1000, 3000); }
VF_SCENARIO(RealFloat, 600, 10000) { reals<float>(c); }
VF_SCENARIO(RealDouble, 600, 10000) { reals<double>(c); }
VF_SCENARIO(WeightedFloat, 500, 10000) { weighted<size_t, float>(c); }
VF_SCENARIO(WeightedDouble, 500, 10000) { weighted<int, double>(c); }
