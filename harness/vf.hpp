// Runtime-monitoring harness core: deterministic case generation, observation
// counters, violation reporting.  One process runs a contiguous range of cases
// of one scenario; the driver (run_check.py) shards, watches and merges.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <algorithm>
#include <numeric>

namespace vf {

inline uint64_t mix(uint64_t z) {
   z += 0x9E3779B97F4A7C15ull;
   z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
   z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
   return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string& s) {
   uint64_t h = 0xcbf29ce484222325ull;
   for(size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 0x100000001b3ull; }
   return mix(h);
}

struct Rng {
   uint64_t s;
   explicit Rng(uint64_t seed = 1) : s(mix(seed ^ 0xA5A5A5A5DEADBEEFull)) {}
   uint64_t u64() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
   // uniform in [0,n)
   size_t below(size_t n) { return n <= 1 ? 0 : static_cast<size_t>(u64() % n); }
   // uniform integer in [a,b]
   long range(long a, long b) { return a + static_cast<long>(u64() % static_cast<uint64_t>(b - a + 1)); }
   double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
   bool chance(double p) { return unit() < p; }
   template<class T> void shuffle(std::vector<T>& v) { for(size_t i = v.size(); i > 1; --i) std::swap(v[i-1], v[below(i)]); }
   template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Abort {};   // ends the current case after a recorded violation
struct Skip {};    // ends the current case: generated input is outside the property's domain

struct Violation { std::string key, msg; uint64_t caseNo; };

struct Ctx {
   Rng rng;
   std::string scenario;
   uint64_t caseNo;
   bool thorough;
   uint64_t seed;
   uint64_t dig;
   bool trivialFlag;
   std::map<std::string, uint64_t>* counters;
   std::vector<Violation>* violations;
   std::ostringstream desc;
   uint64_t evals;
   Ctx() : caseNo(0), thorough(false), seed(1), dig(0), trivialFlag(false), counters(0), violations(0), evals(0) {}

   void digest(uint64_t v) { dig = mix(dig ^ mix(v + 0x1234567)); }
   void digestD(double d) { uint64_t u; std::memcpy(&u, &d, 8); digest(u); }
   template<class V> void digestV(const V& v) { digest(v.size()); for(size_t i = 0; i < v.size(); ++i) digest((uint64_t)(int64_t)v[i]); }
   void trivial() { trivialFlag = true; }
   void count(const std::string& n, uint64_t k = 1) { (*counters)[n] += k; }
   // observations compared by an oracle
   void seen(uint64_t k = 1) { evals += k; }
   void fail(const std::string& key, const std::string& msg) {
      Violation v; v.key = scenario + "/" + key; v.msg = msg; v.caseNo = caseNo;
      size_t same = 0;
      for(size_t i = 0; i < violations->size(); ++i) if((*violations)[i].key == v.key) ++same;
      if(same < 3) violations->push_back(v);
      count("violation " + v.key);
   }
};

typedef void (*ScenarioFn)(Ctx&);
struct Scenario { std::string name; uint64_t quick, thorough; ScenarioFn fn; };
inline std::vector<Scenario>& registry() { static std::vector<Scenario> r; return r; }
struct Reg { Reg(const char* n, uint64_t q, uint64_t t, ScenarioFn f) { Scenario s; s.name = n; s.quick = q; s.thorough = t; s.fn = f; registry().push_back(s); } };

#define VF_SCENARIO(NAME, QUICK, THOROUGH) \
   static void vf_scn_##NAME(vf::Ctx& c); \
   static vf::Reg vf_reg_##NAME(#NAME, QUICK, THOROUGH, vf_scn_##NAME); \
   static void vf_scn_##NAME(vf::Ctx& c)

// records the violation and goes on with the case
#define VF_EXPECT(COND, KEY, MSG) do { c.seen(); if(!(COND)) { std::ostringstream vf_os; vf_os << MSG << " [" #COND "]"; c.fail(KEY, vf_os.str()); } } while(0)
// records the violation and ends the case
#define VF_CHECK(COND, KEY, MSG) do { c.seen(); if(!(COND)) { std::ostringstream vf_os; vf_os << MSG << " [" #COND "]"; c.fail(KEY, vf_os.str()); throw vf::Abort(); } } while(0)
// statement must throw an exception derived from std::exception
// release variants leave the library's assertions out, so what only they refuse must not be called there
#ifdef VF_NO_REFUSALS
#define VF_MUST_THROW(STMT, KEY, MSG) do { c.seen(); } while(0)
#else
#define VF_MUST_THROW(STMT, KEY, MSG) do { bool vf_t = false; c.seen(); try { STMT; } catch(const std::exception&) { vf_t = true; } if(!vf_t) { std::ostringstream vf_os; vf_os << MSG << " [no exception: " #STMT "]"; c.fail(KEY, vf_os.str()); throw vf::Abort(); } } while(0)
#endif

inline bool close(double a, double b, double rtol = 1e-9, double atol = 1e-9) {
   if(std::isnan(a) || std::isnan(b)) return false;
   if(a == b) return true;
   if(std::isinf(a) || std::isinf(b)) return false;
   return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}

template<class V> std::string show(const V& v) {
   std::ostringstream o; o << "("; 
   for(size_t i = 0; i < v.size(); ++i) { if(i) o << ","; o << v[i]; }
   o << ")"; return o.str();
}

inline std::string jsonEsc(const std::string& s) {
   std::string o;
   for(size_t i = 0; i < s.size(); ++i) {
      unsigned char ch = s[i];
      if(ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
      else if(ch == '\n') o += "\\n";
      else if(ch < 32 || ch > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", ch); o += b; }
      else o += (char)ch;
   }
   return o;
}

// a first-index-fastest odometer written independently of the library
inline bool nextTuple(std::vector<size_t>& t, const std::vector<size_t>& shape) {
   for(size_t i = 0; i < t.size(); ++i) { if(++t[i] < shape[i]) return true; t[i] = 0; }
   return false;
}
inline size_t prod(const std::vector<size_t>& s) { size_t p = 1; for(size_t i = 0; i < s.size(); ++i) p *= s[i]; return p; }

int harnessMain(int argc, char** argv);

} // namespace vf

#ifdef VF_MAIN
extern "C" __attribute__((weak)) int __lsan_do_recoverable_leak_check();
namespace vf {
inline std::string optArg(int argc, char** argv, const std::string& n, const std::string& d) {
   for(int i = 1; i + 1 < argc; ++i) if(n == argv[i]) return argv[i+1];
   return d;
}
int harnessMain(int argc, char** argv) {
   for(int i = 1; i < argc; ++i) if(std::string(argv[i]) == "--list") {
      for(size_t k = 0; k < registry().size(); ++k)
         std::printf("%s %llu %llu\n", registry()[k].name.c_str(), (unsigned long long)registry()[k].quick, (unsigned long long)registry()[k].thorough);
      return 0;
   }
   const std::string scn = optArg(argc, argv, "--scenario", "");
   const uint64_t from = std::strtoull(optArg(argc, argv, "--from", "0").c_str(), 0, 10);
   const uint64_t to = std::strtoull(optArg(argc, argv, "--to", "1").c_str(), 0, 10);
   const uint64_t seed = std::strtoull(optArg(argc, argv, "--seed", "1").c_str(), 0, 10);
   const bool thorough = optArg(argc, argv, "--tier", "quick") == "thorough";
   const std::string out = optArg(argc, argv, "--out", "");
   const std::string status = optArg(argc, argv, "--status", "");
   const bool verbose = optArg(argc, argv, "--verbose", "0") == "1";
   const Scenario* sc = 0;
   for(size_t k = 0; k < registry().size(); ++k) if(registry()[k].name == scn) sc = &registry()[k];
   if(!sc) { std::fprintf(stderr, "unknown scenario %s\n", scn.c_str()); return 9; }
   FILE* st = status.empty() ? 0 : std::fopen(status.c_str(), "w");
   std::map<std::string, uint64_t> counters;
   std::vector<Violation> viol;
   std::vector<uint64_t> digests;
   std::vector<std::string> samples;
   uint64_t evals = 0, cases = 0, skipped = 0, trivialN = 0;
   const bool leaks = std::getenv("VF_LEAKS") && __lsan_do_recoverable_leak_check;
   for(uint64_t i = from; i < to; ++i) {
      if(st) { std::rewind(st); std::fprintf(st, "%20llu\n", (unsigned long long)i); std::fflush(st); }
      Ctx c;
      c.rng = Rng(mix(seed) ^ mix(hashStr(scn) + i * 0x632BE59BD9B4E019ull));
      c.scenario = scn; c.caseNo = i; c.thorough = thorough; c.seed = seed;
      c.counters = &counters; c.violations = &viol;
      const size_t before = viol.size();
      bool skip = false;
      try { sc->fn(c); }
      catch(const Abort&) {}
      catch(const Skip&) { skip = true; }
      catch(const std::exception& e) {
         std::string w = e.what(); std::string k;
         for(size_t j = 0; j < w.size() && k.size() < 60; ++j) { char ch = w[j]; if(ch == '/') break; if(std::isalnum((unsigned char)ch) || ch=='_' || ch==':' || ch=='<' || ch=='>') k += ch; else if(!k.empty() && k[k.size()-1] != '-') k += '-'; }
         c.fail("exception:" + k, "unexpected exception: " + w);
      }
      for(size_t j = before; j < viol.size(); ++j) if(viol[j].msg.find(" || case: ") == std::string::npos) viol[j].msg += " || case: " + c.desc.str();
      if(leaks) { ++counters["leak checks"]; if(__lsan_do_recoverable_leak_check()) std::_Exit(88); }
      if(skip) { ++skipped; continue; }
      ++cases; evals += c.evals;
      if(c.trivialFlag || c.evals == 0) ++trivialN; else digests.push_back(c.dig);
      if(samples.size() < 2 && !c.trivialFlag && c.evals) samples.push_back(c.desc.str());
      if(verbose) std::fprintf(stderr, "case %llu: evals=%llu %s\n", (unsigned long long)i, (unsigned long long)c.evals, c.desc.str().c_str());
   }
   std::ostringstream o;
   o << "{\"scenario\":\"" << scn << "\",\"cases\":" << cases << ",\"skipped\":" << skipped << ",\"trivial\":" << trivialN << ",\"evals\":" << evals << ",\"counters\":{";
   bool first = true;
   for(std::map<std::string, uint64_t>::iterator it = counters.begin(); it != counters.end(); ++it) { if(!first) o << ","; first = false; o << "\"" << jsonEsc(it->first) << "\":" << it->second; }
   o << "},\"digests\":[";
   for(size_t j = 0; j < digests.size(); ++j) o << (j ? "," : "") << digests[j];
   o << "],\"samples\":[";
   for(size_t j = 0; j < samples.size(); ++j) o << (j ? "," : "") << "\"" << jsonEsc(samples[j].substr(0, 600)) << "\"";
   o << "],\"violations\":[";
   for(size_t j = 0; j < viol.size(); ++j) o << (j ? "," : "") << "{\"key\":\"" << jsonEsc(viol[j].key) << "\",\"case\":" << viol[j].caseNo << ",\"msg\":\"" << jsonEsc(viol[j].msg.substr(0, 1500)) << "\"}";
   o << "]}\n";
   if(out.empty()) std::cout << o.str();
   else { std::ofstream f((out + ".tmp").c_str()); f << o.str(); f.close(); std::rename((out + ".tmp").c_str(), out.c_str()); }
   if(st) std::fclose(st);
   return 0;
}
}
int main(int argc, char** argv) { return vf::harnessMain(argc, argv); }
#endif
