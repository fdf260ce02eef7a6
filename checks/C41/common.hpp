// Runs the main functions of the tools in child processes inside a scratch directory and classifies how they end.
#pragma once
#include <gm.hpp>
#include <opengm/functions/potts.hxx>
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
#include <opengm/datastructures/marray/marray_hdf5.hxx>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
namespace c41 {
using namespace vf;
struct Scratch { std::string dir;
   Scratch() { char t[] = "/tmp/vf_c41_XXXXXX"; if(!mkdtemp(t)) throw std::logic_error("harness: no scratch directory"); dir = t; H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }
   ~Scratch() { wipe(); rmdir(dir.c_str()); }
   void wipe() { if(DIR* d = opendir(dir.c_str())) { while(dirent* e = readdir(d)) { const std::string n = e->d_name; if(n != "." && n != "..") unlink((dir + "/" + n).c_str()); } closedir(d); } }
   std::string operator()(const std::string& n) const { return dir + "/" + n; }
};
inline bool exists(const std::string& f) { struct stat s; return stat(f.c_str(), &s) == 0; }
inline std::string slurp(const std::string& f) { std::ifstream in(f.c_str(), std::ios::binary); std::ostringstream o; o << in.rdbuf(); return o.str(); }
inline void spit(const std::string& f, const std::string& t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; }
enum End { OK, REJECTED, CRASHED, HUNG };
struct Outcome { End end; std::string how, out, err;
   std::string show() const { std::ostringstream o; o << how << " | stdout: " << out.substr(out.size() > 300 ? out.size() - 300 : 0) << " | stderr: " << err.substr(0, 900); return o.str(); } };
typedef int (*Main)(int, char**);
inline Outcome run(const Scratch& s, Main fn, const std::vector<std::string>& args) {
   std::fflush(stdout); std::fflush(stderr);
   const pid_t p = fork();
   if(p < 0) throw std::logic_error("harness: fork failed");
   if(p == 0) {
      const int o = open(s(".out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(s(".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(o, 1); dup2(e, 2); alarm(30); if(chdir(s.dir.c_str()) != 0) _exit(99);
      std::vector<std::string> a(args); a.insert(a.begin(), "tool"); std::vector<std::vector<char> > b; std::vector<char*> v;
      for(size_t i = 0; i < a.size(); ++i) { b.push_back(std::vector<char>(a[i].begin(), a[i].end())); b.back().push_back(0); }
      for(size_t i = 0; i < b.size(); ++i) v.push_back(&b[i][0]);
      v.push_back(0);
      int rc = 0;
      try { rc = fn((int)args.size() + 1, &v[0]); } catch(const std::exception& x) { std::cerr << "exception: " << x.what() << std::endl; rc = 97; } catch(...) { rc = 98; }
      std::cout.flush(); std::cerr.flush(); std::fflush(stdout); std::fflush(stderr); _exit(rc);
   }
   int st = 0; while(waitpid(p, &st, 0) < 0) {}
   Outcome r; r.out = slurp(s(".out")); r.err = slurp(s(".err")); std::ostringstream h;
   const bool report = (r.err.find("AddressSanitizer") != std::string::npos && r.err.find("allocation-size-too-big") == std::string::npos && r.err.find("out-of-memory") == std::string::npos) || r.err.find("runtime error:") != std::string::npos;
   if(report) { r.end = CRASHED; h << "sanitizer report"; }
   else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { r.end = HUNG; h << "no end within 30 s"; }
   else if(WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) { r.end = CRASHED; h << "signal " << WTERMSIG(st); }
   else if(WIFEXITED(st) && WEXITSTATUS(st) == 0) { r.end = OK; h << "success"; }
   else { r.end = REJECTED; h << "failure " << (WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)); }
   r.how = h.str(); return r;
}
// tools
int opengm2uai(int, char**); int uai2opengm(int, char**); int opengm2wudag(int, char**); int partition2potts(int, char**);
int n2n(int, char**); int matching(int, char**); int brain(int, char**);
inline std::vector<std::string> A(const char* a = 0, const char* b = 0, const char* c = 0, const char* d = 0, const char* e = 0, const char* f = 0) {
   std::vector<std::string> r; const char* x[] = {a, b, c, d, e, f}; for(int i = 0; i < 6; ++i) if(x[i]) r.push_back(x[i]); return r; }
template<class T> std::string str(const T& t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }
// a run that has to succeed
inline Outcome works(Ctx& c, const Scratch& s, Main fn, const std::vector<std::string>& args, const std::string& k) {
   Outcome r = run(s, fn, args); c.count("tool runs");
   VF_CHECK(r.end == OK, k + (r.end == CRASHED ? "/crash" : r.end == HUNG ? "/hang" : "/refused"), "arguments" << show(args) << ": " << r.show()); return r; }
// a run that has to fail in an orderly way and leave no result
inline Outcome fails(Ctx& c, const Scratch& s, Main fn, const std::vector<std::string>& args, const std::string& result, const std::string& k, const std::string& what) {
   Outcome r = run(s, fn, args); c.count("tool runs that had to fail");
   VF_CHECK(r.end != CRASHED && r.end != HUNG, k + (r.end == CRASHED ? "/crash" : "/hang"), what << ": " << r.show());
   VF_CHECK(r.end == REJECTED, k + "/accepted", what << " is accepted: " << r.show());
   VF_CHECK(result.empty() || !exists(s(result)), k + "/result-after-failure", what << " leaves a result although the tool fails: " << r.show()); return r; }
// a run that may succeed or fail, orderly
inline Outcome orderly(Ctx& c, const Scratch& s, Main fn, const std::vector<std::string>& args, const std::string& k, const std::string& what) {
   Outcome r = run(s, fn, args); c.count("tool runs on damaged input");
   VF_CHECK(r.end != CRASHED && r.end != HUNG, k + (r.end == CRASHED ? "/crash" : "/hang"), what << ": " << r.show()); c.count(r.end == OK ? "damaged input without effect" : "damaged input refused"); return r; }
inline std::vector<std::string> tokens(const std::string& t) { std::istringstream i(t); std::vector<std::string> r; std::string w; while(i >> w) r.push_back(w); return r; }
typedef opengm::meta::TypeListGenerator<opengm::ExplicitFunction<double,size_t,size_t>, opengm::PottsFunction<double,size_t,size_t> >::type EP;
typedef opengm::GraphicalModel<double, opengm::Adder, EP, opengm::DiscreteSpace<size_t,size_t> > GmEP;   // models of converters with Potts functions
typedef opengm::GraphicalModel<double, opengm::Adder, opengm::meta::TypeListGenerator<opengm::ExplicitFunction<double,size_t,size_t> >::type, opengm::DiscreteSpace<size_t,size_t> > GmE;
template<class GM> void loadGm(Ctx& c, const Scratch& s, GM& gm, const std::string& file, const std::string& k, const std::string& ds = "gm") {
   VF_CHECK(exists(s(file)), k + "/no-result", "the tool succeeded without writing " << file);
   try { opengm::hdf5::load(gm, s(file), ds); } catch(const std::exception& e) { c.fail(k + "/unreadable", std::string("result cannot be loaded: ") + e.what()); throw Abort(); } }
template<class GM> RefModel tables(const GM& gm) {
   RefModel m; for(size_t i = 0; i < gm.numberOfVariables(); ++i) m.labels.push_back(gm.numberOfLabels(i));
   for(size_t i = 0; i < gm.numberOfFactors(); ++i) { RefFactor f; for(size_t k = 0; k < gm[i].numberOfVariables(); ++k) f.vars.push_back(gm[i].variableIndex(k)); m.f.push_back(f);
      std::vector<size_t> sh = m.shape(i), t(sh.size(), 0); do { std::vector<size_t> q = t; q.push_back(0); m.f[i].tab.push_back(gm[i](q.begin())); } while(nextTuple(t, sh)); }
   return m; }
}
