// Shared monitors for inference: a recording visitor and the checks every
// solver's answer has to pass.
#pragma once
#include "functions.hpp"
#include <opengm/inference/inference.hxx>
#include <opengm/inference/visitors/visitors.hxx>

namespace sv {
using namespace vf;

// small and large lists of function types
template<class T, class OP, class I = size_t, class L = size_t> struct Gm {
   typedef opengm::DiscreteSpace<I, L> Space;
   typedef opengm::GraphicalModel<T, OP, typename FnTypes<T, I, L>::Explicit, Space> Plain;
   typedef opengm::GraphicalModel<T, OP, typename FnTypes<T, I, L>::Three, Space> Mixed;
};
inline const std::vector<FnKind>& fewKinds() { static std::vector<FnKind> k; if(k.empty()) { k.push_back(F_EXPLICIT); k.push_back(F_POTTS); k.push_back(F_POTTSN); } return k; }
// adds the factors of a reference model, pairwise Potts tables as Potts functions when the model type allows (rng decides)
template<class GM> GM buildPlain(const RefModel& m) { return buildExplicit<GM>(m); }

inline const char* opName(Op o) { return o == SUM ? "sum" : "product"; }

struct Rec {
   size_t begins, ends, steps, stopAfter; bool stopped, afterStop; 
   std::vector<double> values, bounds;
   std::vector<std::vector<size_t> > args; std::vector<int> argOk; std::vector<size_t> visited;
   bool keepArgs, keepVB;
   std::function<void()> onStep;
   Rec(size_t stop = size_t(-1), bool keepA = true, bool keepV = true) : begins(0), ends(0), steps(0), stopAfter(stop), stopped(false), afterStop(false), keepArgs(keepA), keepVB(keepV) {}
   template<class INF> void note(INF& inf) {
      if(keepVB) { values.push_back((double)inf.value()); bounds.push_back((double)inf.bound()); }
      if(keepArgs) { std::vector<typename INF::LabelType> a; const opengm::InferenceTermination t = inf.arg(a); argOk.push_back(t == opengm::NORMAL || t == opengm::CONVERGENCE); args.push_back(std::vector<size_t>(a.begin(), a.end())); }
   }
   template<class INF> void begin(INF& inf) { ++begins; note(inf); }
   template<class INF> void begin(INF& inf, double v, double b) { ++begins; values.push_back(v); bounds.push_back(b); }
   template<class INF> size_t step(INF& inf) { if(stopped) afterStop = true; if(onStep) onStep(); ++steps; if(steps >= stopAfter) { stopped = true; return opengm::visitors::VisitorReturnFlag::StopInfBoundReached; } return 0; }
   template<class INF> size_t operator()(INF& inf) { note(inf); return step(inf); }
   template<class INF, class A> size_t operator()(INF& inf, A) { note(inf); return step(inf); }
   template<class INF> size_t operator()(INF& inf, double v, double b) { values.push_back(v); bounds.push_back(b); return step(inf); }
   template<class INF> void end(INF& inf) { ++ends; note(inf); }
   template<class INF> void end(INF& inf, double v, double b) { ++ends; values.push_back(v); bounds.push_back(b); }
   void addLog(const std::string&) {}
   void log(const std::string&, double) {}
};

struct Answer { bool ok; std::vector<size_t> arg; double value, bound; Answer() : ok(false), value(0), bound(0) {} };
template<class INF> Answer answer(const INF& inf) {
   Answer r; std::vector<typename INF::LabelType> a; const opengm::InferenceTermination t = inf.arg(a);
   r.ok = t == opengm::NORMAL || t == opengm::CONVERGENCE; r.arg.assign(a.begin(), a.end()); r.value = (double)inf.value(); r.bound = (double)inf.bound(); return r;
}
inline bool sameNum(double a, double b, double tol = 1e-9) { return a == b || (std::isnan(a) && std::isnan(b)) || close(a, b, tol, tol); }
inline bool sameAnswer(const Answer& a, const Answer& b) { return a.ok == b.ok && a.arg == b.arg && sameNum(a.value, b.value, 0) && sameNum(a.bound, b.bound, 0); }
inline std::string showA(const Answer& a) { std::ostringstream o; o << (a.ok ? "arg" : "noarg") << show(a.arg) << " value " << a.value << " bound " << a.bound; return o.str(); }

// what every answer must satisfy; opt is the true optimum
inline void judge(Ctx& c, const Answer& a, const RefModel& ref, Op op, bool maximize, double opt, const std::string& tag, double tol = 1e-9) {
   if(a.ok) {
      VF_CHECK(validLabeling(ref, a.arg), tag + "/labels", show(a.arg));
      const double v = ref.eval(a.arg, op);
      VF_CHECK(close(a.value, v, tol, tol), tag + "/value", "reported " << a.value << " labeling has " << v << " " << show(a.arg));
   } else {
      c.count("answers declined");
      VF_EXPECT(!(maximize ? a.value > opt + tol * (1 + std::fabs(opt)) : a.value < opt - tol * (1 + std::fabs(opt))), tag + "/value-without-labels", "reported " << a.value << " optimum " << opt);
   }
   const double slack = tol * (1 + std::fabs(opt));
   VF_EXPECT(!std::isnan(a.bound) && (maximize ? a.bound >= opt - slack : a.bound <= opt + slack), tag + "/bound", "bound " << a.bound << " passes the optimum " << opt);
   c.count("answers judged");
}
} // namespace sv
