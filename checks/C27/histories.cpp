// C27: whatever is done with a solver, each answer it gives is consistent
#include "registry.hpp"
using namespace reg;
namespace {
double worst(const Kind& k) { return k.mx ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::infinity(); }
void steps(Ctx& c, const Rec& v, const Kind& k, const Model& m, double opt, const std::string& tag) {
   for(size_t i = 0; i < v.args.size(); ++i) { Answer a; a.ok = v.argOk[i]; a.arg = v.args[i]; a.value = v.values[i]; a.bound = v.bounds[i]; judge(c, a, m.ref(), k.op, k.mx, opt, tag, k.tol); c.count("steps judged"); }
}
void history(Ctx& c, const Kind& k) {
   Rng& r = c.rng; std::unique_ptr<Model> m(drawModel(c, k)); const RefModel& ref = m->ref(); const double opt = ref.best(k.mx, k.op); const std::string t = k.name; Quiet q(k);
   const Rng par(r.u64()); std::unique_ptr<Run> s(k.make(*m, par)); VF_CHECK(s->model() == m->address() && !s->name().empty(), t + "/model", "");
   judge(c, s->answer(), ref, k.op, k.mx, opt, t + "/before", k.tol); const size_t ops = 1 + r.below(6); c.digest(ops); bool complete = false; std::vector<std::string> done;
   for(size_t i = 0; i < ops; ++i) {
      const size_t op = r.below(12); c.digest(op); seed(k, (unsigned)r.below(1000)); std::string h = t;
      if(op < 4) { c.desc << " infer"; s->infer(); complete = true; h += "/infer"; c.count("runs"); }
      else if(op < 6) { c.desc << " visited"; Rec v; s->infer(v); steps(c, v, k, *m, opt, t + "/step"); complete = true; h += "/visited"; c.count("runs"); }
      else if(op < 9) { const size_t stop = 1 + r.below(6); c.desc << " stop" << stop; Rec v(stop); s->infer(v); steps(c, v, k, *m, opt, t + "/step"); complete = !v.stopped; h += "/stopped"; c.count(v.stopped ? "runs stopped early" : "runs"); }
      else if(op == 9) { c.desc << " reset"; if(!k.has(RESET)) continue; s->reset(); c.count("resets"); complete = false; h += "/reset"; }
      else if(op == 10) { std::vector<size_t> l(ref.labels.size()); for(size_t v = 0; v < l.size(); ++v) l[v] = r.below(ref.labels[v]); c.desc << " start" << show(l); s->start(l); complete = false; h += "/start"; c.count("starting points"); if(k.has(START)) { const Answer a = s->answer(); VF_CHECK(a.ok && a.arg == l, t + "/start-kept", showA(a)); } }
      else c.desc << " ask";
      const Answer a = s->answer(); judge(c, a, ref, k.op, k.mx, opt, h, k.tol); const Answer b = s->answer(); VF_CHECK(sameAnswer(a, b), h + "/asked-twice", showA(a) << " then " << showA(b));
      if(complete && k.has(EXACT)) { VF_CHECK(a.ok && close(ref.eval(a.arg, k.op), opt, k.tol, k.tol), h + "/optimum", showA(a) << " optimum " << opt); c.count("optima"); }
      if(complete) { VF_CHECK(a.ok, h + "/answers", showA(a)); if(sameNum(a.value, a.bound)) c.count("optimality claimed"); }
   }
   std::string why; VF_EXPECT(m->unchanged(&why), t + "/model-changed", why);
}
}
VF_SCENARIO(histories, 6000, 300000) { history(c, anyKind(c.rng)); }
