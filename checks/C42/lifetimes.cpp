// C42: solvers are made, copied, assigned, used and destroyed in any order,
// with nothing but the sanitizers to judge
#include "registry.hpp"
using namespace reg;
namespace {
void life(Ctx& c, const Kind& k) {
   Rng& r = c.rng; std::unique_ptr<Model> m(drawModel(c, k)); const RefModel& ref = m->ref(); Quiet q(k); std::vector<std::unique_ptr<Run> > s; const size_t ops = 1 + r.below(8); c.digest(ops); std::string why; c.seen();
   for(size_t i = 0; i < ops; ++i) {
      if(s.empty() || r.chance(0.15)) { c.desc << " make" << s.size(); s.emplace_back(k.make(*m, Rng(r.u64()))); c.count("solvers made"); continue; }
      const size_t a = r.below(s.size()), op = r.below(16); c.digest(op * 8 + a); seed(k, (unsigned)r.below(1000)); c.desc << " #" << a;
      if(op < 3) { c.desc << "infer"; s[a]->infer(); c.count("runs"); }
      else if(op < 5) { Rec v(1 + r.below(5)); c.desc << "stopped"; s[a]->infer(v); c.count("runs with a visitor"); }
      else if(op == 5) { c.desc << "timed"; Log l; Timing t; t.nth = 1 + r.below(3); if(r.chance(0.5)) t.limit = 0; s[a]->timing(t, l); if(r.chance(0.5)) s[a]->timingAgain(l); c.count("timed runs"); }
      else if(op == 6) { c.desc << "reset"; if(k.has(RESET)) s[a]->reset(); c.count("resets"); }
      else if(op == 7) { std::vector<size_t> l(ref.labels.size()); for(size_t v = 0; v < l.size(); ++v) l[v] = r.below(ref.labels[v]); c.desc << "start"; s[a]->start(l); c.count("starting points"); }
      else if(op < 10) { c.desc << "ask"; s[a]->answer(); c.count("answers"); }
      else if(op < 12) { c.desc << "destroy"; s.erase(s.begin() + a); c.count("destroyed"); }
      else if(op < 14) { c.desc << "copy"; std::unique_ptr<Run> n(s[a]->copy()); if(n) { const Answer x = s[a]->answer(), y = n->answer(); VF_CHECK(n->model() == m->address() && sameAnswer(x, y), k.name + "/copy-answers", showA(x) << " copy " << showA(y)); s.push_back(std::move(n)); c.count("copies"); c.count("copied " + k.name); } }
      else { const size_t b = r.below(s.size()); c.desc << "=#" << b; if(s[a]->assign(*s[b])) { const Answer x = s[b]->answer(), y = s[a]->answer(); VF_CHECK(sameAnswer(x, y), k.name + "/assigned-answers", showA(x) << " copy " << showA(y)); c.count("assignments"); c.count("assigned " + k.name); } }
   }
   // destroyed in any order, possibly after the last use of the model
   while(!s.empty()) s.erase(s.begin() + r.below(s.size()));
   VF_EXPECT(m->unchanged(&why), k.name + "/model-changed", why);
}
}
VF_SCENARIO(lifetimes, 4000, 200000) { life(c, anyKind(c.rng)); }
