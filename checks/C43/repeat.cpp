// C43: equal solvers give equal answers, whatever else runs in between, and the model stays as it was
#include "registry.hpp"
using namespace reg;
namespace {
std::vector<size_t> randStart(Rng& r, const RefModel& m) { std::vector<size_t> l(m.labels.size()); for(size_t v = 0; v < l.size(); ++v) l[v] = r.below(m.labels[v]); return l; }
void unchanged(Ctx& c, const Model& m, const std::string& t) { std::string why; VF_CHECK(m.unchanged(&why), t + "/model-changed", why); c.count("models compared"); }
void run(Rng& r, const Kind& k, Run& s, unsigned sd) { seed(k, sd); const size_t how = r.below(3); if(how == 0) s.infer(); else if(how == 1) s.inferEmpty(); else { Rec v(size_t(-1), r.chance(0.5), r.chance(0.5)); s.infer(v); } }
// fresh solvers, on the same and on an equal model; a used solver that is reset; a used solver put back to its start
void again(Ctx& c, const Kind& k) {
   Rng& r = c.rng; std::unique_ptr<Model> m(drawModel(c, k)); const std::string t = k.name; Quiet q(k); const Rng par(r.u64()); const unsigned sd = (unsigned)r.below(1000); const bool given = k.has(START) && r.chance(0.5); const std::vector<size_t> st = randStart(r, m->ref()); if(given) c.desc << "start" << show(st);
   seed(k, sd); std::unique_ptr<Run> a(k.make(*m, par)); if(given) a->start(st); const Answer a0 = a->answer(); run(r, k, *a, sd); const Answer first = a->answer(); unchanged(c, *m, t);
   { seed(k, sd); std::unique_ptr<Run> b(k.make(*m, par)); if(given) b->start(st); const Answer b0 = b->answer(); VF_CHECK(sameAnswer(a0, b0), t + "/before", showA(a0) << " then " << showA(b0)); run(r, k, *b, sd); VF_CHECK(sameAnswer(first, b->answer()), t + "/fresh", showA(first) << " then " << showA(b->answer())); c.count("fresh solvers compared"); }
   VF_CHECK(sameAnswer(first, a->answer()), t + "/disturbed", showA(first) << " then " << showA(a->answer()));
   { Model two(r, m->k, k.op); seed(k, sd); std::unique_ptr<Run> b(k.make(two, par)); if(given) b->start(st); run(r, k, *b, sd); VF_CHECK(sameAnswer(first, b->answer()), t + "/equal-model", showA(first) << " then " << showA(b->answer())); unchanged(c, two, t); c.count("equal models compared"); }
   const size_t extra = r.below(3); for(size_t i = 0; i < extra; ++i) { seed(k, (unsigned)r.below(1000)); if(r.chance(0.5)) { Rec v(1 + r.below(4)); a->infer(v); } else a->infer(); }
   if(given && !k.has(RESET) && !k.has(FRESH)) {}
   else if(given) { // back to the same start
      if(k.has(RESET)) { seed(k, sd); a->reset(); } a->start(st); const Answer z = a->answer(); VF_CHECK(z.arg == a0.arg && sameNum(z.value, a0.value), t + "/restart/before", showA(a0) << " then " << showA(z)); run(r, k, *a, sd); VF_CHECK(sameAnswer(first, a->answer()), t + "/restart", showA(first) << " then " << showA(a->answer())); c.count("restarts compared");
   } else if(k.has(RESET)) { seed(k, sd); a->reset(); const Answer z = a->answer(); VF_CHECK(sameAnswer(z, a0), t + "/reset/before", showA(a0) << " then " << showA(z)); run(r, k, *a, sd); VF_CHECK(sameAnswer(first, a->answer()), t + "/reset", showA(first) << " then " << showA(a->answer())); c.count("resets compared"); }
   else if(k.has(FRESH)) { run(r, k, *a, sd); VF_CHECK(sameAnswer(first, a->answer()), t + "/again", showA(first) << " then " << showA(a->answer())); c.count("second runs compared"); }
   unchanged(c, *m, t);
}
// solvers run one inside the steps of another one, on one model
void nested(Ctx& c) {
   Rng& r = c.rng; const Kind* k0 = &anyKind(r); while(k0->has(SERIAL)) k0 = &anyKind(r); std::unique_ptr<Model> m(drawModel(c, *k0));
   std::vector<const Kind*> ks(1, k0); for(size_t tries = 0; tries < 40 && ks.size() < 5; ++tries) { const Kind& k = anyKind(r); if(k.op == m->op && !k.has(SERIAL) && k.accepts(m->ref())) ks.push_back(&k); }
   std::vector<Rng> par; std::vector<Answer> alone; Mute mute;
   for(size_t i = 0; i < ks.size(); ++i) { par.push_back(Rng(r.u64())); std::unique_ptr<Run> s(ks[i]->make(*m, par[i])); s->infer(); alone.push_back(s->answer()); c.desc << ks[i]->name << " "; }
   std::vector<std::unique_ptr<Run> > s; for(size_t i = 0; i < ks.size(); ++i) s.emplace_back(ks[i]->make(*m, par[i]));
   std::vector<char> done(ks.size(), 0); size_t depth = 0, most = 0;
   std::function<void(size_t)> go = [&](size_t i) {
      done[i] = 1; ++depth; most = std::max(most, depth); Rec v(size_t(-1), r.chance(0.3), true); v.onStep = [&]() { if(!r.chance(0.3)) return; std::vector<size_t> left; for(size_t j = 0; j < ks.size(); ++j) if(!done[j]) left.push_back(j); if(left.empty()) return; go(left[r.below(left.size())]); };
      s[i]->infer(v); --depth; c.count("solvers nested", depth > 0); };
   for(size_t i = 0; i < ks.size(); ++i) if(!done[i]) go(i);
   for(size_t i = 0; i < ks.size(); ++i) VF_CHECK(sameAnswer(alone[i], s[i]->answer()), ks[i]->name + "/interleaved", showA(alone[i]) << " then " << showA(s[i]->answer()));
   c.count("solvers interleaved", ks.size()); unchanged(c, *m, k0->name);
}
}
VF_SCENARIO(again, 5000, 200000) { again(c, anyKind(c.rng)); }
VF_SCENARIO(nested, 1500, 60000) { nested(c); }
