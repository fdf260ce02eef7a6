// C44: separate solvers of several threads on one shared model
#include "threads.hpp"
#include "registry.hpp"
using namespace reg; using namespace c44;
namespace {
struct Job { const Model& m; const std::vector<const Kind*>& ks; size_t n;
   void operator()(Rng& r, Seen& s, const std::function<void()>& at) const {
      for(size_t i = 0; i < n; ++i) { at();
         if(r.chance(0.2)) { for(size_t k = 0; k < 5; ++k) { std::vector<size_t> l; for(size_t v = 0; v < m.ref().labels.size(); ++v) l.push_back(r.below(m.ref().labels[v])); s(m.evaluate(l)); } s.end("evaluate"); continue; }
         const Kind& k = *ks[r.below(ks.size())]; std::unique_ptr<Run> x(k.make(m, Rng(r.u64()))); at();
         if(r.chance(0.5)) x->infer(); else { Rec v(1 + r.below(20)); v.onStep = at; x->infer(v); for(size_t q = 0; q < v.values.size(); ++q) { s(v.values[q]); s(v.bounds[q]); } }
         at(); const Answer a = x->answer(); s(a.ok); s(a.value); s(a.bound); for(size_t v = 0; v < a.arg.size(); ++v) s(a.arg[v]); s.end(k.name.c_str()); } } };
bool joins(const Kind& k) { return !(k.flags & (RANDOM | PRINTS | SERIAL)); }
}
VF_SCENARIO(shared_solvers, 700, 40000) {
   Rng& r = c.rng; const Kind* first; do first = &anyKind(r); while(!joins(*first)); std::unique_ptr<Model> m(drawModel(c, *first));
   std::vector<const Kind*> ks(1, first), can; for(size_t i = 0; i < kinds().size(); ++i) { const Kind& k = kinds()[i]; if(joins(k) && k.op == m->op && k.accepts(m->ref())) can.push_back(&k); } for(size_t i = 0; i < 3 && !can.empty(); ++i) ks.push_back(can[r.below(can.size())]);
   for(size_t i = 0; i < ks.size(); ++i) { c.desc << ks[i]->name << " "; c.count("shared " + ks[i]->name); }
   Job j = {*m, ks, 1 + r.below(3)}; together(c, 2 + r.below(3), j, "solver"); std::string why; VF_EXPECT(m->unchanged(&why), "solver/model-changed", why); }
