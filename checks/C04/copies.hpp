#pragma once
#include "common.hpp"
namespace {
// grows a library model and its reference by one random factor (new explicit function)
template<class GM> void grow(Ctx& c, GM& gm, RefModel& m, Style st) {
   if(c.rng.chance(0.2)) { size_t k = 1 + c.rng.below(3); gm.addVariable(k); m.labels.push_back(k); }
   addRandFactor(c.rng, m, randScope(c.rng, m.labels.size(), c.rng.below(4)), st);
   addExplicit(gm, m, m.f.size() - 1);
}
struct Mutate { // changes one entry of one explicit function that is used by factor i
   template<class GM> static bool go(Rng& r, GM& gm, MixedModel& mm, const std::vector<typename GM::FunctionIdentifier>& id) {
      typedef opengm::ExplicitFunction<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType> F;
      std::vector<size_t> cand; for(size_t i = 0; i < mm.fn.size(); ++i) if(mm.fn[i].kind == F_EXPLICIT && !mm.fn[i].shape.empty()) cand.push_back(i);
      if(cand.empty()) return false;
      const size_t k = cand[r.below(cand.size())]; F& f = gm.template getFunction<F>(id[k]);
      const size_t e = r.below(mm.fn[k].tab.size()); const double v = mm.fn[k].tab[e] + 1 + r.below(5);
      f(e) = v; mm.fn[k].tab[e] = v;
      for(size_t i = 0; i < mm.ref.f.size(); ++i) if(mm.fnOfFactor[i] == k) mm.ref.f[i].tab = mm.fn[k].tab;
      return true;
   }
};
template<class GM> std::unique_ptr<GM> make(Rng& r, const MixedModel& m, std::vector<typename GM::FunctionIdentifier>& id) {
   std::unique_ptr<GM> g(new GM(typename GM::SpaceType(m.ref.labels.begin(), m.ref.labels.end())));
   id.clear();
   for(size_t i = 0; i < m.fn.size(); ++i) id.push_back(addSpec(*g, m.fn[i], r.chance(0.2) ? 2 : 0));
   for(size_t i = 0; i < m.ref.f.size(); ++i) g->addFactor(id[m.fnOfFactor[i]], m.ref.f[i].vars.begin(), m.ref.f[i].vars.end());
   return g;
}
template<class GM> void copies(Ctx& c, const char* tag, const std::vector<FnKind>* kinds = 0) {
   const std::string t(tag); const Style st = SMALLINT;
   std::vector<typename GM::FunctionIdentifier> id, id2;
   MixedModel a = randMixed(c.rng, 0, 4, 1, 3, 4, 7, st, 0.15, false, 300, kinds), b = randMixed(c.rng, 0, 5, 1, 3, 4, 9, st, 0.15, false, 300, kinds);
   a.ref.digest(c); b.ref.digest(c); c.desc << a.str() << " | other " << b.str();
   std::unique_ptr<GM> A = make<GM>(c.rng, a, id), B = make<GM>(c.rng, b, id2);
   std::unique_ptr<GM> C;
   const size_t how = c.rng.below(5);
   if(how == 0) C.reset(new GM(*A));
   else if(how == 1) { C.reset(new GM()); *C = *A; }
   else if(how == 2) { C.reset(new GM(*B)); *C = *A; }
   else if(how == 3) { C.reset(new GM(*A)); *C = *B; *C = *A; }
   else { C.reset(new GM(*A)); GM& alias = *C; *C = alias; std::vector<GM> v; v.push_back(*A); v.push_back(*B); v.push_back(v[0]); *C = v[2]; same(c, v[0], a.ref, t + "/vector"); same(c, v[1], b.ref, t + "/vector2"); }
   c.count("copy form " + std::to_string(how));
   same(c, *C, a.ref, t + "/copy"); same(c, *A, a.ref, t + "/source"); same(c, *B, b.ref, t + "/bystander");
   // independence in both directions: table edits and structural edits
   MixedModel ca = a;
   for(size_t e = 0; e < 2; ++e) {
      if(Mutate::go(c.rng, *A, a, id)) { same(c, *C, ca.ref, t + "/copy-after-source-edit"); same(c, *A, a.ref, t + "/source-after-edit"); c.count("table edits"); }
      if(Mutate::go(c.rng, *C, ca, id)) { same(c, *A, a.ref, t + "/source-after-copy-edit"); same(c, *C, ca.ref, t + "/copy-after-edit"); }
   }
   RefModel ra = a.ref, rc = ca.ref;
   for(size_t e = 0; e < 3; ++e) { if(c.rng.chance(0.5)) grow(c, *A, ra, st); else grow(c, *C, rc, st); }
   same(c, *A, ra, t + "/source-after-growth"); same(c, *C, rc, t + "/copy-after-growth"); c.count("growth edits", 3);
   if(c.rng.chance(0.5)) { A.reset(); same(c, *C, rc, t + "/copy-after-source-destroyed"); grow(c, *C, rc, st); same(c, *C, rc, t + "/copy-grown-after-source-destroyed"); }
   else { C.reset(); same(c, *A, ra, t + "/source-after-copy-destroyed"); }
   // assign(space) clears
   typename GM::SpaceType sp(b.ref.labels.begin(), b.ref.labels.end());
   B->assign(sp); RefModel cl; cl.labels = b.ref.labels; same(c, *B, cl, t + "/assign-space"); grow(c, *B, cl, st); same(c, *B, cl, t + "/assign-space-grow");
}
// assignment between models with different type lists; the target had content
template<class SRC, class DST> void cross(Ctx& c, const char* tag, const std::vector<FnKind>* kinds, const std::vector<FnKind>* dkinds) {
   const std::string t(tag);
   std::vector<typename SRC::FunctionIdentifier> id; std::vector<typename DST::FunctionIdentifier> id2;
   MixedModel a = randMixed(c.rng, 0, 4, 1, 3, 4, 8, SMALLINT, 0.15, false, 300, kinds), b = randMixed(c.rng, 0, 4, 1, 3, 4, 8, SMALLINT, 0.15, false, 300, dkinds);
   a.ref.digest(c); b.ref.digest(c); c.desc << a.str() << " | target held " << b.str();
   std::unique_ptr<SRC> A = make<SRC>(c.rng, a, id); std::unique_ptr<DST> D = c.rng.chance(0.6) ? make<DST>(c.rng, b, id2) : std::unique_ptr<DST>(new DST());
   *D = *A; same(c, *D, a.ref, t + "/assigned"); same(c, *A, a.ref, t + "/source");
   const size_t nf = D->numberOfFactors();
   RefModel rd = a.ref, ra = a.ref; MixedModel am = a;
   if(c.rng.chance(0.5)) { if(Mutate::go(c.rng, *A, am, id)) { ra = am.ref; same(c, *D, rd, t + "/target-after-source-edit"); } }
   grow(c, *D, rd, SMALLINT); grow(c, *A, ra, SMALLINT);
   same(c, *D, rd, t + "/grown"); same(c, *A, ra, t + "/source-grown");
   *D = *A; same(c, *D, ra, t + "/reassigned"); (void)nf;
   A.reset(); same(c, *D, ra, t + "/after-source-destroyed");
   DST E(*D); same(c, E, ra, t + "/copy-of-assigned");
}
}
