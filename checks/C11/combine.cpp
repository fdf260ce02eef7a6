#include <indfactor.hpp>
VF_WIDE(0.05)
using namespace vf;
namespace {
// operations used with the named functions; deliberately asymmetric ones too
struct Op2 { int k; explicit Op2(int kk) : k(kk) {} template<class T> T operator()(const T a, const T b) const {
   switch(k) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; case 4: return T(a || b); case 5: return T(a && b); case 6: return a < b ? a : b; case 7: return a < b ? b : a; default: return 2 * a - b; } } };
struct Op1 { int k; explicit Op1(int kk) : k(kk) {} template<class T> T operator()(const T a) const { switch(k) { case 0: return -a; case 1: return a * a; case 2: return a < 0 ? -a : a; default: return 3 * a + 1; } } };
template<class T, class IND> struct Sym { // operator symbols, free and in place
   template<class A, class B> static IND free(int k, const A& a, const B& b) { switch(k) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; case 4: return a || b; default: return a && b; } }
   template<class B> static void in(int k, IND& a, const B& b) { switch(k) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a /= b; break; case 4: a |= b; break; default: a &= b; } }
};
template<class GM> void combineCase(Ctx& c, const MixedModel& mm, Style st) {
   typedef typename GM::FactorType Factor; typedef typename GM::ValueType T; typedef opengm::IndependentFactor<T, typename GM::IndexType, typename GM::LabelType> Ind;
   const RefModel& m = mm.ref; Rng& r = c.rng;
   c.desc << mm.str(); m.digest(c);
   GM gm = buildMixed<GM>(r, mm);
   #define SAME(G, REF, KEY) { const std::string d_ = diffFactor(G, m, REF); VF_EXPECT(d_.empty(), KEY, d_ << " op " << k << " operands " << show(ra.vars) << show(ra.tab) << show(rb.vars) << show(rb.tab)); }
   for(size_t it = 0; it < 8; ++it) {
      const bool fa = !m.f.empty() && r.chance(0.5), fb = !m.f.empty() && r.chance(0.5); const size_t ia = r.below(m.f.size() + (m.f.empty())), ib = r.below(m.f.size() + (m.f.empty()));
      RefFactor ra = fa ? m.f[ia] : randRef(r, m, 3, st), rb = fb ? m.f[ib] : (r.chance(0.15) ? ra : randRef(r, m, 3, st));
      int k = (int)r.below(9); 
      if(k == 3) { bool z = false; for(size_t i = 0; i < rb.tab.size(); ++i) z = z || rb.tab[i] == 0; if(z || !(st == POW2)) k = 2; }
      c.digest(k); c.digestV(ra.vars); c.digestV(rb.vars);
      const RefFactor want = combine(m, ra, rb, Op2(k));
      Ind A = makeInd<Ind>(r, m, ra), B = makeInd<Ind>(r, m, rb); const Ind& CB = B;
      SAME(A, ra, "independent/made") 
      { Ind x; if(r.chance(0.5)) x = makeInd<Ind>(r, m, randRef(r, m, 3, st)); // output with old content
        if(fa && fb) opengm::operateBinary(gm[ia], gm[ib], x, Op2(k)); else if(fa) opengm::operateBinary(gm[ia], CB, x, Op2(k)); else if(fb) opengm::operateBinary(A, gm[ib], x, Op2(k)); else opengm::operateBinary(A, CB, x, Op2(k));
        SAME(x, want, std::string("free-function/") + (fa ? "factor" : "independent") + (fb ? "-factor" : "-independent")) SAME(A, ra, "free-function/operand-a-changed") SAME(B, rb, "free-function/operand-b-changed") }
      { Ind x(A); if(fb) opengm::operateBinary(x, gm[ib], Op2(k)); else opengm::operateBinary(x, CB, Op2(k)); SAME(x, want, "free-function-in-place") }
      { Ind x(A); if(fb) x.operateBinary(gm[ib], Op2(k)); else x.operateBinary(CB, Op2(k)); SAME(x, want, "member-in-place") }
      { Ind x; if(r.chance(0.5)) x = B; x.operateBinary(A, CB, Op2(k)); SAME(x, want, "member-two-operands") }
      if(k < 6) {
         if(fb) { Ind x = Sym<T, Ind>::free(k, A, gm[ib]); SAME(x, want, "operator/independent-factor") Ind y(A); Sym<T, Ind>::in(k, y, gm[ib]); SAME(y, want, "operator-in-place/factor") }
         if(fa) { Ind x = Sym<T, Ind>::free(k, gm[ia], CB); SAME(x, want, "operator/factor-independent") }
         if(fa && fb) { Ind x = Sym<T, Ind>::free(k, gm[ia], gm[ib]); SAME(x, want, "operator/factor-factor") }
         { Ind x = Sym<T, Ind>::free(k, A, CB); SAME(x, want, "operator/independent-independent") Ind y(A); Sym<T, Ind>::in(k, y, CB); SAME(y, want, "operator-in-place/independent") }
      }
      // with a scalar
      { double s = drawValue(r, st); if(k == 3 && s == 0) s = 2; const RefFactor rs = constantRef(s); RefFactor w1 = combine(m, ra, rs, Op2(k)), w2 = combine(m, rs, ra, Op2(k));
        Ind x(A); x.operateBinary(T(s), Op2(k)); SAME(x, w1, "scalar/member-in-place")
        Ind y; opengm::operateBinary(A, T(s), y, Op2(k)); SAME(y, w1, "scalar/free-right")
        Ind y2(A); opengm::operateBinary(y2, T(s), Op2(k)); SAME(y2, w1, "scalar/free-in-place")
        bool zero = false; for(size_t i = 0; i < ra.tab.size(); ++i) zero = zero || ra.tab[i] == 0;
        if(k != 3 || !zero) { Ind z; opengm::operateBinary(T(s), A, z, Op2(k)); SAME(z, w2, "scalar/free-left") }
        { const int q = 1 << r.below(3); const RefFactor rq = constantRef(q); Ind u, v(A), w; opengm::operateBinary(A, q, u, Op2(k)); SAME(u, combine(m, ra, rq, Op2(k)), "scalar/integer-right") opengm::operateBinary(v, q, Op2(k)); SAME(v, combine(m, ra, rq, Op2(k)), "scalar/integer-in-place")
          if(k != 3 || !zero) { opengm::operateBinary(q, A, w, Op2(k)); SAME(w, combine(m, rq, ra, Op2(k)), "scalar/integer-left") } }
        if(fa) { Ind u; opengm::operateBinary(gm[ia], T(s), u, Op2(k)); SAME(u, w1, "scalar/factor-right") if(k != 3 || !zero) { Ind v; opengm::operateBinary(T(s), gm[ia], v, Op2(k)); SAME(v, w2, "scalar/factor-left") } }
        if(k < 6) { Ind v = Sym<T, Ind>::free(k, A, T(s)); SAME(v, w1, "scalar/operator-right") Ind w(A); Sym<T, Ind>::in(k, w, T(s)); SAME(w, w1, "scalar/operator-in-place") if(k != 3 || !zero) { Ind q = Sym<T, Ind>::free(k, T(s), A); SAME(q, w2, "scalar/operator-left") }
           if(fa) { Ind q = Sym<T, Ind>::free(k, gm[ia], T(s)); SAME(q, w1, "scalar/operator-factor") } } }
      // unary
      { const Op1 o((int)r.below(4)); RefFactor w = ra; for(size_t i = 0; i < w.tab.size(); ++i) w.tab[i] = o(w.tab[i]);
        Ind x(A); x.operateUnary(o); SAME(x, w, "unary/member") Ind y(A); opengm::operateUnary(y, o); SAME(y, w, "unary/free-in-place")
        Ind z; if(r.chance(0.5)) z = B; if(fa) opengm::operateUnary(gm[ia], z, o); else opengm::operateUnary(A, z, o); SAME(z, w, fa ? "unary/factor" : "unary/independent") }
      { RefFactor w = ra; const double v = *std::min_element(ra.tab.begin(), ra.tab.end()); for(size_t i = 0; i < w.tab.size(); ++i) w.tab[i] -= v; Ind x(A); x.subtractOffset(); SAME(x, w, "subtract-offset") }
      // a chain of in-place operations, with the factor itself as operand now and then
      { Ind x(A); RefFactor w = ra; const size_t n = 1 + r.below(4);
        for(size_t j = 0; j < n; ++j) { const int q = (int)r.below(3); if(j && r.chance(0.2)) { w = combine(m, w, w, Op2(q)); Sym<T, Ind>::in(q, x, x); }
           else { RefFactor e = randRef(r, m, 2, st == POW2 ? POW2 : TIES); w = combine(m, w, e, Op2(q)); Sym<T, Ind>::in(q, x, makeInd<Ind>(r, m, e)); }
           for(size_t i = 0; i < w.tab.size(); ++i) w.tab[i] = (double)T(w.tab[i]); } // each step is rounded to the value type
        SAME(x, w, "chain") }
      c.count("combinations"); c.count(std::string("operation ") + std::string(1, char('0' + k))); if(ra.vars.empty() || rb.vars.empty()) c.count("with a factor without variables");
      if(want.vars.size() == ra.vars.size()) c.count("result over the same variables"); 
   }
   // the operands' model is unchanged
   std::string why; VF_EXPECT(sameModel(gm, m, &why), "model-changed", why);
}
// construction and assignment of independent factors from a model's variables
template<class GM> void madeFrom(Ctx& c, const MixedModel& mm) {
   typedef typename GM::ValueType T; typedef opengm::IndependentFactor<T, typename GM::IndexType, typename GM::LabelType> Ind;
   const RefModel& m = mm.ref; Rng& r = c.rng; c.desc << mm.str(); m.digest(c); GM gm = buildMixed<GM>(r, mm); const int k = -1; RefFactor ra, rb;
   for(int i = 0; i < 4; ++i) {
      const double v = (double)r.range(-4, 4); RefFactor e = randRef(r, m, 3, TIES, 0.2), one = e; std::fill(e.tab.begin(), e.tab.end(), v);
      { Ind x(gm, e.vars.begin(), e.vars.end(), T(v)); SAME(x, e, "from-model/value") }
      { Ind x; if(r.chance(0.5)) x = makeInd<Ind>(r, m, randRef(r, m, 3, TIES)); x.assign(gm, e.vars.begin(), e.vars.end(), T(v)); SAME(x, e, "from-model/assign-value") }
      { Ind x(gm, e.vars.begin(), e.vars.end()); RefFactor z = e; std::fill(z.tab.begin(), z.tab.end(), 0.0); SAME(x, z, "from-model/default") }
      { Ind x = makeInd<Ind>(r, m, randRef(r, m, 3, TIES)); x.assign(T(v)); SAME(x, constantRef(v), "from-scalar/assign") Ind y = Ind(T(v)); SAME(y, constantRef(v), "from-scalar/constructor") }
      { Ind x; x.assign(gm, e.vars.begin(), e.vars.end()); bool ok = x.numberOfVariables() == e.vars.size() && x.size() == e.tab.size(); VF_EXPECT(ok, "from-model/assign", x.size()); }
      if(m.f.size()) { const size_t f = r.below(m.f.size()); Ind x(gm[f]); SAME(x, m.f[f], "from-factor/constructor") Ind y = makeInd<Ind>(r, m, randRef(r, m, 3, TIES)); y = gm[f]; SAME(y, m.f[f], "from-factor/assign")
         Ind z(y); z += T(1); SAME(y, m.f[f], "copy-shares-values") y = y; SAME(y, m.f[f], "self-assignment") 
         // fixing some of its variables
         if(m.f[f].vars.size()) { std::vector<size_t> fix, lab; RefFactor rest; std::vector<size_t> l(m.labels.size(), 0);
            for(size_t q = 0; q < m.f[f].vars.size(); ++q) { const size_t w = m.f[f].vars[q]; if(r.chance(0.5)) { fix.push_back(w); lab.push_back(r.below(m.labels[w])); l[w] = lab.back(); } else rest.vars.push_back(w); }
            std::vector<size_t> sh; for(size_t q = 0; q < rest.vars.size(); ++q) sh.push_back(m.labels[rest.vars[q]]); std::vector<size_t> t(sh.size(), 0);
            do { for(size_t q = 0; q < t.size(); ++q) l[rest.vars[q]] = t[q]; rest.tab.push_back(valueAt(m, m.f[f], l)); } while(nextTuple(t, sh));
            Ind g(gm[f]); g.fixVariables(fix.begin(), fix.end(), lab.begin()); SAME(g, rest, "fix-variables") c.count("factors with variables fixed"); } }
   }
   #undef SAME
}
typedef FnTypes<double, size_t, size_t> D;
}
VF_SCENARIO(combine_all_types, 1500, 30000) {
   typedef opengm::GraphicalModel<double, opengm::Adder, D::All, opengm::DiscreteSpace<> > GM; const Style s[] = {SMALLINT, DYADIC, POW2, TIES}; const Style st = s[c.rng.below(4)];
   combineCase<GM>(c, randMixed(c.rng, 1, 6, 1, 4, 3, 5, st, 0.15), st);
}
VF_SCENARIO(combine_small_index, 800, 15000) {
   typedef FnTypes<float, unsigned, unsigned char> F; typedef opengm::GraphicalModel<float, opengm::Multiplier, F::Three, opengm::DiscreteSpace<unsigned, unsigned char> > GM; const Style s[] = {SMALLINT, POW2, TIES}; const Style st = s[c.rng.below(3)];
   const std::vector<FnKind> k = {F_EXPLICIT, F_POTTS, F_POTTSN}; combineCase<GM>(c, randMixed(c.rng, 1, 5, 1, 4, 3, 5, st, 0.15, false, 2048, &k), st);
}
VF_SCENARIO(construct, 1500, 30000) {
   typedef opengm::GraphicalModel<double, opengm::Adder, D::All, opengm::DiscreteSpace<> > GM; madeFrom<GM>(c, randMixed(c.rng, 1, 6, 1, 4, 4, 5, SMALLINT, 0.1));
}
