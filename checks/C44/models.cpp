// C44: shared models queried by several threads
#include "threads.hpp"
#include "functions.hpp"
#include <opengm/functions/view.hxx>
#include <opengm/functions/view_fix_variables_function.hxx>
#include <opengm/graphicalmodel/graphicalmodel_manipulator.hxx>
#include <opengm/inference/movemaker.hxx>
using namespace c44;
namespace {
template<class GM> std::vector<size_t> lab(const GM& gm, Rng& r) { std::vector<size_t> l; for(size_t v = 0; v < gm.numberOfVariables(); ++v) l.push_back(r.below(gm.numberOfLabels(v))); return l; }
template<class GM> void op(const GM& gm, Rng& r, Seen& s) {
   typedef typename GM::ValueType T; typedef typename GM::IndexType I; typedef typename GM::LabelType L; typedef opengm::IndependentFactor<T, I, L> Ind; const size_t nf = gm.numberOfFactors(), nv = gm.numberOfVariables();
   switch(r.below(12)) {
   case 0: case 1: for(size_t k = 0; k < 6; ++k) { const std::vector<size_t> l = lab(gm, r); s((double)gm.evaluate(l.begin())); } s.end("evaluate"); break;
   case 2: case 3: case 4: if(nf) query(gm[r.below(nf)], r, s, true); break;
   case 5: if(nf) { const typename GM::FactorType& f = gm[r.below(nf)]; std::vector<T> v(f.size() + 1); f.copyValues(v.begin()); for(size_t i = 0; i < f.size(); ++i) s((double)v[i]); if(f.numberOfVariables()) { f.copyValuesSwitchedOrder(v.begin()); for(size_t i = 0; i < f.size(); ++i) s((double)v[i]); } std::vector<I> vi; f.variableIndices(std::back_inserter(vi)); for(size_t i = 0; i < vi.size(); ++i) s(vi[i]); s.end("copied values"); } break;
   case 6: if(nv) { std::vector<std::set<I> > a; gm.variableAdjacencyList(a); for(size_t i = 0; i < a.size(); ++i) for(typename std::set<I>::iterator k = a[i].begin(); k != a[i].end(); ++k) s((double)*k); s(gm.isAcyclic()); s(gm.maxFactorOrder()); marray::Vector<size_t> rep; s(gm.isConnected(rep)); s(gm.factorOrder()); s.end("graph"); } break;
   case 7: if(nv) { const size_t v = r.below(nv), w = r.below(nv); s(gm.numberOfFactors(v)); for(size_t k = 0; k < gm.numberOfFactors(v); ++k) { const size_t f = gm.factorOfVariable(v, k); s(f); s(gm.variableFactorConnection(v, f)); for(size_t j = 0; j < gm.numberOfVariables(f); ++j) s(gm.variableOfFactor(f, j)); } if(v != w) s(gm.variableVariableConnection(v, w)); s.end("neighbours"); } break;
   case 8: if(nf) { Ind a(gm[r.below(nf)]), b(gm[r.below(nf)]), x; GM::OperatorType::op(a, b, x); std::vector<size_t> q(x.numberOfVariables() + 1, 0); for(size_t i = 0; i + 1 < q.size(); ++i) q[i] = r.below(x.numberOfLabels(i)); s((double)x(q.begin())); s((double)x.size()); T y; a.template accumulate<opengm::Minimizer>(y); s((double)y); s.end("independent factors"); } break;
   case 9: { GM copy(gm); const std::vector<size_t> l = lab(gm, r); s((double)copy.evaluate(l.begin())); s(copy.numberOfFactors()); s.end("copied model"); break; }
   case 10: if(nv) { const std::vector<size_t> l = lab(gm, r); std::vector<L> st(l.begin(), l.end()); opengm::Movemaker<GM> m(gm, st.begin()); for(size_t k = 0; k < 4; ++k) { I v = (I)r.below(nv); L x = (L)r.below(gm.numberOfLabels(v)); s((double)m.valueAfterMove(&v, &v + 1, &x)); m.move(&v, &v + 1, &x); s((double)m.value()); } s.end("moves"); } break;
   default: if(nf && nv) {
      const size_t i = r.below(nf); opengm::ViewFunction<GM> f(gm[i]); query(f, r, s, false); std::vector<opengm::PositionAndLabel<I, L> > fix; if(gm[i].numberOfVariables()) { const size_t p = r.below(gm[i].numberOfVariables()); fix.push_back(opengm::PositionAndLabel<I, L>((I)p, (L)r.below(gm[i].numberOfLabels(p)))); }
      opengm::ViewFixVariablesFunction<GM> g(gm[i], fix); query(g, r, s, false);
      opengm::GraphicalModelManipulator<GM> m(gm); for(size_t k = 0; k < nv; ++k) if(r.chance(0.4)) m.fixVariable((I)k, (L)r.below(gm.numberOfLabels(k))); m.lock(); m.buildModifiedModel(); s(m.getModifiedModel().numberOfVariables()); const std::vector<size_t> l = lab(m.getModifiedModel(), r); s((double)m.getModifiedModel().evaluate(l.begin())); s.end("manipulated model"); } }
}
template<class GM> struct Job { const GM& gm; size_t n; void operator()(Rng& r, Seen& s, const std::function<void()>& at) const { for(size_t k = 0; k < n; ++k) { at(); op(gm, r, s); } } };
template<class GM> void shared(Ctx& c, const MixedModel& m) {
   c.desc << m.str(); m.ref.digest(c); GM gm = buildMixed<GM>(c.rng, m); const size_t threads = 2 + c.rng.below(3); Job<GM> j = {gm, 2 + c.rng.below(12)}; together(c, threads, j, "model");
   std::string why; VF_EXPECT(sameModel(gm, m.ref, &why), "model/changed", why); }
}
typedef opengm::GraphicalModel<double, opengm::Adder, FnTypes<double, size_t, size_t>::All, opengm::DiscreteSpace<> > GmAll;
typedef opengm::GraphicalModel<float, opengm::Multiplier, FnTypes<float, unsigned int, unsigned short>::Three, opengm::DiscreteSpace<unsigned int, unsigned short> > GmThree;
VF_SCENARIO(shared_models, 600, 30000) { shared<GmAll>(c, randMixed(c.rng, 1, 5, 1, 4, 4, 7, TIES)); }
VF_SCENARIO(shared_models_simple, 200, 10000) { std::vector<FnKind> k; k.push_back(F_EXPLICIT); k.push_back(F_POTTS); k.push_back(F_POTTSN); shared<GmThree>(c, randMixed(c.rng, 1, 5, 1, 4, 3, 5, POSDYADIC, 0.1, true, 2048, &k)); }
