#include "common.hpp"
using namespace c10;
namespace {
template<class A, class B> void transfer(Ctx& c, const A& gm, const RefModel& m, const std::string& k, const MixedModel* old) {
   Scratch s; const std::string ds = c.rng.chance(0.5) ? "gm" : "a-model"; opengm::hdf5::save(gm, s.path, ds);
   { A unchanged(gm); wholeModel(c, unchanged, m, k + "/saved-model-unchanged"); }
   B g; if(old) { g = buildMixed<B>(c.rng, *old); c.count("loaded over a model with content"); }
   opengm::hdf5::load(g, s.path, ds); wholeModel(c, g, m, k);
   // the loaded model is a full model: copy, save again, load elsewhere, extend
   const std::string p2 = s.dir + "/n.h5"; opengm::hdf5::save(g, p2, "x"); A h; opengm::hdf5::load(h, p2, "x"); wholeModel(c, h, m, k + "/again");
   B e(g); wholeModel(c, e, m, k + "/copied");
   RefModel m2 = m; typedef opengm::ExplicitFunction<typename B::ValueType, typename B::IndexType, typename B::LabelType> F;
   m2.labels.push_back(3); g.addVariable(3); RefFactor rf; rf.vars.push_back(m2.labels.size() - 1); rf.tab.push_back(1); rf.tab.push_back(2); rf.tab.push_back(4); size_t sh[] = {3}; F f(sh, sh + 1); for(size_t i = 0; i < 3; ++i) f(&i) = (typename B::ValueType)rf.tab[i]; g.addFactor(g.addFunction(f), rf.vars.begin(), rf.vars.end()); m2.f.push_back(rf);
   wholeModel(c, g, m2, k + "/extended"); c.count("transfers");
}
template<class A, class B> void run(Ctx& c, Op op, const std::vector<FnKind>* kinds = 0, const std::vector<FnKind>* targetKinds = 0) {
   const Style st = std::numeric_limits<typename A::ValueType>::is_integer ? TIES : op == PROD ? POW2 : sumStyle(c.rng);
   MixedModel m = randMixed(c.rng, 0, 5, 1, 4, 4, 8, st, 0.1, false, 600, kinds), old = randMixed(c.rng, 0, 5, 1, 4, 4, 8, st, 0.1, false, 600, targetKinds);
   c.desc << m.str().substr(0, 400); m.ref.digest(c); A gm = buildMixed<A>(c.rng, m); transfer<A, B>(c, gm, m.ref, "model", c.rng.chance(0.4) ? &old : 0);
}
template<class T, class I, class L> struct G { typedef FnTypes<T, I, L> Y; typedef opengm::DiscreteSpace<I, L> S;
   typedef opengm::GraphicalModel<T, opengm::Adder, typename Y::All, S> A; typedef opengm::GraphicalModel<T, opengm::Adder, typename Y::AllReversed, S> R; typedef opengm::GraphicalModel<T, opengm::Multiplier, typename Y::All, S> M;
   typedef opengm::GraphicalModel<T, opengm::Adder, typename Y::Three, S> A3; typedef opengm::GraphicalModel<T, opengm::Adder, typename Y::Two, S> A2; };
typedef G<double, size_t, size_t> D; typedef G<float, unsigned, unsigned char> Fl; typedef G<int, size_t, size_t> In; typedef G<opengm::UInt64Type, size_t, unsigned short> U;
const std::vector<FnKind>* kindsTwo() { static const FnKind k[] = {F_EXPLICIT, F_POTTS}; static const std::vector<FnKind> v(k, k + 2); return &v; }
const std::vector<FnKind>* kindsThree() { static const FnKind k[] = {F_EXPLICIT, F_POTTS, F_POTTSN}; static const std::vector<FnKind> v(k, k + 3); return &v; }
}
VF_SCENARIO(same_types, 150, 4000) { run<D::A, D::A>(c, SUM); }
VF_SCENARIO(reversed_types, 120, 4000) { run<D::A, D::R>(c, SUM); }
VF_SCENARIO(floats, 100, 3000) { run<Fl::A, Fl::R>(c, SUM); }
VF_SCENARIO(products, 100, 3000) { run<D::M, D::M>(c, PROD); }
VF_SCENARIO(fewer_types, 120, 4000) { run<D::A, D::A2>(c, SUM, kindsTwo(), kindsTwo()); }
VF_SCENARIO(fewer_types2, 120, 4000) { run<D::R, D::A3>(c, SUM, kindsThree(), kindsThree()); }
VF_SCENARIO(more_types, 100, 3000) { run<D::A3, D::R>(c, SUM, kindsThree()); }
VF_SCENARIO(refused, 100, 2000) {
   Rng& r = c.rng; Scratch s; const size_t k = r.below(4); c.digest(k); c.desc << "kind " << k;
   MixedModel m = randMixed(r, 1, 4, 1, 4, 3, 6, DYADIC, 0.1); m.ref.digest(c); D::A gm = buildMixed<D::A>(r, m); D::A g;
   const ssize_t open0 = H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_ALL);
   if(k == 0) VF_MUST_THROW(opengm::hdf5::load(g, s.path, "gm"), "missing-file", "");
   if(k == 1) { opengm::hdf5::save(gm, s.path, "gm"); VF_MUST_THROW(opengm::hdf5::load(g, s.path, "gn"), "missing-dataset", ""); }
   if(k == 2) { bool listed = true; for(size_t i = 0; i < m.fn.size(); ++i) listed = listed && (m.fn[i].kind == F_EXPLICIT || m.fn[i].kind == F_POTTS); if(listed) throw Skip(); opengm::hdf5::save(gm, s.path, "gm"); D::A2 h; VF_MUST_THROW(opengm::hdf5::load(h, s.path, "gm"), "unlisted-function-type", m.str()); }
   if(k == 3) { hid_t f = marray::hdf5::createFile(s.path); hid_t q = marray::hdf5::createGroup(f, "gm"); std::vector<opengm::UInt64Type> h; h.push_back(3); h.push_back(7); for(int i = 0; i < 8; ++i) h.push_back(0); marray::hdf5::save(q, "header", h); marray::hdf5::closeGroup(q); marray::hdf5::closeFile(f); VF_MUST_THROW(opengm::hdf5::load(g, s.path, "gm"), "other-version", ""); }
   VF_EXPECT(H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_ALL) == open0, "refusal-leaves-file-open", "open HDF5 objects: " << H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_ALL) << " before: " << open0);
   // the file can be written again
   opengm::hdf5::save(gm, s.path, "gm"); D::A h; opengm::hdf5::load(h, s.path, "gm"); wholeModel(c, h, m.ref, "after-refusal");
}
VF_SCENARIO(ints, 100, 3000) { 
   // integer models with the explicit type only (the other families are real valued)
   typedef opengm::GraphicalModel<int, opengm::Adder, opengm::ExplicitFunction<int, size_t, size_t>, opengm::DiscreteSpace<> > GI; typedef opengm::GraphicalModel<opengm::UInt64Type, opengm::Adder, opengm::ExplicitFunction<opengm::UInt64Type, size_t, size_t>, opengm::DiscreteSpace<> > GU;
   typedef opengm::GraphicalModel<opengm::Int64Type, opengm::Adder, opengm::ExplicitFunction<opengm::Int64Type, size_t, size_t>, opengm::DiscreteSpace<> > GL;
   RefModel m = randModel(c.rng, 0, 4, 1, 4, 3, 0, 6, TIES); c.desc << m.brief(); m.digest(c); const size_t k = c.rng.below(3); c.digest(k);
   if(k == 0) { GI a = buildExplicit<GI>(m); transfer<GI, GI>(c, a, m, "int", 0); } else if(k == 1) { GU a = buildExplicit<GU>(m); transfer<GU, GU>(c, a, m, "unsigned", 0); } else { GL a = buildExplicit<GL>(m); transfer<GL, GL>(c, a, m, "long", 0); }
}
