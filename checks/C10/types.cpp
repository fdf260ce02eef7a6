#include "common.hpp"
using namespace c10;
namespace {
// files written by a model of one value type are read by a model of another one, and files of the format's first revision, whose header does not name a value type
template<class T, class OP = opengm::Adder> struct E { typedef opengm::GraphicalModel<T, OP, opengm::ExplicitFunction<T, size_t, size_t>, opengm::DiscreteSpace<> > type; };
template<class A, class B> void cross(Ctx& c, const RefModel& m, const std::string& k, Op) {
   Scratch s; A a = buildExplicit<A>(m); opengm::hdf5::save(a, s.path, "gm"); B b; opengm::hdf5::load(b, s.path, "gm"); wholeModel(c, b, m, k);
   const std::string p2 = s.dir + "/n.h5"; opengm::hdf5::save(b, p2, "x"); A h; opengm::hdf5::load(h, p2, "x"); wholeModel(c, h, m, k + "/back"); c.count("between value types");
}
// the header of the first revision
void strip(const std::string& path, const std::string& ds) {
   hid_t f = marray::hdf5::openFile(path, marray::hdf5::READ_WRITE), g = marray::hdf5::openGroup(f, ds); marray::Vector<opengm::UInt64Type> h; marray::hdf5::load(g, "header", h); std::vector<opengm::UInt64Type> n(h.begin(), h.end()); n.pop_back(); H5Ldelete(g, "header", H5P_DEFAULT); marray::hdf5::save(g, "header", n); marray::hdf5::closeGroup(g); marray::hdf5::closeFile(f); }
template<class A> void old(Ctx& c, const A& a, const RefModel& m, const std::string& k) { Scratch s; opengm::hdf5::save(a, s.path, "gm"); strip(s.path, "gm"); A b; opengm::hdf5::load(b, s.path, "gm"); wholeModel(c, b, m, k); c.count("first revision files"); }
}
VF_SCENARIO(between_value_types, 160, 5000) {
   Rng& r = c.rng; const size_t k = r.below(8); c.digest(k); 
   RefModel m = randModel(r, 0, 4, 1, 4, 3, 0, 6, k < 2 ? DYADIC : TIES); if(k > 3) for(size_t i = 0; i < m.f.size(); ++i) for(size_t j = 0; j < m.f[i].tab.size(); ++j) m.f[i].tab[j] = std::fabs(m.f[i].tab[j]); 
   c.desc << "kind " << k << " " << m.brief(); m.digest(c);
   switch(k) { case 0: cross<E<double>::type, E<float>::type>(c, m, "double-float", SUM); break; case 1: cross<E<float>::type, E<double>::type>(c, m, "float-double", SUM); break;
      case 2: cross<E<int>::type, E<double>::type>(c, m, "int-double", SUM); break; case 3: cross<E<float>::type, E<int>::type>(c, m, "float-int", SUM); break;
      case 4: cross<E<unsigned>::type, E<double>::type>(c, m, "unsigned-double", SUM); break; case 5: cross<E<double>::type, E<opengm::UInt64Type>::type>(c, m, "double-uint64", SUM); break;
      case 6: cross<E<unsigned char>::type, E<int>::type>(c, m, "uchar-int", SUM); break; default: cross<E<unsigned>::type, E<float>::type>(c, m, "unsigned-float", SUM); }
}
VF_SCENARIO(first_revision, 100, 3000) {
   Rng& r = c.rng; const size_t k = r.below(3); c.digest(k); 
   if(k == 0) { MixedModel m = randMixed(r, 0, 5, 1, 4, 4, 8, DYADIC, 0.1); c.desc << m.str().substr(0, 300); m.ref.digest(c); typedef opengm::GraphicalModel<double, opengm::Adder, FnTypes<double, size_t, size_t>::All, opengm::DiscreteSpace<> > A; old(c, buildMixed<A>(r, m), m.ref, "double"); }
   else { RefModel m = randModel(r, 0, 4, 1, 4, 3, 0, 6, TIES); c.desc << m.brief(); m.digest(c); if(k == 1) old(c, buildExplicit<E<float>::type>(m), m, "float"); else old(c, buildExplicit<E<opengm::Int64Type>::type>(m), m, "int64"); }
}
VF_SCENARIO(logical_models, 80, 2000) {
   Rng& r = c.rng; RefModel m = randModel(r, 0, 4, 1, 4, 3, 0, 6, TIES); for(size_t i = 0; i < m.f.size(); ++i) for(size_t j = 0; j < m.f[i].tab.size(); ++j) m.f[i].tab[j] = r.below(2); c.desc << m.brief(); m.digest(c);
   typedef E<bool, opengm::And>::type A; A a = buildExplicit<A>(m); Scratch s; opengm::hdf5::save(a, s.path, "gm"); A b; opengm::hdf5::load(b, s.path, "gm"); std::string why; VF_CHECK(sameModel(b, m, &why), "bool/model", why);
   std::vector<size_t> l(m.labels.size(), 0); do { bool w = true; for(size_t i = 0; i < m.f.size(); ++i) w = w && m.at(i, l) != 0; VF_CHECK(b.evaluate(l.begin()) == w, "bool/evaluate", show(l)); } while(nextTuple(l, m.labels)); c.count("logical models");
}
