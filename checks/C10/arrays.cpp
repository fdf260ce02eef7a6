#include "common.hpp"
VF_WIDE(0.05)
using namespace c10;
namespace {
template<class T> T value(size_t i) { return (T)(i * 37 + 11); }
template<class T> marray::Marray<T> randArray(Rng& r, std::vector<size_t>& sh, bool& first) {
   const size_t d = 1 + r.below(4); sh.clear(); for(size_t i = 0; i < d; ++i) sh.push_back(1 + r.below(4)); first = r.chance(0.5);
   marray::Marray<T> m(sh.begin(), sh.end(), T(0), first ? marray::FirstMajorOrder : marray::LastMajorOrder); std::vector<size_t> t(d, 0); size_t i = r.below(100); do m(t.begin()) = value<T>(i++); while(nextTuple(t, sh)); return m; }
template<class A, class B> bool equal(const A& a, const B& b) { if(a.dimension() != b.dimension()) return false; std::vector<size_t> sh; for(size_t i = 0; i < a.dimension(); ++i) { if(a.shape(i) != b.shape(i)) return false; sh.push_back(a.shape(i)); } std::vector<size_t> t(sh.size(), 0); do if(!(a(t.begin()) == b(t.begin()))) return false; while(nextTuple(t, sh)); return true; }
template<class T> std::string dump(const marray::View<T>& a) { std::ostringstream o; o << "shape("; for(size_t i = 0; i < a.dimension(); ++i) o << a.shape(i) << " "; o << ")"; for(size_t i = 0; i < a.size() && i < 24; ++i) o << " " << +a(i); return o.str(); }
template<class T> void run(Ctx& c, const std::string& k) {
   namespace h5 = marray::hdf5; Rng& r = c.rng; Scratch s; const ssize_t open0 = H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_ALL); const size_t n = 1 + r.below(4); std::vector<marray::Marray<T> > in; std::vector<std::string> names; hid_t file = h5::createFile(s.path); std::vector<hid_t> at; 
   hid_t g1 = h5::createGroup(file, "g"), g2 = h5::createGroup(g1, "inner"); const hid_t where[] = {file, g1, g2}; std::vector<size_t> place; std::vector<std::vector<T> > vec;
   for(size_t i = 0; i < n; ++i) { std::vector<size_t> sh; bool first; in.push_back(randArray<T>(r, sh, first)); std::ostringstream nm; nm << "d" << i; names.push_back(nm.str()); place.push_back(r.below(3)); c.digestV(sh); c.digest(first); c.desc << show(sh) << (first ? "F " : "L ");
      const size_t how = r.below(4);
      if(how == 0) h5::save(where[place[i]], names[i], in[i]);
      else if(how == 1) { marray::View<T> v(in[i]); std::vector<size_t> p(sh.size()); for(size_t q = 0; q < p.size(); ++q) p[q] = q; r.shuffle(p); v.permute(p.begin()); h5::save(where[place[i]], names[i], v); marray::Marray<T> e(v); in[i] = e; c.count("saved through a permuted view"); }
      else if(how == 2) { std::vector<size_t> b(sh.size()), q(sh.size()); for(size_t j = 0; j < sh.size(); ++j) { q[j] = 1 + r.below(sh[j]); b[j] = r.below(sh[j] - q[j] + 1); } marray::View<T> v(in[i].view(b.begin(), q.begin())); h5::save(where[place[i]], names[i], v); marray::Marray<T> e(v); in[i] = e; c.count("saved through a sub-view"); }
      else { std::vector<T> v; for(size_t j = 0; j < 1 + r.below(6) + j; ++j) { v.push_back(value<T>(j + i)); if(v.size() > 5) break; } h5::save(where[place[i]], names[i], v); size_t q[] = {v.size()}; marray::Marray<T> e(q, q + 1); for(size_t j = 0; j < v.size(); ++j) e(j) = v[j]; in[i] = e; }
   }
   // slab-wise writing into a created dataset
   std::vector<size_t> sh; bool first; marray::Marray<T> whole = randArray<T>(r, sh, first); h5::create<T>(g1, "slabs", sh.begin(), sh.end(), first ? marray::FirstMajorOrder : marray::LastMajorOrder); marray::Marray<T> expect(whole); 
   { // two complementary parts along one axis
     const size_t ax = r.below(sh.size()), cut = r.below(sh[ax] + 1); 
     for(int part = 0; part < 2; ++part) { std::vector<size_t> b(sh.size(), 0), q(sh); if(part == 0) q[ax] = cut; else { b[ax] = cut; q[ax] = sh[ax] - cut; } if(q[ax] == 0) continue; marray::View<T> v(whole.view(b.begin(), q.begin())); marray::Marray<T> slab(q.begin(), q.end(), T(0), first ? marray::FirstMajorOrder : marray::LastMajorOrder); std::vector<size_t> t(sh.size(), 0); do slab(t.begin()) = v(t.begin()); while(nextTuple(t, q)); h5::saveHyperslab(g1, "slabs", b.begin(), b.end(), q.begin(), slab); } }
   h5::closeGroup(g2); h5::closeGroup(g1); h5::closeFile(file);
   VF_EXPECT(H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_ALL) == open0, k + "/left-open", "");
   file = h5::openFile(s.path); g1 = h5::openGroup(file, "g"); g2 = h5::openGroup(g1, "inner"); const hid_t wh[] = {file, g1, g2};
   for(size_t i = 0; i < n; ++i) { marray::Marray<T> out; if(r.chance(0.4)) { std::vector<size_t> q; bool f; out = randArray<T>(r, q, f); } h5::load(wh[place[i]], names[i], out); VF_CHECK(equal(out, in[i]), k + "/array", dump(out) << " expected " << dump(in[i]));
      marray::Vector<size_t> shp; h5::loadShape(wh[place[i]], names[i], shp); VF_CHECK(shp.size() == in[i].dimension(), k + "/shape-length", shp.size()); for(size_t j = 0; j < shp.size(); ++j) VF_CHECK(shp[j] == in[i].shape(j), k + "/loaded-shape", shp[j] << " expected " << in[i].shape(j));
      if(in[i].dimension() == 1) { std::vector<T> v(3, T(1)); h5::loadVec(wh[place[i]], names[i], v); VF_CHECK(v.size() == in[i].size(), k + "/vector-length", v.size()); for(size_t j = 0; j < v.size(); ++j) VF_CHECK(v[j] == in[i](j), k + "/vector", +v[j]); }
      // a random slab of it
      std::vector<size_t> b, q; for(size_t j = 0; j < in[i].dimension(); ++j) { q.push_back(1 + r.below(in[i].shape(j))); b.push_back(r.below(in[i].shape(j) - q[j] + 1)); } marray::Marray<T> slab; h5::loadHyperslab(wh[place[i]], names[i], b.begin(), b.end(), q.begin(), slab); marray::View<T> v(in[i].view(b.begin(), q.begin())); VF_CHECK(equal(slab, v), k + "/slab", dump(slab) << " offset " << show(b) << " expected " << dump(v));
      c.count("arrays compared"); }
   { marray::Marray<T> out; h5::load(g1, "slabs", out); VF_CHECK(equal(out, expect), k + "/slab-wise", dump(out) << " expected " << dump(expect)); }
   if(r.chance(0.3)) { marray::Marray<T> out; VF_MUST_THROW(h5::load(g1, "nothing", out), k + "/missing-dataset", ""); VF_MUST_THROW(h5::openGroup(g1, "nothing"), k + "/missing-group", ""); marray::Vector<size_t> sv; VF_MUST_THROW(h5::loadShape(g1, "nothing", sv), k + "/missing-shape", "");
      if(sizeof(T) != 2) { marray::Marray<unsigned short> o2; VF_MUST_THROW(h5::load(g1, "slabs", o2), k + "/other-type", ""); std::vector<size_t> b(sh.size(), 0), q(sh.size(), 1); VF_MUST_THROW(h5::loadHyperslab(g1, "slabs", b.begin(), b.end(), q.begin(), o2), k + "/other-type-slab", ""); b[0] = sh[0]; marray::Marray<T> o3; VF_MUST_THROW(h5::loadHyperslab(g1, "slabs", b.begin(), b.end(), q.begin(), o3), k + "/slab-outside", ""); } c.count("refusals"); }
   h5::closeGroup(g2); h5::closeGroup(g1); h5::closeFile(file);
   VF_EXPECT(H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_ALL) == open0, k + "/left-open-after-reading", "open HDF5 objects: " << H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_ALL));
}
}
VF_SCENARIO(arrays_double, 120, 4000) { run<double>(c, "double"); }
VF_SCENARIO(arrays_float, 80, 3000) { run<float>(c, "float"); }
VF_SCENARIO(arrays_int, 80, 3000) { run<int>(c, "int"); }
VF_SCENARIO(arrays_unsigned, 80, 3000) { if(c.rng.chance(0.5)) run<unsigned>(c, "unsigned"); else run<unsigned long>(c, "unsigned long"); }
VF_SCENARIO(arrays_small, 100, 3000) { size_t k = c.rng.below(4); if(k == 0) run<unsigned char>(c, "unsigned char"); else if(k == 1) run<short>(c, "short"); else if(k == 2) run<long long>(c, "long long"); else run<signed char>(c, "signed char"); }
