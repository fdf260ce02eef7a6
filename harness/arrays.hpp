// Reference model of array views: a shape, strides and an offset into a flat memory block.
#pragma once
#include <vf.hpp>
#include <opengm/datastructures/marray/marray.hxx>
namespace vf {
typedef std::vector<size_t> Coord;
inline Coord naturalStrides(const Coord& s, bool firstMajor) { Coord t(s.size()); size_t p = 1;
   if(firstMajor) { for(size_t j = s.size(); j-- > 0;) { t[j] = p; p *= s[j]; } } else for(size_t j = 0; j < s.size(); ++j) { t[j] = p; p *= s[j]; }
   return t; }
struct RefView {
   Coord shape, strides; size_t off; bool first; // first: first index most significant
   size_t size() const { return prod(shape); }
   size_t at(const Coord& c) const { size_t o = off; for(size_t j = 0; j < c.size(); ++j) o += c[j] * strides[j]; return o; }
   Coord coord(size_t i) const { Coord n = naturalStrides(shape, first), c(shape.size());
      if(first) for(size_t j = 0; j < c.size(); ++j) { c[j] = i / n[j]; i %= n[j]; } else for(size_t j = c.size(); j-- > 0;) { c[j] = i / n[j]; i %= n[j]; }
      return c; }
   size_t index(const Coord& c) const { Coord n = naturalStrides(shape, first); size_t i = 0; for(size_t j = 0; j < c.size(); ++j) i += n[j] * c[j]; return i; }
   bool natural() const { return strides == naturalStrides(shape, first); }
   std::string str() const { std::ostringstream o; o << "{shape" << show(shape) << " strides" << show(strides) << " off " << off << (first ? " F" : " L") << "}"; return o.str(); }
};
inline Coord randShape(Rng& r, size_t dim, size_t maxSize) { Coord s(dim); 
   do { for(size_t j = 0; j < dim; ++j) s[j] = r.chance(0.25) ? 1 : 1 + r.below(dim > 5 ? 2 : 5); } while(prod(s) > maxSize); return s; }
inline marray::CoordinateOrder co(bool first) { return first ? marray::FirstMajorOrder : marray::LastMajorOrder; }
}
