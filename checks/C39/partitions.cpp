#include "../../harness/vf.hpp"
#include <opengm/utilities/partitions.hxx>
#include <map>
#include <set>
using namespace vf;
namespace {
// own enumeration: restricted growth strings
void grow(size_t n, std::vector<std::vector<size_t> >& out) { std::vector<size_t> l(n, 0); std::function<void(size_t, size_t)> go = [&](size_t i, size_t used) { if(i == n) { out.push_back(l); return; } for(size_t k = 0; k <= used; ++k) { l[i] = k; go(i + 1, std::max(used, k + 1)); } }; go(0, 0); }
std::vector<size_t> canon(const std::vector<size_t>& l) { std::map<size_t, size_t> m; std::vector<size_t> o; for(size_t i = 0; i < l.size(); ++i) { if(!m.count(l[i])) { const size_t k = m.size(); m[l[i]] = k; } o.push_back(m[l[i]]); } return o; }
// the documented code of a partition: bit for every pair in the same part, pairs ordered by the larger element
unsigned long long code(const std::vector<size_t>& l) { unsigned long long v = 0, b = 1; for(size_t i = 1; i < l.size(); ++i) for(size_t j = 0; j < i; ++j) { if(l[i] == l[j]) v |= b; b <<= 1; } return v; }
template<class I, class L> void all(Ctx& c, size_t maxN) {
   typedef opengm::Partitions<I, L> P; P p; Rng& r = c.rng; c.desc << "sizes";
   for(size_t round = 0; round < 3; ++round) {
      const size_t n = r.chance(0.1) ? r.below(2) : 1 + r.below(maxN); c.desc << " " << n; c.digest(n); p.resize(n); std::vector<std::vector<size_t> > ref; grow(n, ref);
      VF_CHECK(p.BellNumber(n) == ref.size(), "partitions/count", "of " << n << ": " << p.BellNumber(n) << " should be " << ref.size());
      std::set<unsigned long long> codes; for(size_t k = 0; k < ref.size(); ++k) codes.insert(code(ref[k]));
      std::set<size_t> indices; std::set<I> seen;
      for(size_t k = 0; k < ref.size(); ++k) { // the list is sorted, so the partitions of n elements come first
         const I e = p.getPartition(k); VF_CHECK(codes.count((unsigned long long)e), "partitions/code", "entry " << k << " of " << n << " is " << (unsigned long long)e); VF_CHECK(seen.insert(e).second, "partitions/twice", "entry " << k << " of " << n << " " << (unsigned long long)e); VF_CHECK(k == 0 || p.getPartition(k - 1) < e, "partitions/order", "entry " << k);
         if(n > 0) { std::vector<size_t> l(n, 77); p.getPartition(k, l); VF_CHECK(code(l) == (unsigned long long)e, "partitions/labels", "entry " << k << " labels " << show(l)); }
         VF_CHECK(p.number2Index(e) == k, "partitions/number2index", "entry " << k << " found at " << p.number2Index(e)); c.count("partitions");
      }
      for(size_t k = 0; k < 40 && k < 2 * ref.size(); ++k) { // arbitrary names of the parts
         const std::vector<size_t>& q = r.pick(ref); std::vector<size_t> names; for(size_t i = 0; i < 16; ++i) names.push_back(3 * i + 1); r.shuffle(names); std::vector<L> l; for(size_t i = 0; i < n; ++i) l.push_back((L)names[q[i]]);
         const size_t at = r.chance(0.5) ? p.label2Index(l) : p.label2Index(l.begin(), n); VF_CHECK(at < ref.size() && (unsigned long long)p.getPartition(at) == code(q), "partitions/label2index", show(q) << " at " << at);
         VF_CHECK((unsigned long long)p.label2Number(l) == code(q) && (unsigned long long)p.label2Number(l.begin(), n) == code(q), "partitions/label2number", show(q)); if(n > 0) { std::vector<size_t> b(n); p.getPartition(at, b); VF_CHECK(canon(b) == q, "partitions/round-trip", show(q) << " became " << show(b)); }
      }
      for(size_t k = 0; k < 20 && n > 2; ++k) { const unsigned long long bad = r.u64() & ((1ull << (n * (n - 1) / 2)) - 1); if(!codes.count(bad)) { VF_CHECK(p.number2Index((I)bad) == size_t(-1), "partitions/not-a-partition", bad << " found at " << p.number2Index((I)bad)); c.count("non-partitions"); } }
   }
}
template<class I> struct Fresh {}; 
}
VF_SCENARIO(Partitions64, 40, 400) { all<size_t, size_t>(c, c.rng.chance(0.1) ? 9 : 7); }
VF_SCENARIO(Partitions32, 40, 400) { all<unsigned, unsigned>(c, c.rng.chance(0.1) ? 8 : 7); }
VF_SCENARIO(Partitions32Byte, 40, 400) { all<unsigned, unsigned char>(c, 7); }
VF_SCENARIO(Partitions64Int, 40, 400) { all<unsigned long long, int>(c, 7); }
VF_SCENARIO(Partitions16, 30, 100) { all<unsigned short, size_t>(c, 6); typedef opengm::Partitions<unsigned short, size_t> P; P p; const size_t n = 7 + c.rng.below(3); VF_MUST_THROW(p.resize(n), "partitions/too-large", n << " elements need " << n * (n - 1) / 2 << " bits"); std::vector<size_t> l(n, 0); VF_MUST_THROW(p.label2Index(l), "partitions/too-large", "label2Index"); P q; q.resize(3); VF_EXPECT(q.number2Index(7) == 4, "partitions/after-throw", q.number2Index(7)); }
