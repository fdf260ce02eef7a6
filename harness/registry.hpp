// Every solver of the library behind one interface, for the properties that
// quantify over all of them: a kind draws models it accepts and parameters,
// and makes solvers whose calls are recorded.
#pragma once
#include "solvers.hpp"
#include "propagation.hpp"
#include <memory>

namespace reg {
using namespace vf; using namespace sv;
typedef Gm<double, opengm::Adder>::Mixed SumGm;
typedef Gm<double, opengm::Multiplier>::Mixed ProdGm;

struct Log { std::vector<double> times, values, bounds, iterations; size_t maps; bool aligned; std::string text; std::map<std::string, std::vector<double> > all; Log() : maps(0), aligned(true) {} };
struct Timing { size_t nth; double gap, limit; bool verbose; size_t mem; Timing() : nth(1), gap(-1), limit(std::numeric_limits<double>::infinity()), verbose(false), mem(0) {} };
struct Mute { std::ostringstream o; std::streambuf* b; Mute() : b(std::cout.rdbuf(o.rdbuf())) {} ~Mute() { std::cout.rdbuf(b); } };

struct Run {
   virtual ~Run() {}
   virtual std::string name() = 0; virtual bool infer() = 0; virtual bool infer(Rec&) = 0; virtual bool inferEmpty() = 0;
   virtual bool timing(const Timing&, Log&) = 0; virtual bool timingAgain(Log&) = 0; virtual bool verbose(size_t nth, Log&) = 0;
   virtual Answer answer() = 0; virtual bool reset() = 0; virtual void start(const std::vector<size_t>&) = 0; virtual const void* model() = 0;
   virtual Run* copy() { return 0; } virtual bool assign(Run&) { return false; }
};
template<class T> T* copyOf(const T& t, std::true_type) { return new T(t); }
template<class T> T* copyOf(const T&, std::false_type) { return 0; }
template<class T> bool assignTo(T& a, const T& b, std::true_type) { a = b; return true; }
template<class T> bool assignTo(T&, const T&, std::false_type) { return false; }
template<class T> auto doReset(T& t, int) -> decltype(t.reset(), true) { t.reset(); return true; }
template<class T> bool doReset(T&, long) { return false; }
template<class INF> struct RunOf : Run {
   std::unique_ptr<INF> own; INF& inf; std::unique_ptr<typename INF::TimingVisitorType> tv;
   RunOf(const typename INF::GraphicalModelType& gm, const typename INF::Parameter& p) : own(new INF(gm, p)), inf(*own) {}
   explicit RunOf(INF* i) : own(i), inf(*own) {}
#ifdef VF_COPIES
   Run* copy() { INF* i = copyOf(inf, std::is_copy_constructible<INF>()); return i ? new RunOf<INF>(i) : 0; }
   bool assign(Run& o) { return assignTo(inf, static_cast<RunOf<INF>&>(o).inf, std::is_copy_assignable<INF>()); }
#endif
   std::string name() { return inf.name(); }
   bool infer() { return inf.infer() == opengm::NORMAL; }
   bool infer(Rec& r) { return inf.infer(r) == opengm::NORMAL; }
   bool inferEmpty() { typename INF::EmptyVisitorType v; return inf.infer(v) == opengm::NORMAL; }
   void read(Log& l) { l.times = tv->getTimes(); l.values = tv->getValues(); l.bounds = tv->getBounds(); l.iterations = tv->getIterations(); l.all = tv->protocolMap(); }
   bool timing(const Timing& t, Log& l) { tv.reset(new typename INF::TimingVisitorType(t.nth, t.mem ? 8 : 0, t.verbose, false, t.limit, t.gap, t.mem)); return timingAgain(l); }
   bool timingAgain(Log& l) { Mute m; const bool ok = inf.infer(*tv) == opengm::NORMAL; read(l); l.text = m.o.str(); return ok; }
   bool verbose(size_t nth, Log& l) { Mute m; typename INF::VerboseVisitorType v(nth); const bool ok = inf.infer(v) == opengm::NORMAL; l.text = m.o.str(); return ok; }
   Answer answer() { return sv::answer(inf); }
   bool reset() { return doReset(inf, 0); }
   void start(const std::vector<size_t>& l) { std::vector<typename INF::LabelType> s(l.begin(), l.end()); inf.setStartingPoint(s.begin()); }
   const void* model() { return &inf.graphicalModel(); }
};

// a model shared by several solvers
struct Model {
   MixedModel k; Op op; std::unique_ptr<SumGm> sum; std::unique_ptr<ProdGm> prod;
   Model(Rng& r, const MixedModel& m, Op o) : k(m), op(o) { if(o == SUM) sum.reset(new SumGm(buildMixed<SumGm>(r, m))); else prod.reset(new ProdGm(buildMixed<ProdGm>(r, m))); }
   const RefModel& ref() const { return k.ref; }
   bool unchanged(std::string* why) const { return sum ? sameModel(*sum, k.ref, why) : sameModel(*prod, k.ref, why); }
   const void* address() const { return sum ? (const void*)sum.get() : (const void*)prod.get(); }
   double evaluate(const std::vector<size_t>& l) const { return sum ? sum->evaluate(l.begin()) : prod->evaluate(l.begin()); }
};
inline const SumGm& pick(const Model& m, const SumGm*) { return *m.sum; }
inline const ProdGm& pick(const Model& m, const ProdGm*) { return *m.prod; }

// what a kind supports
enum { RESET = 1, START = 2, RANDOM = 4, PRINTS = 8, NOTSTEP = 16, EXACT = 32, SERIAL = 64, FRESH = 128 /* a second run starts from scratch */ };
struct Kind {
   std::string name; Op op; bool mx; unsigned flags; double tol;
   std::function<bool(const RefModel&)> accepts; std::function<RefModel(Rng&)> draw;
   std::function<Run*(const Model&, Rng)> make;   // the same generator state gives the same parameters
   bool has(unsigned f) const { return (flags & f) == f; }
};
inline std::vector<Kind>& kinds() { static std::vector<Kind> k; return k; }

// domains
inline bool anyModel(const RefModel&) { return true; }
inline bool someVariables(const RefModel& m) { return !m.labels.empty(); }
inline bool pairwise(const RefModel& m) { for(size_t f = 0; f < m.f.size(); ++f) if(m.f[f].vars.size() > 2) return false; return true; }
inline bool acyclic(const RefModel& m) {
   std::vector<size_t> comp(m.labels.size()); std::iota(comp.begin(), comp.end(), size_t(0));
   for(size_t f = 0; f < m.f.size(); ++f) { if(m.f[f].vars.size() > 2) return false; if(m.f[f].vars.size() < 2) continue; const size_t a = comp[m.f[f].vars[0]], b = comp[m.f[f].vars[1]]; if(a == b) return false; for(size_t i = 0; i < comp.size(); ++i) if(comp[i] == a) comp[i] = b; }
   return true;
}
inline bool unaryAndPairs(const RefModel& m) { // one unary factor per variable, at most one factor per pair
   std::vector<size_t> u(m.labels.size(), 0); std::set<std::vector<size_t> > e;
   for(size_t f = 0; f < m.f.size(); ++f) { const size_t k = m.f[f].vars.size(); if(k == 1) ++u[m.f[f].vars[0]]; else if(k != 2 || !e.insert(m.f[f].vars).second) return false; }
   for(size_t i = 0; i < u.size(); ++i) if(u[i] != 1) return false;
   return !m.labels.empty();
}
inline bool binary(const RefModel& m) { for(size_t i = 0; i < m.labels.size(); ++i) if(m.labels[i] != 2) return false; return pairwise(m); }
inline bool submodular(const RefModel& m, bool mx) { if(!binary(m)) return false; for(size_t f = 0; f < m.f.size(); ++f) if(m.f[f].vars.size() == 2) { const std::vector<double>& t = m.f[f].tab; const double d = t[1] + t[2] - t[0] - t[3]; if(mx ? d > 0 : d < 0) return false; } return true; }
inline bool metric(const RefModel& m, bool mx) {
   if(!pairwise(m)) return false; const size_t L = m.labels.empty() ? 0 : m.labels[0]; for(size_t i = 0; i < m.labels.size(); ++i) if(m.labels[i] != L) return false; const double s = mx ? -1 : 1;
   for(size_t f = 0; f < m.f.size(); ++f) if(m.f[f].vars.size() == 2) { const std::vector<double>& t = m.f[f].tab; for(size_t a = 0; a < L; ++a) { if(t[a + L * a] != 0) return false; for(size_t b = 0; b < L; ++b) { if(a != b && s * t[a + L * b] < 0) return false; if(t[a + L * b] != t[b + L * a]) return false; for(size_t k = 0; k < L; ++k) if(s * t[a + L * b] > s * (t[a + L * k] + t[k + L * b])) return false; } } }
   return true;
}
inline bool multicut(const RefModel& m) { for(size_t f = 0; f < m.f.size(); ++f) { if(m.f[f].vars.size() != 2 || m.f[f].vars[0] == m.f[f].vars[1]) return false; } for(size_t i = 0; i < m.labels.size(); ++i) if(m.labels[i] != m.labels.size()) return false; for(size_t f = 0; f < m.f.size(); ++f) { const size_t L = m.labels.size(); for(size_t i = 0; i < L * L; ++i) if(m.f[f].tab[i] != (i % L == i / L ? 0 : m.f[f].tab[1])) return false; } return m.labels.size() >= 2; }

// drawing
inline Style style(Rng& r, Op op) { return op == SUM ? sumStyle(r) : r.chance(0.6) ? POSDYADIC : POW2; }
inline RefModel drawAny(Rng& r, Op op) { const Style s = style(r, op); if(r.chance(0.35)) return randPairwise(r, 1, 6, 1, 4, r.unit(), r.unit(), s, 400); return randModel(r, r.chance(0.05) ? 0 : 1, 5, 1, 4, 3, 0, 7, s, 0.1, 400); }
inline RefModel drawPairs(Rng& r, Op op) { const Style s = style(r, op); RefModel m = randPairwise(r, 1, 6, 1, 4, r.unit(), 0.7, s, 400); return m; }
inline RefModel drawTree(Rng& r, Op op) { return randTreeModel(r, 1, 6, 1, 4, style(r, op), r.chance(0.4) ? 0.3 : 0, 0.7, 0.15, 400); }
inline RefModel drawUP(Rng& r, Op op) { for(;;) { const Style s = style(r, op); RefModel m = r.chance(0.3) ? gridModel(r, 1 + r.below(3), 1 + r.below(3), 1, 3, s) : randPairwise(r, 1, 6, 1, 4, r.unit(), 1.0, s, 400); if(m.configs() <= 600) return m; } }
inline RefModel drawBinary(Rng& r, bool sub, bool mx) {
   RefModel m = randPairwise(r, r.chance(0.05) ? 0 : 1, 8, 2, 2, r.unit(), 0.7, sumStyle(r), 300);
   if(sub) for(size_t f = 0; f < m.f.size(); ++f) if(m.f[f].vars.size() == 2) { std::vector<double>& t = m.f[f].tab; const double d = t[1] + t[2] - t[0] - t[3]; if(mx ? d > 0 : d < 0) { std::swap(t[0], t[1]); std::swap(t[2], t[3]); } }
   return m;
}
inline RefModel drawMetric(Rng& r, bool mx) {
   const size_t L = 1 + r.below(4); RefModel m = randPairwise(r, 1, 6, L, L, r.unit(), 0.8, sumStyle(r), 400);
   for(size_t f = 0; f < m.f.size(); ++f) if(m.f[f].vars.size() == 2) { const double w = r.range(0, 24) / 4.0, t = r.range(1, 3), k = r.below(2); for(size_t a = 0; a < L; ++a) for(size_t b = 0; b < L; ++b) { const double e = std::fabs((double)a - (double)b); m.f[f].tab[a + L * b] = (mx ? -1 : 1) * w * (k ? std::min(e, t) : a != b ? 1 : 0); } }
   return m;
}
inline RefModel drawMulticut(Rng& r) {
   RefModel m; const size_t n = 2 + r.below(3); m.labels.assign(n, n); const double d = 0.3 + 0.7 * r.unit();
   for(size_t i = 0; i < n; ++i) for(size_t j = i + 1; j < n; ++j) if(r.chance(d)) { RefFactor f; f.vars.push_back(i); f.vars.push_back(j); const double w = r.range(-16, 16) / 4.0; for(size_t q = 0; q < n * n; ++q) f.tab.push_back(q % n == q / n ? 0 : w); m.f.push_back(f); }
   return m;
}

template<class INF, class PAR> void add(const std::string& name, unsigned flags, bool (*accepts)(const RefModel&), RefModel (*draw)(Rng&), PAR par, double tol = 1e-9) {
   typedef typename INF::GraphicalModelType GM; Kind k; k.op = std::is_same<GM, SumGm>::value ? SUM : PROD; k.mx = std::is_same<typename INF::AccumulationType, opengm::Maximizer>::value; k.name = name; k.flags = flags; k.tol = tol; k.accepts = accepts; k.draw = draw;
   k.make = [par](const Model& m, Rng r) -> Run* { typename INF::Parameter p = par(r, m.ref()); return new RunOf<INF>(pick(m, (const GM*)0), p); };
   k.name += std::string("[") + opName(k.op) + (k.mx ? ",max]" : ",min]"); kinds().push_back(k);
}
template<class GM> struct Draw { static const Op op = prop::OpOf<typename GM::OperatorType>::v;
   static RefModel any(Rng& r) { return drawAny(r, op); } static RefModel some(Rng& r) { for(;;) { const RefModel m = drawAny(r, op); if(!m.labels.empty()) return m; } } static RefModel pairs(Rng& r) { return drawPairs(r, op); } static RefModel tree(Rng& r) { return drawTree(r, op); } static RefModel up(Rng& r) { return drawUP(r, op); } };
template<class ACC> struct Dir { static const bool mx = std::is_same<ACC, opengm::Maximizer>::value;
   static bool sub(const RefModel& m) { return submodular(m, mx); } static RefModel drawSub(Rng& r) { return drawBinary(r, true, mx); } static bool met(const RefModel& m) { return metric(m, mx); } static RefModel drawMet(Rng& r) { return drawMetric(r, mx); } };
inline RefModel drawBin(Rng& r) { return drawBinary(r, false, false); }

// a solver call that uses the C library's generator is repeatable only from the same seed
inline void seed(const Kind& k, unsigned s) { if(k.has(RANDOM)) srand(s); }
struct Quiet { std::unique_ptr<Mute> m; Quiet(const Kind& k) { if(k.has(PRINTS)) m.reset(new Mute); } };

inline const Kind& anyKind(Rng& r) { static bool sorted = false; if(!sorted) { std::stable_sort(kinds().begin(), kinds().end(), [](const Kind& a, const Kind& b) { return a.name < b.name; }); sorted = true; } return kinds()[r.below(kinds().size())]; }
inline Model* drawModel(Ctx& c, const Kind& k) { RefModel m = k.draw(c.rng); if(c.rng.chance(0.3)) m = permuted(c.rng, m); MixedModel mm = prop::asMixedExact(c.rng, m); mm.ref.digest(c); c.desc << k.name << " " << mm.str() << "\n"; Model* x = new Model(c.rng, mm, k.op); c.count("kind " + k.name); return x; }
} // namespace reg
