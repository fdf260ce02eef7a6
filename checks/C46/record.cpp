// C46: the recording and printing visitors against a model of what was told to them, with extra logs and copies
#include "registry.hpp"
#include <opengm/inference/visitors/visitors.hxx>
using namespace reg;
namespace {
namespace ov = opengm::visitors;
struct Fake { typedef double ValueType; double v, b; double value() const { return v; } double bound() const { return b; } };
struct Row { double v, b, it; };
struct Want { std::vector<Row> rows; std::vector<std::string> names; std::map<std::string, std::vector<double> > logs; size_t it; bool rec; size_t last; std::vector<std::string> text; Want() : it(0), rec(false), last(0) {} };
struct Par { size_t nth, mem, reserve; bool verbose; double gap, limit; };
double num(Rng& r) { return double(r.range(-40, 40)) / 4; }
bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
template<class V> struct Tell { static void begin(V& v, Fake& f) { v.begin(f); } static size_t step(V& v, Fake& f) { return v(f); } static void end(V& v, Fake& f) { v.end(f); } static void add(V& v, const std::string& n) { v.addLog(n); } static void log(V& v, const std::string& n, double x) { v.log(n, x); } enum { EXTRA = 1 }; };
template<class I> struct Tell<ov::ExplicitTimingVisitor<I> > { typedef ov::ExplicitTimingVisitor<I> V; static void begin(V& v, Fake& f) { v.begin(f, f.v, f.b); } static size_t step(V& v, Fake& f) { return v(f, f.v, f.b); } static void end(V& v, Fake& f) { v.end(f, f.v, f.b); } static void add(V&, const std::string&) {} static void log(V&, const std::string&, double) {} enum { EXTRA = 0 }; };
// the same through the wrappers the solvers of the TRWS family use
template<class V> struct Wrapped : Tell<V> { static void begin(V& v, Fake& f) { ov::VisitorWrapper<V, Fake> w(&v, &f); w.begin(); } static size_t step(V& v, Fake& f) { ov::VisitorWrapper<V, Fake> w(&v, &f); return w(); } static void end(V& v, Fake& f) { ov::VisitorWrapper<V, Fake> w(&v, &f); w.end(); } static void add(V& v, const std::string& n) { ov::VisitorWrapper<V, Fake> w(&v, &f0()); w.addLog(n); } static void log(V& v, const std::string& n, double x) { ov::VisitorWrapper<V, Fake> w(&v, &f0()); w.log(n, x); } static Fake& f0() { static Fake f; return f; } };
template<class I> struct Wrapped<ov::ExplicitTimingVisitor<I> > : Tell<ov::ExplicitTimingVisitor<I> > { typedef ov::ExplicitTimingVisitor<I> V; static void begin(V& v, Fake& f) { ov::ExplicitVisitorWrapper<V, Fake> w(&v, &f); w.begin(f.v, f.b); } static size_t step(V& v, Fake& f) { ov::ExplicitVisitorWrapper<V, Fake> w(&v, &f); return w(f.v, f.b); } static void end(V& v, Fake& f) { ov::ExplicitVisitorWrapper<V, Fake> w(&v, &f); w.end(f.v, f.b); } };
template<class V> void compare(Ctx& c, const V& v, const Want& w, const Par& p, const std::string& t) {
   const std::vector<double>&vs = v.getValues(), &bs = v.getBounds(), &is = v.getIterations(), &ts = v.getTimes();
   VF_CHECK(vs.size() == w.rows.size() && bs.size() == w.rows.size() && is.size() == w.rows.size() && ts.size() == w.rows.size(), t + "/sizes", vs.size() << " " << bs.size() << " " << is.size() << " " << ts.size() << " expected " << w.rows.size());
   for(size_t i = 0; i < w.rows.size(); ++i) VF_CHECK(eq(vs[i], w.rows[i].v) && eq(bs[i], w.rows[i].b) && is[i] == w.rows[i].it, t + "/rows", "row " << i << ": " << vs[i] << " " << bs[i] << " " << is[i] << " expected " << w.rows[i].v << " " << w.rows[i].b << " " << w.rows[i].it);
   for(size_t i = 1; i < ts.size(); ++i) VF_CHECK(ts[i] >= ts[i - 1] || ts[i] == 0 /* begun again */, t + "/clock", ts[i - 1] << " then " << ts[i]);
   const std::map<std::string, std::vector<double> >& m = v.protocolMap();
   VF_CHECK(m.count("values") && &m.find("values")->second == &vs && m.count("bounds") && &m.find("bounds")->second == &bs && m.count("times") && &m.find("times")->second == &ts && m.count("iteration") && &m.find("iteration")->second == &is && m.count("ctime") && &m.find("ctime")->second == &v.getConstructionTime(), t + "/protocol", "the named items are not those of the accessors");
   VF_CHECK((m.count("mem") ? m.find("mem")->second.size() : 0) == (p.mem ? w.rows.size() : 0), t + "/memory", "");
   for(size_t k = 0; k < w.names.size(); ++k) { VF_CHECK(m.count(w.names[k]), t + "/logs", "no " << w.names[k]); const std::vector<double>&g = m.find(w.names[k])->second, &e = w.logs.find(w.names[k])->second; VF_CHECK(g.size() == e.size(), t + "/logs", w.names[k] << " has " << g.size() << " expected " << e.size()); for(size_t i = 0; i < g.size(); ++i) VF_CHECK(eq(g[i], e[i]), t + "/logs", w.names[k] << " " << i << ": " << g[i] << " expected " << e[i]); }
   c.count("protocols compared");
}
template<class V, template<class> class TELL> void record(Ctx& c, const std::string& t) {
   typedef TELL<V> T; Rng& r = c.rng; Mute mute; Par p; p.nth = 1 + (r.chance(0.6) ? r.below(4) : 0); p.mem = r.below(3); p.reserve = r.chance(0.5) ? r.below(20) : 0; p.verbose = r.chance(0.4); p.gap = r.chance(0.3) ? num(r) : 0; p.limit = r.chance(0.15) ? -1 : std::numeric_limits<double>::infinity();
   c.desc << t << " every " << p.nth << " mem " << p.mem << " gap " << p.gap << " limit " << p.limit; c.digest(p.nth); c.digest(p.mem);
   std::vector<V*> vs(1, new V(p.nth, p.reserve, p.verbose, r.chance(0.5), p.limit, p.gap, p.mem)); std::vector<Want> ws(1);
   struct Free { std::vector<V*>& v; Free(std::vector<V*>& x) : v(x) {} ~Free() { for(size_t i = 0; i < v.size(); ++i) delete v[i]; } } guard(vs);
   Fake f; const char* const NAMES[] = {"a", "gap", "oracleCalls"};
   if(T::EXTRA) for(size_t k = r.below(4); k-- > 0;) { T::add(*vs[0], NAMES[k]); ws[0].names.push_back(NAMES[k]); ws[0].logs[NAMES[k]]; }
   const size_t rounds = 1 + r.below(2);
   for(size_t q = 0; q < rounds; ++q) {
      for(size_t i = 0; i < vs.size(); ++i) { f.v = num(r); f.b = num(r); T::begin(*vs[i], f); Row z = {f.v, f.b, double(ws[i].it)}; ws[i].rows.push_back(z); ++ws[i].it; }
      for(size_t s = r.below(14); s-- > 0;) {
         const size_t i = r.below(vs.size()); Want& w = ws[i];
         switch(r.below(8)) {
         case 0: if(vs.size() < 4) { vs.push_back(new V(*vs[i])); const Want z = ws[i]; ws.push_back(z); c.count("copies"); } break;
         case 1: { const size_t j = r.below(vs.size()); *vs[j] = *vs[i]; const Want z = ws[i]; ws[j] = z; c.count("assignments"); break; }
         case 2: if(vs.size() > 1) { delete vs[i]; vs.erase(vs.begin() + i); ws.erase(ws.begin() + i); } break;
         default: {
            f.v = num(r); f.b = r.chance(0.3) ? f.v : num(r); const bool rec = w.it % p.nth == 0; size_t want = ov::VisitorReturnFlag::ContinueInf;
            if(rec) { Row z = {f.v, f.b, double(w.it)}; w.rows.push_back(z); for(size_t k = 0; k < w.names.size(); ++k) w.logs[w.names[k]].push_back(std::numeric_limits<double>::quiet_NaN()); if(std::fabs(f.b - f.v) <= p.gap) want = ov::VisitorReturnFlag::StopInfBoundReached; else if(p.limit < 0) want = ov::VisitorReturnFlag::StopInfTimeout; }
            const size_t got = T::step(*vs[i], f); VF_CHECK(got == want, t + "/flag", got << " expected " << want << " at " << f.v << " " << f.b); if(want == ov::VisitorReturnFlag::ContinueInf) ++w.it; c.count(want == ov::VisitorReturnFlag::ContinueInf ? "steps" : "stops");
            for(size_t k = 0; k < w.names.size(); ++k) if(r.chance(0.6)) { const double x = num(r); T::log(*vs[i], w.names[k], x); if(rec) w.logs[w.names[k]].back() = x; c.count("logs"); } } }
         for(size_t k = 0; k < vs.size(); ++k) compare(c, *vs[k], ws[k], p, t); }
      for(size_t i = 0; i < vs.size(); ++i) { f.v = num(r); f.b = num(r); T::end(*vs[i], f); Row z = {f.v, f.b, double(ws[i].it)}; ws[i].rows.push_back(z); }
      for(size_t k = 0; k < vs.size(); ++k) compare(c, *vs[k], ws[k], p, t); }
}
// the printing visitors
template<class V, bool EXPLICIT> struct Say { static void begin(V& v, Fake& f) { v.begin(f); } static size_t step(V& v, Fake& f) { return v(f); } static void end(V& v, Fake& f) { v.end(f); } };
template<class V> struct Say<V, true> { static void begin(V& v, Fake& f) { v.begin(f, f.v, f.b); } static size_t step(V& v, Fake& f) { return v(f, f.v, f.b); } static void end(V& v, Fake& f) { v.end(f, f.v, f.b); } };
template<class V, bool EXPLICIT> void print(Ctx& c, const std::string& t) {
   typedef Say<V, EXPLICIT> S; Rng& r = c.rng; const size_t nth = 1 + (r.chance(0.6) ? r.below(4) : 0), n = r.below(12); c.desc << t << " every " << nth << " steps " << n; c.digest(nth); c.digest(n);
   std::vector<Row> want; std::string text; { Mute mute; V v(nth, r.chance(0.5)); Fake f;
      f.v = num(r); f.b = num(r); S::begin(v, f); Row z = {f.v, f.b, -1}; want.push_back(z);
      for(size_t i = 1; i <= n; ++i) { f.v = num(r); f.b = num(r); VF_CHECK(S::step(v, f) == ov::VisitorReturnFlag::ContinueInf, t + "/flag", ""); if(i % nth == 0) { Row q = {f.v, f.b, double(i)}; want.push_back(q); } }
      f.v = num(r); f.b = num(r); S::end(v, f); Row e = {f.v, f.b, -1}; want.push_back(e); text = mute.o.str(); }
   std::istringstream in(text); std::string line; size_t k = 0; while(std::getline(in, line)) { if(line.empty()) continue; VF_CHECK(k < want.size(), t + "/lines", text); std::istringstream l(line); std::string w; std::vector<double> xs; while(l >> w) { char* e; const double d = std::strtod(w.c_str(), &e); if(e != w.c_str() && !*e) xs.push_back(d); } std::vector<double> ex; if(want[k].it > 0) ex.push_back(want[k].it); ex.push_back(want[k].v); ex.push_back(want[k].b); VF_CHECK(xs == ex, t + "/numbers", line << " expected " << want[k].it << " " << want[k].v << " " << want[k].b); ++k; }
   VF_CHECK(k == want.size(), t + "/lines", k << " lines expected " << want.size() << ": " << text); c.count("texts compared");
}
}
VF_SCENARIO(record, 3000, 150000) {
   switch(c.rng.below(6)) {
   case 0: record<ov::TimingVisitor<Fake>, Wrapped>(c, "TimingVisitor wrapped"); break; case 1: record<ov::ExplicitTimingVisitor<Fake>, Tell>(c, "ExplicitTimingVisitor"); break; case 2: record<ov::ExplicitTimingVisitor<Fake>, Wrapped>(c, "ExplicitTimingVisitor wrapped"); break;
   default: record<ov::TimingVisitor<Fake>, Tell>(c, "TimingVisitor"); } }
VF_SCENARIO(print, 600, 30000) { if(c.rng.chance(0.5)) print<ov::VerboseVisitor<Fake>, false>(c, "VerboseVisitor"); else print<ov::ExplicitVerboseVisitor<Fake>, true>(c, "ExplicitVerboseVisitor"); }
