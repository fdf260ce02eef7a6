// C46: visitors see every step, are told once of begin and end, can stop, and change nothing
#include "registry.hpp"
using namespace reg;
namespace {
std::vector<size_t> randStart(Rng& r, const RefModel& m) { std::vector<size_t> l(m.labels.size()); for(size_t v = 0; v < l.size(); ++v) l[v] = r.below(m.labels[v]); return l; }
struct Case { const Kind& k; std::unique_ptr<Model> m; Rng par; unsigned sd; bool given; std::vector<size_t> st; double opt;
   Case(Ctx& c, const Kind& kk) : k(kk), m(drawModel(c, kk)), par(c.rng.u64()), sd((unsigned)c.rng.below(1000)), given(kk.has(START) && c.rng.chance(0.4)), st(randStart(c.rng, m->ref())), opt(m->ref().best(kk.mx, kk.op)) { if(given) c.desc << "start" << show(st); }
   Run* fresh() { seed(k, sd); Run* s = k.make(*m, par); if(given) s->start(st); seed(k, sd); return s; } };
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
void protocol(Ctx& c, const Rec& v, const std::string& t) {
   VF_CHECK(v.begins == 1, t + "/begins", v.begins); VF_CHECK(v.ends == 1, t + "/ends", v.ends); VF_CHECK(v.values.size() == v.steps + 2 && v.args.size() == v.steps + 2, t + "/calls", v.values.size() << " notes of " << v.steps << " steps");
   c.count("steps seen", v.steps);
}
void last(Ctx& c, const Rec& v, const Answer& a, const std::string& t) { // what was seen at the end is the answer
   VF_CHECK(same(v.values.back(), a.value) && same(v.bounds.back(), a.bound), t + "/end-value", "visitor saw " << v.values.back() << " " << v.bounds.back() << " answer " << showA(a));
   VF_CHECK(v.argOk.back() == (int)a.ok && v.args.back() == a.arg, t + "/end-labels", "visitor saw " << show(v.args.back()) << " answer " << showA(a));
}
void watched(Ctx& c, const Kind& k) {
   Rng& r = c.rng; Quiet q(k); Case x(c, k); const std::string t = k.name; std::unique_ptr<Run> plain(x.fresh()); const Answer before = plain->answer(); seed(k, x.sd); plain->infer(); const Answer a = plain->answer();
   std::unique_ptr<Run> s(x.fresh()); Rec v; seed(k, x.sd); s->infer(v); protocol(c, v, t); const Answer b = s->answer(); VF_CHECK(sameAnswer(a, b), t + "/changes-result", showA(a) << " watched " << showA(b)); last(c, v, b, t);
   VF_CHECK(same(v.values[0], before.value) && same(v.bounds[0], before.bound) && v.args[0] == before.arg, t + "/begin-value", "visitor saw " << v.values[0] << " " << v.bounds[0] << " before " << showA(before));
   { std::unique_ptr<Run> e(x.fresh()); e->inferEmpty(); VF_CHECK(sameAnswer(a, e->answer()), t + "/empty-visitor", showA(a) << " then " << showA(e->answer())); }
   // stopped after each of its first steps: the same history up to there, an end, and a consistent answer
   for(size_t i = 0; i < 2 && v.steps; ++i) { const size_t stop = 1 + r.below(std::min(v.steps, size_t(8))); c.desc << " stop" << stop; std::unique_ptr<Run> e(x.fresh()); Rec w(stop); e->infer(w); const std::string h = t + "/stopped"; protocol(c, w, h); VF_CHECK(w.steps >= stop && w.steps <= stop + k.has(NOTSTEP), h + "/goes-on", "asked to stop after " << stop << " steps, " << w.steps << " seen");
      for(size_t j = 0; j <= stop; ++j) VF_CHECK(same(w.values[j], v.values[j]) && same(w.bounds[j], v.bounds[j]) && w.args[j] == v.args[j], h + "/other-history", "call " << j << " saw " << w.values[j] << " " << w.bounds[j] << show(w.args[j]) << " before " << v.values[j] << " " << v.bounds[j] << show(v.args[j]));
      const Answer z = e->answer(); judge(c, z, x.m->ref(), k.op, k.mx, x.opt, h, k.tol); last(c, w, z, h); c.count("stops"); }
   std::string why; VF_EXPECT(x.m->unchanged(&why), t + "/model-changed", why);
}
size_t lines(const std::string& s, const char* head) { size_t n = 0; std::istringstream i(s); std::string l; while(std::getline(i, l)) n += l.compare(0, std::strlen(head), head) == 0; return n; }
// the recording visitor of the library against our own record
void timed(Ctx& c, const Kind& k) {
   Rng& r = c.rng; Mute mute; Case x(c, k); const std::string t = k.name + "/timing"; std::unique_ptr<Run> s(x.fresh()); Rec v; s->infer(v); const Answer a = s->answer();
   Timing p; p.nth = 1 + (r.chance(0.5) ? r.below(4) : 0); p.mem = r.below(3); p.verbose = r.chance(0.5); const size_t mode = r.below(4); if(mode == 1) p.gap = r.chance(0.3) ? 0 : r.unit() * 5; if(mode == 2) p.limit = -1; c.desc << " every " << p.nth << " gap " << p.gap << " limit " << p.limit << " mem " << p.mem; c.digest(p.nth); c.digest(mode);
   std::vector<size_t> at; bool stops = false; for(size_t i = 1; i <= v.steps && !stops; ++i) if(i % p.nth == 0) { at.push_back(i); stops = std::fabs(v.bounds[i] - v.values[i]) <= p.gap || 0 > p.limit; }
   if(stops && k.has(NOTSTEP)) return;
   std::unique_ptr<Run> u(x.fresh()); Log l; u->timing(p, l); const Answer b = u->answer(); judge(c, b, x.m->ref(), k.op, k.mx, x.opt, t, k.tol);
   VF_CHECK(l.values.size() == at.size() + 2 && l.bounds.size() == l.values.size() && l.times.size() == l.values.size() && l.iterations.size() == l.values.size(), t + "/sizes", l.values.size() << " values " << l.bounds.size() << " bounds " << l.times.size() << " times " << l.iterations.size() << " iterations, expected " << at.size() + 2);
   VF_CHECK(same(l.values[0], v.values[0]) && same(l.bounds[0], v.bounds[0]) && l.iterations[0] == 0 && l.times[0] == 0, t + "/begin", l.values[0] << " " << l.bounds[0]);
   for(size_t i = 0; i < at.size(); ++i) { VF_CHECK(same(l.values[i + 1], v.values[at[i]]) && same(l.bounds[i + 1], v.bounds[at[i]]), t + "/values", "step " << at[i] << " logged " << l.values[i + 1] << " " << l.bounds[i + 1] << " seen " << v.values[at[i]] << " " << v.bounds[at[i]]); VF_CHECK(l.iterations[i + 1] == at[i], t + "/iterations", l.iterations[i + 1] << " for step " << at[i]); }
   for(size_t i = 1; i < l.times.size(); ++i) VF_CHECK(l.times[i] >= l.times[i - 1], t + "/clock", l.times[i - 1] << " then " << l.times[i]);
   VF_CHECK(same(l.values.back(), b.value) && same(l.bounds.back(), b.bound), t + "/end", l.values.back() << " " << l.bounds.back() << " answer " << showA(b)); if(!stops) VF_CHECK(sameAnswer(a, b), t + "/changes-result", showA(a) << " timed " << showA(b)); c.count(stops ? "limits reached" : "limits kept");
   VF_CHECK(l.all.count("ctime") && l.all["ctime"].size() == 1 && l.all["ctime"][0] >= 0, t + "/construction", ""); const size_t mem = l.all.count("mem") ? l.all["mem"].size() : 0; VF_CHECK(p.mem ? mem == l.values.size() : mem == 0, t + "/memory", mem << " memory entries"); for(size_t i = 0; i < mem; ++i) { const double z = l.all["mem"][i]; VF_CHECK(p.mem == 1 && i && i + 1 < mem ? std::isnan(z) : std::isnan(z) || z > 0, t + "/memory", z); }
   for(std::map<std::string, std::vector<double> >::iterator i = l.all.begin(); i != l.all.end(); ++i) { const std::string& n = i->first; if(n == "ctime" || n == "times" || n == "values" || n == "bounds" || n == "iteration" || n == "mem") continue; VF_CHECK(i->second.size() == at.size(), t + "/extra-logs", n << " has " << i->second.size() << " entries for " << at.size() << " steps"); c.count("extra logs"); for(size_t j = 0; j < i->second.size(); ++j) c.count(std::isnan(i->second[j]) ? "extra entries empty" : "extra entries filled"); }
   if(p.verbose) { VF_CHECK(lines(l.text, "begin:") == 1 && lines(l.text, "end:") == 1 && lines(l.text, "step:") == at.size(), t + "/text", l.text); }
   c.count("logs compared");
}
void printed(Ctx& c, const Kind& k) {
   Rng& r = c.rng; Mute mute; Case x(c, k); const std::string t = k.name + "/verbose"; std::unique_ptr<Run> s(x.fresh()); Rec v; s->infer(v); const Answer a = s->answer(); const size_t nth = 1 + (r.chance(0.5) ? r.below(4) : 0); c.desc << " every " << nth; c.digest(nth);
   std::unique_ptr<Run> u(x.fresh()); Log l; u->verbose(nth, l); const Answer b = u->answer(); VF_CHECK(sameAnswer(a, b), t + "/changes-result", showA(a) << " printed " << showA(b));
   std::vector<std::string> want, got; std::istringstream in(l.text); std::string line; while(std::getline(in, line)) if(line.compare(0, 6, "begin:") == 0 || line.compare(0, 5, "step:") == 0 || line.compare(0, 6, "value ") == 0) got.push_back(line);
   { std::ostringstream o; o.precision(mute.o.precision()); o << "begin: value " << v.values[0] << " bound " << v.bounds[0]; want.push_back(o.str()); }
   for(size_t i = nth; i <= v.steps; i += nth) { std::ostringstream o; o << "step: " << i << " value " << v.values[i] << " bound " << v.bounds[i]; want.push_back(o.str()); }
   { std::ostringstream o; o << "value " << a.value << " bound " << a.bound; want.push_back(o.str()); }
   VF_CHECK(got.size() == want.size(), t + "/lines", got.size() << " lines expected " << want.size() << ": " << l.text);
   for(size_t i = 0; i < got.size(); ++i) { // numbers may be printed with more digits than by default
      std::istringstream g(got[i]), w(want[i]); std::string p, e; while(w >> e) { VF_CHECK(bool(g >> p), t + "/line", got[i] << " expected " << want[i]); char* end; const double d = std::strtod(e.c_str(), &end); if(*end) VF_CHECK(p == e, t + "/line", got[i] << " expected " << want[i]); else VF_CHECK(sameNum(std::strtod(p.c_str(), 0), d, 1e-5), t + "/line", got[i] << " expected " << want[i]); } }
   c.count("texts compared");
}
}
VF_SCENARIO(watched, 3500, 150000) { watched(c, anyKind(c.rng)); }
VF_SCENARIO(timed, 3000, 120000) { timed(c, anyKind(c.rng)); }
VF_SCENARIO(printed, 1000, 40000) { printed(c, anyKind(c.rng)); }
