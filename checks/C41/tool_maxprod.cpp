// The command line tool for maximising products against the solvers called directly.
#include <sstream>
#include <set>
#include <iomanip>
#include "common.hpp"
#define main max_prod_main
#include <../src/interfaces/commandline/double/opengm_max_prod.cxx>
#undef main
namespace {
int call(int n, char** a) { return max_prod_main(n, a); }
using namespace c41;
typedef opengm::Multiplier OpT; typedef opengm::Maximizer Acc; typedef std::vector<size_t> Lab;
typedef opengm::ExplicitFunction<double> Ex; typedef opengm::PottsFunction<double> Po; typedef opengm::PottsNFunction<double> PoN; typedef opengm::TruncatedSquaredDifferenceFunction<double> Tsq; typedef opengm::TruncatedAbsoluteDifferenceFunction<double> Tab;
typedef opengm::GraphicalModel<double, OpT, opengm::meta::TypeListGenerator<Ex, Po, PoN, Tsq, Tab>::type, opengm::DiscreteSpace<> > Gm;
const bool product = true;
const vf::Op op = product ? vf::PROD : vf::SUM;
double val(Ctx& c) { return product ? std::ldexp(1.0, (int)c.rng.below(9) - 4) : c.rng.range(-20, 20) * 0.25; }
template<class INF> Lab direct(Gm& gm, const typename INF::Parameter& p) { INF inf(gm, p); inf.infer(); Lab l; inf.arg(l); return l; }
Lab states(Ctx& c, const Scratch& s, const std::string& file, const std::string& k) { VF_CHECK(exists(s(file)), k + "/no-result", "the tool succeeded without writing " << file); Lab l; try { hid_t f = marray::hdf5::openFile(s(file)); marray::hdf5::loadVec(f, "states", l); marray::hdf5::closeFile(f); } catch(const std::exception& e) { c.fail(k + "/unreadable", e.what()); throw Abort(); } return l; }
}
VF_SCENARIO(max_prod, 24, 360) {
   Scratch s; const size_t n = 1 + c.rng.below(5), alg = c.caseNo % 3; const bool cut = false; Lab L; for(size_t i = 0; i < n; ++i) L.push_back(cut ? 2 : 1 + c.rng.below(3));
   Gm gm(opengm::DiscreteSpace<>(L.begin(), L.end()));
   for(size_t i = 0; i < n; ++i) { Ex e(&L[i], &L[i] + 1, 1.0); for(size_t l = 0; l < L[i]; ++l) e(l) = val(c); gm.addFactor(gm.addFunction(e), &i, &i + 1); }
   for(size_t a = 0; a < n; ++a) for(size_t b = a + 1; b < n; ++b) { if(c.rng.chance(0.4)) continue; const size_t v[] = {a, b}, sh[] = {L[a], L[b]}; Gm::FunctionIdentifier id; const double w = product ? val(c) : 0.25 * c.rng.below(12); const size_t kind = c.rng.below(cut ? 2 : 4);
      if(kind == 0) id = gm.addFunction(product ? Po(sh[0], sh[1], val(c), w) : Po(sh[0], sh[1], 0, w)); else if(kind == 1) id = gm.addFunction(product ? PoN(sh, sh + 2, val(c), w) : PoN(sh, sh + 2, 0, w)); else if(kind == 2 && !product) id = gm.addFunction(Tab(sh[0], sh[1], 2, w)); else { Ex e(sh, sh + 2, 1.0); for(size_t i = 0; i < e.size(); ++i) e(i) = val(c); id = gm.addFunction(e); }
      gm.addFactor(id, v, v + 2); }
   if(!cut && n >= 3 && c.rng.chance(0.5)) { size_t v[] = {0, 1, 2}; size_t sh[] = {L[0], L[1], L[2]}; Ex e(sh, sh + 3, 1.0); for(size_t i = 0; i < e.size(); ++i) e(i) = val(c); gm.addFactor(gm.addFunction(e), v, v + 3); }
   const RefModel m = tables(gm); m.digest(c); c.digest(alg); opengm::hdf5::save(gm, s("m.h5"), "gm"); Lab want, x0; for(size_t i = 0; i < n; ++i) x0.push_back(c.rng.below(L[i])); { hid_t f = marray::hdf5::createFile(s("x.h5")); marray::hdf5::save(f, "start", x0); marray::hdf5::closeFile(f); }
   std::vector<std::string> a = A("-m", "m.h5:gm", "-o", "r.h5"); a.push_back("-a"); std::string K = "max_prod-"; bool exact = false;
   if(alg == 0) { typedef opengm::ICM<Gm, Acc> I; a.push_back("ICM"); I::Parameter p; if(c.rng.chance(0.6)) { p.startPoint_ = x0; a.push_back("-x0"); a.push_back("x.h5:start"); } want = direct<I>(gm, p); }
   else if(alg == 1) { typedef opengm::Bruteforce<Gm, Acc> I; a.push_back("BRUTEFORCE"); want = direct<I>(gm, I::Parameter()); exact = true; }
   else { typedef opengm::AStar<Gm, Acc> I; a.push_back("ASTAR"); want = direct<I>(gm, I::Parameter()); exact = true; }
   K += a.back().size() > 2 && a.back()[0] != 'x' ? "solver" : "ICM"; c.desc << m.str() << " arguments" << show(a); size_t plevel = 0; if(c.rng.chance(0.4)) { plevel = 1 + c.rng.below(2); a.push_back("-p"); a.push_back(str(plevel)); }
   works(c, s, &call, a, K); const Lab got = states(c, s, "r.h5", K); VF_CHECK(validLabeling(m, got), K + "/invalid", show(got)); VF_CHECK(got == want, K + "/differs", "the tool finds " << show(got) << ", the solver " << show(want)); if(exact) VF_CHECK(close(m.eval(got, op), m.best(product, op)), K + "/not-optimal", m.eval(got, op) << " optimum " << m.best(product, op)); c.seen();
   if(plevel) { std::vector<double> values, times; try { hid_t f = marray::hdf5::openFile(s("r.h5")); marray::hdf5::loadVec(f, "values", values); marray::hdf5::loadVec(f, "times", times); marray::hdf5::closeFile(f); } catch(const std::exception& e) { c.fail(K + "/no-protocol", e.what()); throw Abort(); } VF_CHECK(!values.empty() && values.size() == times.size(), K + "/protocol", "values" << show(values) << " times" << show(times)); VF_CHECK(close(values.back(), m.eval(got, op)), K + "/protocol-value", "the protocol ends with " << values.back() << ", the result has value " << m.eval(got, op)); c.count("protocols read"); }
   Outcome r = works(c, s, &call, A("-m", "m.h5:gm", "-e", "x.h5:start"), "max_prod-evaluate"); const size_t p = r.out.find("result: "); VF_CHECK(p != std::string::npos, "max_prod-evaluate/no-value", r.show()); const double v = std::strtod(r.out.c_str() + p + 8, 0); VF_CHECK(close(v, m.eval(x0, op), 1e-5, 1e-5), "max_prod-evaluate/value", v << " expected " << m.eval(x0, op));
   fails(c, s, &call, A("-m", "m.h5:gm", "-o", "q.h5", "-a", "NOSUCH"), "q.h5", "max_prod-unknown-algorithm", "an unknown algorithm");
}
