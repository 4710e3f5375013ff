// C24: training. Oracles: the recorded history of objective evaluations (no better one may exist, none may be worse than the start), a direct NLopt
// run with the same options, and a reference model of the adaptive algorithm that replays every step.
#include "deriv.hpp"
#include "MParT/MapObjective.h"
#include "MParT/TrainMap.h"
#include "MParT/TrainMapAdaptive.h"
#include "MParT/TriangularMap.h"
#include "mset.hpp"
using namespace mg;
typedef mpart::MapObjective<HS> Obj;
typedef std::shared_ptr<CMB> MapP;
typedef std::vector<double> DV;
static DV coeffsOf(CMB& m) { DV r(m.numCoeffs); auto v = m.Coeffs(); for (size_t i = 0; i < r.size() && i < v.extent(0); ++i) r[i] = v(i); return r; }
static void set(CMB& m, DV const& c) { if (c.empty()) return; Kokkos::View<double*, HS> v("c", c.size()); for (size_t i = 0; i < c.size(); ++i) v(i) = c[i]; m.SetCoeffs(Kokkos::View<const double*, HS>(v)); }
static bool nearly(DV const& a, DV const& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= 1e-9 * (1 + std::fabs(b[i])))) return false; return true; }  // (some algorithms rescale the variables)
struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };
/// records every evaluation; kinds: 0 KL (wrapped), 1 mean squared distance to a target; optionally throws at one evaluation, or is infinite away from the origin
struct Rec : Obj {
  struct Ev { char what; double f; DV c; std::vector<int> blocks; };
  std::shared_ptr<Obj> kl; int dout; double target = 0; mutable std::vector<Ev> ev; int throwAt = -1, throwKind = 0; double wall = 0;
  bool record = true; mutable int evals = 0; double limit = 1e3;  // (the map is not evaluated with larger coefficients: it would overflow)
  bool over(CMB& m, double& f) const { double s = 0; for (double x : coeffsOf(m)) s += x * x; f = 1e5 + s; return !(s <= limit * limit); }
  Rec(mpart::StridedMatrix<const double, HS> tr, int d) : Obj(tr), dout(d) {}
  Rec(mpart::StridedMatrix<const double, HS> tr, mpart::StridedMatrix<const double, HS> te, int d) : Obj(tr, te), dout(d) {}
  unsigned int MapOutputDim() const override { return unsigned(dout); }
  double adjust(double f, CMB& m) const { if (wall > 0) { double s = 0; for (double x : coeffsOf(m)) s += x * x; if (s > wall * wall) return std::numeric_limits<double>::infinity(); } return f; }
  void note(char w, double f, CMB& m) const {
    if (!record) return;
    Ev e{w, f, coeffsOf(m), {}}; if (auto* t = dynamic_cast<mpart::TriangularMap<HS>*>(&m)) for (unsigned i = 0; i < unsigned(dout); ++i) { try { e.blocks.push_back(t->GetComponent(i)->numCoeffs); } catch (std::exception const&) { break; } }
    ev.push_back(e);
  }
  void fault() const { if (!record) return; if (evals++ == throwAt) { if (throwKind == 0) throw Boom("objective failed"); if (throwKind == 1) throw std::invalid_argument("objective failed"); throw std::bad_alloc(); } }
  double plain(mpart::StridedMatrix<const double, HS> d, MapP m) const {
    double big; if (over(*m, big)) return big;
    if (kl) return kl->ObjectiveImpl(d, m);
    auto y = m->Evaluate(d); double s = 0; for (size_t j = 0; j < y.extent(1); ++j) for (size_t i = 0; i < y.extent(0); ++i) { double t = y(i, j) - target - double(i); s += t * t; } return s / double(d.extent(1));
  }
  double ObjectiveImpl(mpart::StridedMatrix<const double, HS> d, MapP m) const override {
    auto tv = const_cast<Rec*>(this)->GetTest(); bool test = tv.extent(0) > 0 && d.data() == tv.data(); if (!test) fault();
    double f = adjust(plain(d, m), *m); note(test ? 'T' : 'E', f, *m); return f;
  }
  void grad(mpart::StridedMatrix<const double, HS> d, mpart::StridedVector<double, HS> g, MapP m) const {
    if (!g.data() && g.extent(0)) return;
    double big; if (over(*m, big)) { DV c = coeffsOf(*m); for (size_t k = 0; k < c.size(); ++k) g(k) = 2 * c[k]; return; }
    if (kl) { kl->CoeffGradImpl(d, g, m); return; }
    auto y = m->Evaluate(d); Kokkos::View<double**, HS> s("s", y.extent(0), y.extent(1)); for (size_t j = 0; j < y.extent(1); ++j) for (size_t i = 0; i < y.extent(0); ++i) s(i, j) = 2 * (y(i, j) - target - double(i)) / double(d.extent(1));
    mpart::StridedMatrix<const double, HS> cs = s; auto q = m->CoeffGrad(d, cs); for (size_t k = 0; k < g.extent(0); ++k) { double t = 0; for (size_t j = 0; j < q.extent(1); ++j) t += q(k, j); g(k) = t; }
  }
  void CoeffGradImpl(mpart::StridedMatrix<const double, HS> d, mpart::StridedVector<double, HS> g, MapP m) const override { grad(d, g, m); }
  double ObjectivePlusCoeffGradImpl(mpart::StridedMatrix<const double, HS> d, mpart::StridedVector<double, HS> g, MapP m) const override { fault(); double f = adjust(plain(d, m), *m); grad(d, g, m); note('E', f, *m); return f; }
  double best(size_t a = 0, size_t b = size_t(-1)) const { double r = std::numeric_limits<double>::infinity(); for (size_t i = a; i < std::min(b, ev.size()); ++i) if (ev[i].what == 'E' && ev[i].f < r) r = ev[i].f; return r; }
};
static std::shared_ptr<Rec> makeObj(G& g, Buf& tr, Buf* te, int dout) {
  auto r = te ? std::make_shared<Rec>(tr.cview(), te->cview(), dout) : std::make_shared<Rec>(tr.cview(), dout);
  if (g.chance(1, 3)) { r->target = g.real(-2, 2); g.label("least squares"); }
  else { r->kl = te ? mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(tr.cview(), te->cview(), unsigned(dout)) : mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(tr.cview(), unsigned(dout)); g.label("KL"); }
  return r;
}
static mpart::TrainOptions drawTrain(G& g, int maxEval) {
  mpart::TrainOptions t;
  t.opt_alg = g.pick<std::string>({"LD_SLSQP", "LD_SLSQP", "LD_LBFGS", "LD_MMA", "LD_CCSAQ", "LD_VAR1", "LD_VAR2", "LD_TNEWTON", "LD_TNEWTON_PRECOND_RESTART", "LN_BOBYQA", "LN_NELDERMEAD", "LN_SBPLX", "LN_PRAXIS", "LN_NEWUOA"});
  t.opt_maxeval = g.coin() ? g.range(1, maxEval / 4) : g.range(1, maxEval);
  auto tol = [&] { return g.pick<double>({0.0, 1e-1, 1e-2, 1e-3, 1e-5, 1e-8, 1.0}); };
  t.opt_ftol_rel = tol(); t.opt_ftol_abs = tol(); t.opt_xtol_rel = tol(); t.opt_xtol_abs = tol();
  if (g.chance(1, 8)) t.opt_maxtime = g.pick<double>({1e-9, 1e3});
  g.note() << " " << t.opt_alg << " maxeval " << t.opt_maxeval << " ftol " << t.opt_ftol_rel << " " << t.opt_ftol_abs << " xtol " << t.opt_xtol_rel << " " << t.opt_xtol_abs << " maxtime " << t.opt_maxtime;
  return t;
}
/// what NLopt does when it is called directly with these options
struct Direct { std::vector<double> f; bool threw = false; };
static double cfun(unsigned n, const double* x, double* gr, void* d) { return (*reinterpret_cast<std::function<double(unsigned, const double*, double*)>*>(d))(n, x, gr); }
static Direct direct(mpart::TrainOptions const& t, std::shared_ptr<Rec> o, MapP m, DV x) {
  Direct r; nlopt::srand(7); nlopt::opt opt(t.opt_alg.c_str(), unsigned(x.size()));
  opt.set_stopval(t.opt_stopval); opt.set_ftol_rel(t.opt_ftol_rel); opt.set_ftol_abs(t.opt_ftol_abs); opt.set_xtol_rel(t.opt_xtol_rel); opt.set_xtol_abs(t.opt_xtol_abs); opt.set_maxeval(t.opt_maxeval); opt.set_maxtime(t.opt_maxtime);
  std::function<double(unsigned, const double*, double*)> f = [&](unsigned n, const double* p, double* gr) { double v = (*o)(n, p, gr, m); r.f.push_back(v); return v; };
  opt.set_min_objective(cfun, &f); double e; try { opt.optimize(x, e); } catch (std::exception const&) { r.threw = true; }
  return r;
}
PBT_PROPERTY(training, 1500) {
  Cfg cfg; cfg.box = 1.5; cfg.K = 1; cfg.exact = false; cfg.contOnly = true; cfg.cheap = true; cfg.ccOnly = true; cfg.allowExp = false;  // (a NaN of the exponential ends the process by design)
  Built b = build(g, cfg, 2, 3, 1); if (!b.n.nc) g.discard("no coefficients");
  MapP map = b.n.map; bool unset = g.chance(1, 8);
  if (unset) { map = std::make_shared<mpart::TriangularMap<HS>>(std::vector<MapP>{b.n.map}); if (map->Coeffs().extent(0)) g.discard("set"); g.label("coefficients never set"); }
  Mat x = drawPts(g, b.n.din, g.range(1, 8), 1.5), xe = drawPts(g, b.n.din, 2, 1.5); Buf tr(x, g.pick<int>({LEFT, RIGHT, PADDED, STEP})), te(xe, STEP); bool hasTest = g.chance(1, 4);
  auto o = makeObj(g, tr, hasTest ? &te : nullptr, b.n.dout); if (b.n.count("composed")) o->limit = 6; mpart::TrainOptions t = drawTrain(g, 60);
  DV start(b.n.nc); if (unset) start.assign(b.n.nc, 1.0); else start = DV(b.c.data(), b.c.data() + b.n.nc);
  // the starting value, from another map object's point of view: evaluate with the starting coefficients, then restore the state
  o->record = false; double f0;
  if (unset) { DV keep = coeffsOf(*b.n.map); set(*b.n.map, start); f0 = o->TrainError(b.n.map); set(*b.n.map, keep); } else f0 = o->TrainError(map);
  if (g.chance(1, 6)) { t.opt_stopval = g.coin() ? f0 + g.real(-1, 0.5) : -5; g.note() << " stopval " << t.opt_stopval; }
  int fault = int(g.below(8)); if (fault == 0) { o->throwAt = g.range(1, 6); o->throwKind = g.range(0, 2); g.note() << " throws at evaluation " << o->throwAt << " kind " << o->throwKind; g.label("objective throws"); }
  if (fault == 1 && !unset && std::set<std::string>{"LD_LBFGS", "LD_VAR1", "LD_VAR2", "LD_TNEWTON", "LD_MMA", "LD_CCSAQ", "LN_NELDERMEAD"}.count(t.opt_alg)) { double s = 0; for (double v : start) s += v * v; o->wall = std::sqrt(s) + g.real(0.01, 1); g.note() << " infinite beyond " << o->wall; g.label("infinite region"); }
  Direct want; if (!unset && fault != 0) { want = direct(t, o, map, start); set(*map, start); }
  o->record = true; o->ev.clear(); nlopt::srand(7); double ret = 0; bool threw = false; std::string what;
  try { ret = mpart::TrainMap<HS>(map, o, t); } catch (std::exception const& e) { threw = true; what = e.what(); }
  auto rec = o->ev; o->record = false; size_t n = rec.size(); if (n > 2) g.nontrivial(); g.label(t.opt_alg);
  DV fin = coeffsOf(*map); double f1 = o->TrainError(map), eps = 1e-11;
  if (map->Coeffs().extent(0) != size_t(b.n.nc)) { g.check(threw && n == 0, "coefficients", "the trained map has no coefficients"); return; }
  g.check(tr.intact() && te.intact(), "samples", "training changed the samples");
  if (!std::isnan(f0)) g.check(f1 <= f0 + eps * (1 + std::fabs(f0)) || (std::isinf(f0) && f0 > 0), "not worse than the start", "objective at the start " + std::to_string(f0) + ", afterwards " + std::to_string(f1) + (threw ? " (threw " + what + ")" : "") + " after " + std::to_string(n) + " evaluations");
  if (threw && t.opt_alg == "LN_NEWUOA" && b.n.nc < 2) return;  // (needs two dimensions)
  if (threw) { g.check(fault == 0, "failing training", "training threw: " + what); return; }
  g.check(n > 0, "training", "the objective was never evaluated");
  if (unset) for (double v : rec[0].c) g.check(v == 1.0, "default start", "unset coefficients must start at one, the first evaluation used " + std::to_string(v));
  else g.check(nearly(rec[0].c, start), "start", "the first evaluation is not at the coefficients of the map");
  double best = std::numeric_limits<double>::infinity(); for (auto& e : rec) if (e.f < best) best = e.f;
  if (std::isfinite(f1)) g.close("returned value", ret, f1, eps * (1 + std::fabs(f1)), "objective at the coefficients of the map");
  if (std::isfinite(best)) g.check(f1 <= best + eps * (1 + std::fabs(best)), "best evaluation", "best value evaluated " + std::to_string(best) + ", objective of the trained map " + std::to_string(f1));
  if (!want.f.empty() && fault != 0) {
    double wb = std::numeric_limits<double>::infinity(); for (double v : want.f) if (v < wb) wb = v;
    g.check(std::abs(long(n) - long(want.f.size())) <= 2, "stopping options", "NLopt called directly with these options needs " + std::to_string(want.f.size()) + " evaluations, TrainMap used " + std::to_string(n));
    if (std::isfinite(wb)) g.check(f1 <= wb + 1e-7 * (1 + std::fabs(wb)), "stopping options", "NLopt called directly with these options reaches " + std::to_string(wb) + ", TrainMap " + std::to_string(f1));
  }
}
// ---------------------------------------------------------------- adaptive training
static mpart::FixedMultiIndexSet<HS> fixedOf(std::vector<ms::V> const& a, int len) { return fixedCompressed(len, a); }
PBT_PROPERTY(adaptive, 600) {
  int dout = g.range(1, 3), extra = g.chance(1, 2) ? 0 : g.range(1, 2); if (dout == 3) extra = 0; int din = dout + extra;
  Cfg cfg; cfg.box = 1.5; cfg.exact = false; cfg.contOnly = g.chance(2, 3); cfg.ccOnly = true; cfg.allowExp = false; mpart::ATMOptions opt; static_cast<mpart::MapOptions&>(opt) = drawOpts(g, cfg); if (opt.nugget == 0) opt.nugget = 1e-3;
  g.note() << optDesc(opt) << " ";
  std::vector<mpart::MultiIndexSet> sets; std::vector<std::vector<ms::V>> act(dout); std::vector<ms::Limiter> lims; int size0 = 0;
  for (int i = 0; i < dout; ++i) {
    unsigned len = extra + i + 1; ms::Limiter lim = g.chance(2, 3) ? ms::none() : ms::drawLimiter(g, len); if (!lim.closed) lim = ms::none();
    mpart::MultiIndexSet s = g.chance(1, 8) ? mpart::MultiIndexSet::CreateTensorProduct(len, 1, lim.impl) : mpart::MultiIndexSet::CreateTotalOrder(len, g.chance(1, 3) ? 1 : 0, lim.impl);
    if (s.Size() == 0) { lim = ms::none(); s = mpart::MultiIndexSet::CreateTotalOrder(len, 0); }
    int grow = g.chance(1, 3) ? g.range(1, 3) : 0; for (int k = 0; k < grow; ++k) { auto m = s.Margin(); if (m.empty()) break; s += m[g.below(m.size())]; }
    for (unsigned k = 0; k < s.Size(); ++k) act[i].push_back(s[k].Vector()); size0 += int(s.Size()); sets.push_back(s); lims.push_back(lim); g.note() << "set" << i << "{" << ms::str(act[i]) << " " << lim.desc << "} ";
  }
  Mat x = drawPts(g, din, g.range(1, 8), 1.5), xe = drawPts(g, din, g.range(1, 5), 1.5); Buf tr(x, g.pick<int>({LEFT, RIGHT, STEP})), te(xe, g.pick<int>({LEFT, RIGHT, STEP})); auto o = makeObj(g, tr, &te, dout);
  static_cast<mpart::TrainOptions&>(opt) = drawTrain(g, 20); opt.opt_maxtime = std::numeric_limits<double>::infinity(); if (opt.opt_maxeval < 2) opt.opt_maxeval = 2; if (opt.opt_alg == "LN_NEWUOA") opt.opt_alg = "LD_SLSQP";
  opt.maxPatience = g.chance(1, 10) ? 0 : g.range(1, 4); opt.maxSize = g.chance(1, 10) ? g.range(0, size0) : size0 + g.range(0, 7); ms::V deg;
  if (g.coin()) { deg.resize(din); for (auto& v : deg) v = g.range(0, 4); opt.maxDegrees = mpart::MultiIndex(deg); g.label("maximum degrees"); }
  g.note() << " patience " << opt.maxPatience << " maxSize " << opt.maxSize << " degrees " << ms::str(deg); nlopt::srand(7);
  auto result = sets; auto map = mpart::TrainMapAdaptive<HS>(result, o, opt); auto ev = o->ev; o->record = false;
  // the map and the sets agree
  g.check(int(map->inputDim) == din && int(map->outputDim) == dout, "dimensions", ""); g.check(int(result.size()) == dout, "sets", "number of sets");
  auto tri = std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(map); int total = 0;
  for (int i = 0; i < dout; ++i) {
    g.check(int(result[i].Length()) == extra + i + 1, "sets", "length of set " + std::to_string(i)); total += int(result[i].Size());
    if (tri) g.check(tri->GetComponent(i)->numCoeffs == result[i].Size(), "sets", "component " + std::to_string(i) + " has " + std::to_string(tri->GetComponent(i)->numCoeffs) + " coefficients, its set " + std::to_string(result[i].Size()) + " terms");
    for (auto& v : act[i]) g.check(result[i].MultiToIndex(mpart::MultiIndex(v)) >= 0, "initial terms", "set " + std::to_string(i) + " lost " + ms::str(v));
    for (unsigned k = 0; k < result[i].Size(); ++k) { ms::V v = result[i][k].Vector(); if (std::find(act[i].begin(), act[i].end(), v) != act[i].end()) continue; for (size_t d = 0; d < v.size() && !deg.empty(); ++d) g.check(v[d] <= deg[d], "maximum degrees", ms::str(v) + " was added"); g.check(lims[i].ok(v), "limiter", ms::str(v) + " was added to a set with limiter " + lims[i].desc); }
  }
  g.check(int(map->numCoeffs) == total && int(map->Coeffs().extent(0)) == total, "sets", "the map has " + std::to_string(map->numCoeffs) + " coefficients, the sets " + std::to_string(total) + " terms");
  g.check(total <= std::max(size0, int(opt.maxSize)), "maximum size", std::to_string(total) + " terms");
  // the map has the terms of the sets: compare with components built from the sets
  { DV c = coeffsOf(*map); std::vector<MapP> comps; size_t at = 0; for (int i = 0; i < dout; ++i) { std::vector<ms::V> a; for (unsigned k = 0; k < result[i].Size(); ++k) a.push_back(result[i][k].Vector()); MapP q = mpart::MapFactory::CreateComponent<HS>(fixedOf(a, extra + i + 1), opt); set(*q, DV(c.begin() + at, c.begin() + at + a.size())); at += a.size(); comps.push_back(q); }
    mpart::TriangularMap<HS> same(comps, true); Mat y = runOp(*map, EVAL, x, x), z = runOp(same, EVAL, x, x); for (int j = 0; j < x.cols(); ++j) for (int i = 0; i < dout; ++i) if (std::isfinite(z(i, j))) g.close("map of the sets", y(i, j), z(i, j), 1e-10 * (1 + std::fabs(z(i, j))), "output " + std::to_string(i)); }
  // history
  size_t nT = 0; for (auto& e : ev) nT += e.what == 'T'; if (!nT) g.discard("no test evaluations recorded");
  std::vector<size_t> T; for (size_t i = 0; i < ev.size(); ++i) if (ev[i].what == 'T') T.push_back(i);
  bool lastTest = ev.back().what == 'T'; size_t steps = lastTest ? T.size() - 1 : T.size(); g.check(steps >= 1, "history", "the initial map was not assessed");
  for (double v : ev[0].c) g.check(v == 0, "initial coefficients", "training of the initial map started from non-zero coefficients");
  o->ev.clear();
  // replay
  auto cur = act; std::vector<double> test; size_t best = 0; auto bestSets = cur; unsigned patience = 0; int size = size0; bool sure = true; double trained = o->best(); DV bestC;
  double prevBest = std::numeric_limits<double>::infinity();
  for (size_t k = 0; k < steps; ++k) {
    Rec::Ev const& e = ev[T[k]]; size_t from = k ? T[k - 1] + 1 : 0; double segBest = std::numeric_limits<double>::infinity(); for (size_t i = from; i < T[k]; ++i) if (ev[i].what == 'E' && ev[i].f < segBest) segBest = ev[i].f;
    g.check(int(e.c.size()) == size, "one term at a time", "step " + std::to_string(k) + " has " + std::to_string(e.c.size()) + " terms, expected " + std::to_string(size)); 
    if (std::isfinite(prevBest)) g.check(segBest <= prevBest + 1e-9 * (1 + std::fabs(prevBest)), "training error", "the training error went up from " + std::to_string(prevBest) + " to " + std::to_string(segBest) + " in step " + std::to_string(k)); prevBest = segBest;
    test.push_back(e.f); if (std::isnan(e.f)) g.discard("NaN test error");
    if (k) { ++patience; if (e.f < test[best]) { best = k; patience = 0; bestSets = cur; bestC = e.c; } } else bestC = e.c;
    bool mayGo = size < int(opt.maxSize) && patience < opt.maxPatience; bool more = k + 1 < steps;
    if (!mayGo) { g.check(!more, "limits", "continued after step " + std::to_string(k) + " with " + std::to_string(size) + " terms and patience " + std::to_string(patience)); break; }
    // candidates
    std::vector<std::vector<ms::V>> cand(dout); size_t nc = 0;
    for (int i = 0; i < dout; ++i) { ms::Model m(extra + i + 1, lims[i]); for (auto& v : cur[i]) m.add(v); for (auto& v : cur[i]) for (auto& w : m.growth(v)) { if (std::find(cand[i].begin(), cand[i].end(), w) != cand[i].end()) continue; bool ok = true; for (size_t d = 0; d < w.size() && !deg.empty(); ++d) ok = ok && w[d] < deg[d]; if (ok) { cand[i].push_back(w); ++nc; } } }
    if (!more) { g.check(nc == 0, "limits", "stopped after step " + std::to_string(k) + " with " + std::to_string(size) + " terms, patience " + std::to_string(patience) + " and " + std::to_string(nc) + " admissible terms"); break; }
    g.check(nc > 0, "admissible terms", "step " + std::to_string(k + 1) + " added a term although none is admissible");
    // gradient with respect to the candidates
    std::vector<MapP> comps; size_t at = 0; for (int i = 0; i < dout; ++i) { auto a = cur[i]; DV c(e.c.begin() + at, e.c.begin() + at + a.size()); at += a.size(); for (auto& w : cand[i]) { a.push_back(w); c.push_back(0); } MapP q = mpart::MapFactory::CreateComponent<HS>(fixedOf(a, extra + i + 1), opt); set(*q, c); comps.push_back(q); }
    auto big = std::make_shared<mpart::TriangularMap<HS>>(comps, true); Kokkos::View<double*, HS> gr("g", big->numCoeffs); o->TrainCoeffGradImpl(big, gr);
    double mx = -1; int bi = -1, bw = -1; at = 0; double second = -1; bool nan = false;
    for (int i = 0; i < dout; ++i) { at += cur[i].size(); for (size_t w = 0; w < cand[i].size(); ++w) { double v = std::fabs(gr(at + w)); if (std::isnan(v)) nan = true; if (v > mx) { second = mx; mx = v; bi = i; bw = int(w); } else second = std::max(second, v); } at += cand[i].size(); }
    Rec::Ev const& nx = ev[T[k + 1]]; int grown = -1; for (int i = 0; i < dout && i < int(nx.blocks.size()); ++i) if (nx.blocks[i] != int(cur[i].size())) { g.check(grown < 0 && nx.blocks[i] == int(cur[i].size()) + 1, "one term at a time", "step " + std::to_string(k + 1)); grown = i; }
    if (nan || mx - second <= 1e-7 * (1 + mx)) { g.label("ambiguous step"); sure = false; break; }
    if (!nx.blocks.empty()) g.check(grown == bi, "greedy choice", "step " + std::to_string(k + 1) + " should add " + ms::str(cand[bi][bw]) + " to block " + std::to_string(bi) + " (gradient " + std::to_string(mx) + "), block " + std::to_string(grown) + " grew");
    cur[bi].push_back(cand[bi][bw]); ++size;
  }
  if (steps > 1) g.nontrivial(); g.label(steps > 3 ? "more than two added terms" : steps > 1 ? "added terms" : "no added terms");
  if (!sure) return;
  for (int i = 0; i < dout; ++i) { std::vector<ms::V> a; for (unsigned k = 0; k < result[i].Size(); ++k) a.push_back(result[i][k].Vector()); auto b = bestSets[i]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); g.check(a == b, "best step", "set " + std::to_string(i) + " is " + ms::str(a) + ", the smallest test error was at step " + std::to_string(best) + " with " + ms::str(b)); }
  // the last training starts from the coefficients of the best step
  size_t last = T[steps - 1] + 1; if (last < ev.size() && ev[last].what == 'E') g.check(nearly(ev[last].c, bestC), "final training", "it did not start from the coefficients of the best step");
  double tb = std::numeric_limits<double>::infinity(); for (size_t i = 0; i < T[0]; ++i) if (ev[i].what == 'E' && ev[i].f < tb) tb = ev[i].f;
  double fe = o->TrainError(map); if (std::isfinite(tb)) g.check(fe <= tb + 1e-9 * (1 + std::fabs(tb)), "training error", "initial map " + std::to_string(tb) + ", final map " + std::to_string(fe));
  (void)trained;
}
