// C01: map components are strictly increasing in their last input.
#include "ops.hpp"
using namespace mg;

static double tolAt(Node const& n, ref::Comp::Out const& r) {
  return (n.adaptive ? 400 * (n.opts.quadAbsTol + n.opts.quadRelTol * std::fabs(double(r.integral))) : 0) + 1e-13 * (1 + double(r.mag));
}
/// last-input values along which monotonicity is judged: a spread, clusters of close values, the origin, extremes
static std::vector<double> ladder(G& g, double box) {
  std::set<double> t;
  int n = g.range(3, 8);
  for (int i = 0; i < n; ++i) t.insert(g.real(-box, box));
  double c = g.real(-box, box); double step = std::pow(10.0, -g.range(0, 9));
  for (int i = 0; i < 3; ++i) t.insert(c + step * (i - 1));
  if (g.coin()) { t.insert(0.0); t.insert(step); t.insert(-step); }
  return std::vector<double>(t.begin(), t.end());
}
static void judge(G& g, Node const& n, VecX const& c, LV lead, std::vector<double> const& ts, std::shared_ptr<CMB> whole, int row, LV const& full) {
  LV lc = lv(c); int m = int(ts.size()), d = n.din;
  Mat x(whole->inputDim, m);
  for (int j = 0; j < m; ++j) { for (int i = 0; i < x.rows(); ++i) x(i, j) = double(full[i]); for (int i = 0; i + 1 < d; ++i) x(i, j) = double(lead[i]); x(d - 1, j) = ts[j]; }
  Mat y = whole->Evaluate(x);
  std::vector<ref::Comp::Out> r(m); std::vector<double> qe(m);
  for (int j = 0; j < m; ++j) { LV p = col(x, j); p.resize(d); r[j] = n.comp.eval(p, lc.data()); qe[j] = double(n.comp.quadError(p, lc.data())); }
  ref::Comp ex = n.comp; ex.o.cc = 0;
  for (int j = 0; j + 1 < m; ++j) {
    LV p = col(x, j), q = col(x, j + 1); p.resize(d); q.resize(d);
    g.check(std::isfinite(y(row, j)), "finite", "output is not finite at x=" + str(p));
    double inc = double(ex.eval(q, lc.data()).integral - ex.eval(p, lc.data()).integral);
    double tol = tolAt(n, r[j]) + tolAt(n, r[j + 1]) + qe[j] + qe[j + 1];
    if (n.comp.o.lin && n.adaptive) tol *= 10;
    std::ostringstream s; s.precision(17); s << "from " << str(p) << " to " << str(q) << ": " << y(row, j) << " -> " << y(row, j + 1) << " (increment of the integral " << inc << ")";
    ++g.comparisons;
    if (!(y(row, j + 1) >= y(row, j) - tol)) g.fail("monotone", s.str());
    if (inc > 4 * tol && !(y(row, j + 1) > y(row, j))) g.fail("strict", s.str());
    if (inc > 4 * tol) g.label("strict increase judged");
  }
}
static void logdets(G& g, Node const& n, VecX const& c, Mat const& x, std::shared_ptr<CMB> whole) {
  if (!n.opts.contDeriv) return;
  LV lc = lv(c); VecX l = whole->LogDeterminant(x);
  for (int j = 0; j < x.cols(); ++j) {
    LV p = col(x, j); p.resize(n.din); ld df = n.comp.df(p, lc.data());
    if (df < -700 || df > 700) continue;
    g.check(std::isfinite(l(j)), "finite log-determinant", "log-determinant is not finite at x=" + str(p) + " df=" + num(double(df)));
    // positivity of the diagonal entry of the input gradient's counterpart: never below the nugget
    if (n.opts.nugget > 0) g.check(std::exp(l(j)) >= n.opts.nugget * (1 - 1e-12), "nugget", "slope below the nugget at x=" + str(p));
  }
}
static void run(G& g, Cfg const& cfg, int dim, double box, double boost) {
  Node n = genComponent(g, cfg, dim); VecX c;
  { std::vector<double> v; drawCoeffs(g, n, v); c = Eigen::Map<VecX>(v.data(), v.size()); c *= boost; VecX w = c; n.map->SetCoeffs(Eigen::Ref<VecX>(w)); }
  g.note() << n.desc << " coeffs " << str(c);
  bool dep = false; for (size_t i = 0; i < n.comp.m.size(); ++i) dep |= c(i) != 0 && n.comp.m[i][dim - 1] > 0;
  if (dep) g.nontrivial();
  LV lead(dim, 0); for (int i = 0; i + 1 < dim; ++i) lead[i] = g.real(-cfg.box, cfg.box);
  auto ts = ladder(g, box);
  g.label(std::string(n.comp.o.cc ? "CC" : n.opts.quadType == mpart::QuadTypes::AdaptiveSimpson ? "AS" : "ACC") + (n.comp.o.expo ? "/exp" : "/softplus") + (n.comp.o.lin ? "/lin" : ""));
  judge(g, n, c, lead, ts, n.map, 0, lead);
  Mat x(dim, ts.size()); for (size_t j = 0; j < ts.size(); ++j) { for (int i = 0; i + 1 < dim; ++i) x(i, j) = double(lead[i]); x(dim - 1, j) = ts[j]; }
  logdets(g, n, c, x, n.map);
}
PBT_PROPERTY(component, 3000) {
  Cfg cfg; cfg.exact = false; cfg.box = g.pick<double>({2, 3}); cfg.K = g.pick<double>({1, 3, 6});
  run(g, cfg, g.range(1, 4), cfg.box, 1);
}
PBT_PROPERTY(large_coefficients, 1500) {
  Cfg cfg; cfg.exact = false; cfg.allowExp = g.chance(1, 3); cfg.box = 2; cfg.K = cfg.allowExp ? 10 : g.pick<double>({20, 100, 300});
  run(g, cfg, g.range(1, 3), 2, 1);
}
PBT_PROPERTY(far_outside_bounds, 1500) {
  Cfg cfg; cfg.exact = false; cfg.lin = 2; cfg.allowExp = false; cfg.box = 4; cfg.K = g.pick<double>({1, 3, 10});
  run(g, cfg, g.range(1, 3), g.pick<double>({10, 60, 300}), 1);
}
PBT_PROPERTY(block_of_triangular, 600) {
  Cfg cfg; cfg.exact = false; cfg.box = 2; int dout = g.range(1, 3), din = dout + g.range(0, 2);
  Node t = genFactory(g, cfg, din, dout); VecX c = setCoeffs(g, t);
  int b = int(g.below(dout)), off = 0; for (int i = 0; i < b; ++i) off += t.kids[i].nc;
  g.note() << t.desc << " block " << b << " coeffs " << str(c);
  g.nontrivial();
  LV full(din, 0); for (auto& v : full) v = g.real(-2, 2);
  judge(g, t.kids[b], c.segment(off, t.kids[b].nc), full, ladder(g, 2), t.map, b, full);
}
PBT_PROPERTY(single_entry_map, 300) {
  Cfg cfg; cfg.exact = false; cfg.box = 2; int d = g.range(2, 4);
  Node t = genSingle(g, cfg, d); VecX c = setCoeffs(g, t); int b = -1, row = 0;
  for (size_t i = 0; i < t.kids.size(); ++i) { if (t.kids[i].kind == "component") { b = int(i); break; } row += t.kids[i].dout; }
  g.note() << t.desc << " coeffs " << str(c);
  g.nontrivial();
  LV full(d, 0); for (auto& v : full) v = g.real(-2, 2);
  judge(g, t.kids[b], c, full, ladder(g, 2), t.map, row, full);
}
PBT_PROPERTY(many_terms, 24) {
  Cfg cfg = bigCfg(g); Built b = bigComponent(g, cfg); g.nontrivial(); int dim = b.n.din;
  LV lead(dim, 0); for (int i = 0; i + 1 < dim; ++i) lead[i] = g.real(-2, 2);
  judge(g, b.n, b.c, lead, ladder(g, 2), b.n.map, 0, lead);
}
