// C07: a component built by the factory equals its defining formula.
#include "mapgen.hpp"
using namespace mg;

static double evalTol(Node const& n, ref::Comp::Out const& r, double tolScale) {
  return (n.adaptive ? 400 * (n.opts.quadAbsTol + n.opts.quadRelTol * std::fabs(double(r.integral))) : 0) + 2e-13 * tolScale * (1 + double(r.mag));
}
/// an adaptive error estimate can vanish by coincidence when the integrand has kinks: a mismatch counts only if it persists nearby
static bool coincidence(G& g, Node const& n, ld const* c, Mat const& x, int j, double got, double tolScale) {
  auto ok = [&](double v, LV const& p) { auto q = n.comp.eval(p, c); return std::fabs(v - double(q.v)) <= evalTol(n, q, tolScale); };
  LV p = col(x, j); p.resize(n.din);
  if (ok(got, p)) return false;
  Mat z(n.din, 6); for (int k = 0; k < 6; ++k) { z.col(k) = x.col(j).head(n.din); z(n.din - 1, k) *= 1 + 0.017 * (k - 2.5); }
  Mat yz = n.map->Evaluate(z); int bad = 0;
  for (int k = 0; k < 6; ++k) bad += !ok(yz(0, k), col(z, k));
  g.label("coincidental convergence re-examined");
  return bad < 4;
}
static void compare(G& g, Node const& n, VecX const& c, Mat const& x, double tolScale) {
  LV lc = lv(c);
  Mat y = n.map->Evaluate(x);
  VecX ld_ = n.map->LogDeterminant(x);
  g.check(y.rows() == 1 && y.cols() == x.cols() && ld_.size() == x.cols(), "shape", "wrong output shape");
  for (int j = 0; j < x.cols(); ++j) {
    LV p = col(x, j);
    auto r = n.comp.eval(p, lc.data());
    if (n.adaptive && n.comp.o.lin && coincidence(g, n, lc.data(), x, j, y(0, j), tolScale)) continue;
    g.close("Evaluate", y(0, j), double(r.v), evalTol(n, r, tolScale), "x=" + str(p));
    ld d = n.comp.diag(p, lc.data());
    if (n.opts.contDeriv) {
      ld dfv = n.comp.df(p, lc.data());
      if (dfv < -600) continue;  // g underflows there
      g.close("LogDeterminant", ld_(j), double(std::log(d)), 1e-12 * tolScale * (1 + double(n.comp.dfMag(p, lc.data()))), "x=" + str(p));
    } else if (d > 1e-4L && !(n.adaptive && n.comp.o.lin)) {  // (the discrete derivative integrates a jump at the bounds there)
      double q2 = n.adaptive ? 4e3 * (n.opts.quadAbsTol + n.opts.quadRelTol * double(d)) * (1 + std::fabs(double(p.back()))) : 0;
      g.close("LogDeterminant(discrete)", ld_(j), double(std::log(d)), 1e-11 * tolScale * (1 + double(r.mag) / double(d)) + q2 / double(d), "x=" + str(p));
    }
  }
}

PBT_PROPERTY(factory_component, 6000) {
  Cfg cfg; cfg.exact = false; cfg.box = g.pick<double>({2, 3, 4}); cfg.K = g.pick<double>({1, 3, 6});
  int dim = g.range(1, 4);
  Node n = genComponent(g, cfg, dim);
  VecX c = setCoeffs(g, n);
  g.note() << n.desc << " coeffs " << str(c);
  g.label(optDesc(n.opts).substr(0, 4) + (n.comp.o.lin ? "/lin" : "") + (n.comp.o.expo ? "/exp" : "/softplus") + (n.comp.o.cc ? "/CC" : n.opts.quadType == mpart::QuadTypes::AdaptiveSimpson ? "/AS" : "/ACC") + (n.opts.contDeriv ? "/cont" : "/disc"));
  bool dep = false; for (size_t i = 0; i < n.comp.m.size(); ++i) if (c(i) != 0 && n.comp.m[i][dim - 1] > 0) dep = true;
  if (dep) g.nontrivial();
  Mat x = drawPts(g, dim, g.range(1, 5), cfg.box);
  compare(g, n, c, x, 1);
}
PBT_PROPERTY(far_linearised, 2500) {
  // linearised bases keep the component defined far outside the bounds
  Cfg cfg; cfg.exact = false; cfg.allowExp = false; cfg.box = 6; cfg.lin = 2;
  int dim = g.range(1, 2);
  Node n = genComponent(g, cfg, dim);
  VecX c = setCoeffs(g, n);
  g.note() << n.desc << " coeffs " << str(c);
  g.nontrivial();
  Mat x = drawPts(g, dim, 3, 30);
  compare(g, n, c, x, 100);
}
PBT_PROPERTY(factory_triangular, 800) {
  Cfg cfg; cfg.exact = false; cfg.box = 2;
  int dout = g.range(1, 3), din = dout + g.range(0, 2);
  Node n = genFactory(g, cfg, din, dout);
  VecX c = setCoeffs(g, n);
  g.note() << n.desc << " coeffs " << str(c);
  g.check(int(n.map->numCoeffs) == n.nc && int(n.map->inputDim) == din && int(n.map->outputDim) == dout, "dims", "dimensions");
  if (c.size() && c.cwiseAbs().maxCoeff() > 0) g.nontrivial();
  Mat x = drawPts(g, din, 2, cfg.box);
  Mat y = n.map->Evaluate(x);
  LV lc = lv(c);
  for (int j = 0; j < 2; ++j) { int off = 0;
    for (int i = 0; i < dout; ++i) { auto& k = n.kids[i]; LV p = col(x, j); p.resize(k.din); auto r = k.comp.eval(p, lc.data() + off); off += k.nc;
      
      if (k.adaptive && k.comp.o.lin && coincidence(g, k, lc.data() + off - k.nc, x, j, y(i, j), 1)) continue;
      g.close("block", y(i, j), double(r.v), evalTol(k, r, 1), "block " + std::to_string(i) + " x=" + str(p)); } }
}
PBT_PROPERTY(many_terms, 20) {
  // hundreds of terms in tens of dimensions
  Cfg cfg = bigCfg(g, 700); Built b = bigComponent(g, cfg); g.nontrivial();
  compare(g, b.n, b.c, drawPts(g, b.n.din, 2, 2), 4);
}
