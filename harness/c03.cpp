// C03: LogDeterminant is log|det| of the Jacobian of Evaluate with respect to the trailing inputs.
#include "deriv.hpp"
using namespace mg;

static void judge(G& g, Built& b, Mat const& x, int way) {
  int d = b.n.dout;
  bool ok; Mat ldv = runOpIn(g, *b.n.map, LDET, x, x, way, &ok, int(g.below(4)));
  g.check(ldv.cols() == x.cols(), "shape", "LogDeterminant has the wrong length");
  for (int j = 0; j < x.cols(); ++j) {
    LV p = col(x, j);
    ld md = b.n.minDiag(p, b.lc.data());
    if (!(md > 1e-5L)) { g.label("nearly singular point skipped"); continue; }
    Der D(g, b, p, false);
    Eigen::Matrix<ld, -1, -1> J(d, d), E(d, d); bool use = true;
    for (int k = 0; k < d; ++k) { LV v, e; D.along(false, false, b.n.din - d + k, v, e); for (int i = 0; i < d; ++i) { J(i, k) = v[i]; E(i, k) = e[i]; use = use && usable(g, e[i], std::fabs(v[i])); } }
    if (!use) continue;
    ld det = std::fabs(J.determinant()); ld want = std::log(det);
    ld cond = J.inverse().cwiseAbs().rowwise().sum().maxCoeff() * (E.cwiseAbs().maxCoeff() * 10 + 1e-9L * (1 + J.cwiseAbs().maxCoeff()));
    if (!(cond < 1e-3L)) { g.label("ill-conditioned point skipped"); continue; }
    g.close("LogDeterminant", ldv(0, j), double(want), double(1e-8L + 4 * d * cond), "x=" + str(p) + " via " + wayName(way));
  }
}
static bool trivialMap(Node const& n) { bool t = true; n.visit([&](Node const& k) { if (k.kind == "component" || k.kind == "affine") t = false; }); return t; }

PBT_PROPERTY(any_map, 2200) {
  Cfg cfg; cfg.box = g.pick<double>({2, 3}); cfg.K = g.pick<double>({1, 3});
  Built b = build(g, cfg, 2, 3, 2);
  if (!trivialMap(b.n)) g.nontrivial();
  Mat x = drawPts(g, b.n.din, g.range(1, 3), cfg.box);
  judge(g, b, x, drawWay(g));
}
PBT_PROPERTY(composed_map, 700) {
  Cfg cfg; cfg.box = 2;
  Built b; b.n = genComposed(g, cfg, g.range(1, 3), 2);
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  if (!trivialMap(b.n)) g.nontrivial();
  Mat x = drawPts(g, b.n.din, g.range(1, 3), 2);
  judge(g, b, x, drawWay(g));
}
PBT_PROPERTY(far_outside_bounds, 900) {
  Cfg cfg; cfg.box = 6; cfg.lin = 2; cfg.allowExp = false; cfg.K = g.pick<double>({1, 3});
  cfg.composed = cfg.summarized = false;
  Built b = build(g, cfg, 1, 2, 1);
  if (!trivialMap(b.n)) g.nontrivial();
  Mat x = drawPts(g, b.n.din, 2, 25);
  judge(g, b, x, drawWay(g));
}
PBT_PROPERTY(clenshaw_curtis_continuous, 900) {
  // a fixed rule with the continuous derivative: compared where the rule is accurate
  Cfg cfg; cfg.exact = false; cfg.contOnly = true; cfg.box = 1.5; cfg.K = 1; cfg.lin = 1; cfg.cheap = true;
  cfg.affine = cfg.identity = cfg.composed = cfg.summarized = false;
  int dout = g.range(1, 2), din = dout + g.range(0, 2);
  Built b; b.n = g.coin() ? genFactory(g, cfg, din, dout) : genComponent(g, cfg, din);
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  Mat x = drawPts(g, b.n.din, 2, 1.5);
  // the same map with exact integrals as the reference
  ld worst = 0; int off = 0;
  auto each = [&](Node& k) { for (int j = 0; j < x.cols(); ++j) { LV p = col(x, j); p.resize(k.din); worst = std::max(worst, k.comp.quadError(p, b.lc.data() + off)); p.back() *= 1.05L; worst = std::max(worst, k.comp.quadError(p, b.lc.data() + off)); } k.comp.o.cc = 0; off += k.nc; };
  if (b.n.kind == "component") each(b.n); else for (auto& k : b.n.kids) each(k);
  if (worst > 1e-9L) g.discard("rule not accurate enough here");
  g.nontrivial();
  judge(g, b, x, drawWay(g));
}
PBT_PROPERTY(steep_and_flat, 900) {
  // diagonal derivatives over hundreds of orders of magnitude (continuous derivative option): log of the defining formula
  Cfg cfg; cfg.exact = g.coin(); cfg.contOnly = true; cfg.box = 2; cfg.allowExp = g.chance(1, 3); cfg.K = g.pick<double>({5, 20, 60, 300});
  cfg.affine = cfg.identity = cfg.composed = cfg.summarized = false; cfg.cheap = true;
  int dout = g.range(1, 3), din = dout + g.range(0, 2);
  Built b; b.n = dout > 1 ? genFactory(g, cfg, din, dout) : genComponent(g, cfg, din);
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c);
  Mat x = drawPts(g, b.n.din, g.range(1, 3), 2);
  int o = 0;
  auto scale = [&](Node& k) { LV p = col(x, 0); p.resize(k.din); ld df = k.comp.df(p, b.lc.data() + o), t = -g.pick<ld>({1, 10, 40, 200, 600}) * g.unit(); if (std::fabs(df) > 1e-3L) for (int i = 0; i < k.nc; ++i) b.c[o + i] *= double(t / df); o += k.nc; };
  if (b.n.kind == "component") scale(b.n); else for (auto& k : b.n.kids) scale(k);
  { Kokkos::View<double*, HS> v("c", b.c.size()); for (int i = 0; i < b.c.size(); ++i) v(i) = b.c(i); Kokkos::View<const double*, HS> cv(v); b.n.map->SetCoeffs(cv); }
  b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  int way = drawWay(g);
  Mat got = runOpIn(g, *b.n.map, LDET, x, x, way, nullptr, int(g.below(4)));
  for (int j = 0; j < x.cols(); ++j) {
    ld want = 0, tol = 1e-11L; int off = 0; bool under = false;
    auto each = [&](Node& k) {
      LV p = col(x, j); p.resize(k.din);
      ld d = k.comp.diag(p, b.lc.data() + off), mag = k.comp.dfMag(p, b.lc.data() + off);
      under = under || !(d > 1e-290L && d < 1e290L); want += std::log(d); tol += 1e-12L * (1 + mag) + 1e-14L * std::fabs(std::log(d)); off += k.nc;
    };
    if (b.n.kind == "component") each(b.n); else for (auto& k : b.n.kids) each(k);
    if (under) { g.label("underflowing point skipped"); continue; }
    if (want < -12) g.nontrivial();
    g.close("LogDeterminant-formula", got(0, j), double(want), double(tol), "x=" + str(col(x, j)) + " via " + wayName(way));
  }
}
PBT_PROPERTY(many_terms, 60) {
  Cfg cfg = bigCfg(g); cfg.contOnly = false; Built b = bigComponent(g, cfg); g.nontrivial();
  // the reference's own slope: of the exact integrand, or of the rule, as the component uses
  Mat x = drawPts(g, b.n.din, g.range(1, 3), 2); Mat l = runOpIn(g, *b.n.map, LDET, x, x, drawWay(g), nullptr, int(g.below(4)));
  for (int j = 0; j < x.cols(); ++j) { LV p = col(x, j); ld want = b.n.refLogDet(p, b.lc.data()); if (std::exp(want) > 1e-6L) g.close("LogDeterminant", l(0, j), double(want), 1e-8, "x=" + str(p)); }
}
