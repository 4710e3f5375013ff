// C06: log-determinant gradients are the derivatives of LogDeterminant.
#include "deriv.hpp"
using namespace mg;

static bool pointOk(G& g, Built& b, LV const& p) {
  bool disc = false; b.n.visit([&](Node const& k) { if (k.kind == "component" && !k.opts.contDeriv) disc = true; });
  ld md = b.n.minDiag(p, b.lc.data());
  if (md > (disc ? 2e-2L : 1e-6L)) return true;
  g.label("nearly singular point skipped"); return false;
}
static void judgeCoeff(G& g, Built& b, Mat const& x, int way, int most) {
  bool ok; double dirt = g.pick<double>({1.0, 3.5e5, -12.5});
  Mat gr = runOpIn(g, *b.n.map, LDCG, x, x, way, &ok, int(g.below(4)), dirt);
  g.check(gr.rows() == b.n.nc && (gr.cols() == x.cols() || b.n.nc == 0), "shape", "LogDeterminantCoeffGrad has the wrong shape");
  auto idx = pickIdx(g, b.n.nc, most);
  for (int j = 0; j < x.cols(); ++j) {
    LV p = col(x, j); if (!pointOk(g, b, p)) continue;
    Der D(g, b, p, true);
    for (int i : idx) {
      LV v, e; D.along(true, true, i, v, e);
      if (!usable(g, e[0], std::fabs(v[0]))) continue;
      ld rel = b.n.anyAdaptive() ? 2e-5L : 1e-8L;
      g.close("LogDeterminantCoeffGrad", gr(i, j), double(v[0]), double(rel * (1 + std::fabs(v[0])) + 20 * e[0]), "coefficient " + std::to_string(i) + " x=" + str(p) + " via " + wayName(way));
    }
  }
}
static void judgeInput(G& g, Built& b, Mat const& x, int way) {
  bool ok; double dirt = g.pick<double>({1.0, 3.5e5, -12.5});
  Mat gr = runOpIn(g, *b.n.map, LDIG, x, x, way, &ok, int(g.below(4)), dirt);
  g.check(gr.rows() == b.n.din && gr.cols() == x.cols(), "shape", "LogDeterminantInputGrad has the wrong shape");
  for (int j = 0; j < x.cols(); ++j) {
    LV p = col(x, j); if (!pointOk(g, b, p)) continue;
    Der D(g, b, p, true);
    for (int i = 0; i < b.n.din; ++i) {
      LV v, e; D.along(true, false, i, v, e);
      if (!usable(g, e[0], std::fabs(v[0]))) continue;
      ld rel = b.n.anyAdaptive() ? 2e-5L : 1e-8L;
      g.close("LogDeterminantInputGrad", gr(i, j), double(v[0]), double(rel * (1 + std::fabs(v[0])) + 20 * e[0]), "input " + std::to_string(i) + " x=" + str(p) + " via " + wayName(way));
    }
  }
}
static void both(G& g, Built& b, Mat const& x, bool input, int most) {
  int w1 = drawWay(g), w2 = drawWay(g);
  if (input && g.coin()) { judgeInput(g, b, x, w2); judgeCoeff(g, b, x, w1, most); return; }
  judgeCoeff(g, b, x, w1, most); if (input) judgeInput(g, b, x, w2);
}
static bool hasComp(Node const& n) { return n.count("component") > 0; }

PBT_PROPERTY(any_map, 800) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.contOnly = g.chance(2, 3); cfg.box = g.pick<double>({2, 3}); cfg.K = g.pick<double>({1, 3});
  cfg.composed = cfg.contOnly;  // (composed maps need the input gradient of their layers, which discrete derivatives do not offer)
  Built b = build(g, cfg, 2, 3, 2);
  Mat x = drawPts(g, b.n.din, g.range(1, 2), cfg.box);
  if (hasComp(b.n)) g.nontrivial();
  both(g, b, x, cfg.contOnly, 16);
}
PBT_PROPERTY(composed_map, 350) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.contOnly = true; cfg.box = 2;
  Built b; b.n = genComposed(g, cfg, g.range(1, 3), 2);
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  Mat x = drawPts(g, b.n.din, g.range(1, 2), 2);
  if (hasComp(b.n)) g.nontrivial();
  both(g, b, x, cfg.contOnly, 14);
}
PBT_PROPERTY(component, 1000) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.contOnly = g.chance(1, 2); cfg.box = g.pick<double>({2, 3}); cfg.K = g.pick<double>({1, 3});
  Built b; b.n = genComponent(g, cfg, g.range(1, 4));
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  Mat x = drawPts(g, b.n.din, g.range(1, 3), cfg.box);
  g.nontrivial();
  both(g, b, x, cfg.contOnly, 30);
}
PBT_PROPERTY(summarized_map, 400) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.contOnly = g.chance(3, 4); cfg.box = 2; cfg.K = 1.5;
  Built b; b.n = genSummarized(g, cfg, g.range(2, 4));
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  Mat x = drawPts(g, b.n.din, g.range(1, 3), 2);
  g.nontrivial();
  both(g, b, x, cfg.contOnly, 16);
}
PBT_PROPERTY(far_outside_bounds, 300) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.lin = 2; cfg.box = 6; cfg.allowExp = false; cfg.contOnly = true;
  Built b; b.n = genComponent(g, cfg, g.range(1, 3));
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  Mat x = drawPts(g, b.n.din, 2, 25);
  g.nontrivial();
  both(g, b, x, true, 20);
}
PBT_PROPERTY(many_terms, 50) {
  Cfg cfg = bigCfg(g); cfg.grad = true; cfg.contOnly = g.chance(2, 3); Built b = bigComponent(g, cfg); Mat x = drawPts(g, b.n.din, 1, 2); g.nontrivial();
  both(g, b, x, cfg.contOnly, 4);
}
