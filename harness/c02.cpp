// C02: Inverse undoes Evaluate for every conditional map.
#include "inv.hpp"
#include "MParT/Utilities/RootFinding.h"
using namespace mg;

static Cfg invCfg(G& g) {
  Cfg cfg; cfg.exact = g.coin(); cfg.box = 2; cfg.K = g.pick<double>({0.7, 1.5}); cfg.ccMin = 12; cfg.cheap = g.coin();
  return cfg;
}
static void judge(G& g, Built& b, Mat const& x1, Mat const& r, Mat const& x2, double quadTol) {
  int extra = b.n.din - b.n.dout;
  for (int j = 0; j < r.cols(); ++j) {
    Mat full(b.n.din, 1); for (int i = 0; i < extra; ++i) full(i, 0) = x1(i, j); for (int i = 0; i < b.n.dout; ++i) full(extra + i, 0) = x2(i, j);
    for (int i = 0; i < b.n.dout; ++i) g.check(std::isfinite(x2(i, j)), "finite", "the inverse is not finite for r=" + str(col(r, j)) + " x1=" + str(col(x1.topRows(extra), j)));
    LV p = col(full, 0);
    Mat y = b.n.map->Evaluate(full);
    double tol = double(3 * resTol(b.n, p, b.lc.data())) + 400 * quadTol * (1 + r.col(j).cwiseAbs().maxCoeff()) * double(1 + (quadTol > 1e-9 ? lip(b.n, p, b.lc.data(), true) : 0));
    for (int i = 0; i < b.n.dout; ++i) g.close("T(x1,Inverse(x1,r)) = r", y(i, 0), r(i, j), tol, "output " + std::to_string(i) + " at [x1;inverse]=" + str(p));
  }
}
/// are the fixed rules still increasing around here? (a coarse rule need not be, and then has no inverse to speak of)
static bool increasing(G& g, Built& b, Mat const& x) {
  for (int j = 0; j < x.cols(); ++j) if (!(b.n.minDiag(col(x, j), b.lc.data()) > 1e-3L)) { g.label("nearly flat"); return false; }
  return true;
}
static double worstQuad(Node const& n) { double t = 0; n.visit([&](Node const& k) { if (k.kind == "component" && k.adaptive) t = std::max(t, k.opts.quadAbsTol + k.opts.quadRelTol); }); return t; }

static void roundTrip(G& g, Built& b, double box) {
  int extra = b.n.din - b.n.dout, n = g.range(1, 3);
  Mat x = drawPts(g, b.n.din, n, box);
  if (!increasing(g, b, x)) g.discard("nearly flat");
  Mat r = b.n.map->Evaluate(x);
  // x1 with or without an initial guess in the trailing rows
  Mat x1 = x.topRows(extra); bool guess = g.coin();
  if (guess) { x1 = x; for (int j = 0; j < n; ++j) for (int i = extra; i < b.n.din; ++i) x1(i, j) = g.chance(1, 5) ? 0 : g.real(-box, box); g.label("initial guess given"); } else if (extra == 0) g.label("no conditioning input, no guess");
  int way = int(g.below(NWAYS)); bool ok;
  Mat x2 = runOpIn(g, *b.n.map, INV, x1, r, way, &ok, int(g.below(4)));
  g.check(x2.rows() == b.n.dout && x2.cols() == n, "shape", "Inverse has the wrong shape");
  judge(g, b, x1, r, x2, worstQuad(b.n));
}
static bool trivialMap(Node const& n) { bool t = true; n.visit([&](Node const& k) { if (k.kind == "component" || k.kind == "affine") t = false; }); return t; }

PBT_PROPERTY(any_map, 2000) {
  Cfg cfg = invCfg(g);
  Built b = build(g, cfg, 2, 3, 2);
  if (!trivialMap(b.n)) g.nontrivial();
  roundTrip(g, b, 2);
}
PBT_PROPERTY(component, 2000) {
  Cfg cfg = invCfg(g); cfg.K = g.pick<double>({0.7, 1.5, 3});
  Built b; b.n = genComponent(g, cfg, g.range(1, 3));
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  g.nontrivial();
  roundTrip(g, b, 2);
}
PBT_PROPERTY(composed_map, 400) {
  Cfg cfg = invCfg(g);
  Built b; b.n = genComposed(g, cfg, g.range(1, 3), 2);
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  if (!trivialMap(b.n)) g.nontrivial();
  roundTrip(g, b, 2);
}
PBT_PROPERTY(arbitrary_output, 1000) {
  // linearised components have every real number in their range
  Cfg cfg; cfg.exact = false; cfg.lin = 2; cfg.allowExp = false; cfg.box = 4; cfg.K = 1; cfg.ccMin = 12; cfg.grad = true;
  int dout = g.range(1, 3), din = dout + g.range(0, 2);
  Built b; b.n = genFactory(g, cfg, din, dout);
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  g.nontrivial();
  int n = g.range(1, 2), extra = din - dout; Mat x1 = drawPts(g, extra, n, 3), r(dout, n);
  double R = g.pick<double>({3, 20}); for (int j = 0; j < n; ++j) for (int i = 0; i < dout; ++i) r(i, j) = g.real(-R, R);
  Mat x2 = runOpIn(g, *b.n.map, INV, x1, r, int(g.below(NWAYS)));
  for (int j = 0; j < n; ++j) {
    // earlier solutions can be so far out that a later block is numerically flat there
    LV p = col(x1, j); p.resize(extra); int off = 0; bool flat = false;
    for (int i = 0; i < dout && !flat; ++i) {
      auto& k = b.n.kids[i]; p.push_back(0);
      for (ld t : {-1e6L, k.comp.o.lb, 0.0L, k.comp.o.ub, 1e6L}) { p.back() = t; flat |= !(pos(k.comp.o, k.comp.df(p, b.lc.data() + off)) + k.comp.o.nugget > 1e-3L); }
      p.back() = x2(i, j); off += k.nc;
    }
    if (flat) { g.label("numerically flat block"); continue; }
    judge(g, b, x1.col(j), r.col(j), x2.col(j), worstQuad(b.n));
  }
}
PBT_PROPERTY(one_conditioning_point_many_outputs, 400) {
  // a component's InverseImpl accepts one point with several outputs
  Cfg cfg = invCfg(g); Built b; b.n = genComponent(g, cfg, g.range(1, 3));
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  g.nontrivial();
  int n = g.range(2, 5), d = b.n.din; Mat x = drawPts(g, d, n, 2);
  for (int j = 1; j < n; ++j) for (int i = 0; i + 1 < d; ++i) x(i, j) = x(i, 0);
  if (!increasing(g, b, x)) g.discard("nearly flat");
  Mat r = b.n.map->Evaluate(x);
  Buf one(x.col(0), int(g.below(EIGEN + 5))), rr(r, int(g.below(5))), out(Mat::Constant(1, n, 77.0), int(g.below(5)));
  b.n.map->InverseImpl(one.cview(), rr.cview(), out.view());
  judge(g, b, x.topRows(d - 1), r, toMat(out.view()), worstQuad(b.n));
}
PBT_PROPERTY(root_finder, 2500) {
  // the bracketing root finder itself on increasing functions of very different shapes
  int kind = int(g.below(7)); double a = g.real(-5, 5), w = std::pow(10.0, g.range(-3, 3)), s = std::pow(10.0, g.range(-3, 4));
  auto f = [&](double x) -> double {
    double t = (x - a) / w;
    switch (kind) {
      case 0: return s * t;
      case 1: return s * t * t * t;
      case 2: return s * std::sinh(std::min(std::max(t, -300.0), 300.0));
      case 3: return s * (std::tanh(t) + 1e-3 * t);
      case 4: return s * std::atan(t) + 1e-4 * x;
      case 5: return t < 0 ? 1e-3 * t : s * t;
      default: return s * std::cbrt(t);
    }
  };
  double root = a + w * g.real(-4, 4), yd = f(root), x0 = g.coin() ? 0 : g.real(-20, 20);
  double xtol = std::pow(10.0, -g.range(1, 10)), ftol = std::pow(10.0, -g.range(1, 10));
  static const char* nm[] = {"linear", "cubic", "sinh", "tanh", "atan", "kink", "cbrt"};
  g.note() << nm[kind] << " a=" << a << " w=" << w << " s=" << s << " root=" << root << " x0=" << x0 << " xtol=" << xtol << " ftol=" << ftol; g.label(nm[kind]);
  g.nontrivial();
  int info = 5; double x = mpart::RootFinding::InverseSingleBracket<HS>(yd, f, x0, xtol, ftol, info);
  if (info == -2) { // may only be given up on when the function is flat where the search looks
    double far = 0; for (double h = 1; h < 1e9; h *= 2) { double u = std::fabs(f(x0 + h) - f(x0)) / h, v = std::fabs(f(x0) - f(x0 - h)) / h; if (h >= 8 && (u < 1e-11 || v < 1e-11)) far = h; }
    if (far == 0) g.fail("bracket", "no bracket found for an increasing function"); g.discard("flat");
  }
  g.check(std::isfinite(x), "finite", "root is not finite");
  double slack = xtol * 1.01 + 4e-16 * std::fabs(x);
  bool near = std::fabs(f(x) - yd) <= ftol * 1.01 + 1e-15 * std::fabs(yd), brack = f(x - slack) <= yd && yd <= f(x + slack);
  // a bracket whose ends differ by less than ftol also ends the search
  g.check(near || brack, "root", "x=" + num(x) + " f(x)-yd=" + num(f(x) - yd) + " distance to the root " + num(x - root));
}
PBT_PROPERTY(many_terms, 40) {
  Cfg cfg = bigCfg(g); Built b = bigComponent(g, cfg); g.nontrivial();
  roundTrip(g, b, 2);
}
