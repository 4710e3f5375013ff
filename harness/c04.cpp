// C04: Gradient(x,s) = J(x)^T s for every map and parameterized function.
#include "MParT/Sigmoid.h"
#include "deriv.hpp"
using namespace mg;

static void judge(G& g, Built& b, Mat const& x, Mat const& s, int way) {
  bool ok; Mat gr = runOpIn(g, *b.n.map, GRAD, x, s, way, &ok, int(g.below(4)));
  g.check(gr.rows() == b.n.din && gr.cols() == x.cols(), "shape", "Gradient has the wrong shape");
  for (int j = 0; j < x.cols(); ++j) {
    LV p = col(x, j); Der D(g, b, p, false);
    for (int i = 0; i < b.n.din; ++i) {
      LV v, e; D.along(false, false, i, v, e);
      ld want = 0, err = 0, mag = 0; for (int k = 0; k < b.n.dout; ++k) { want += v[k] * s(k, j); err += e[k] * std::fabs(s(k, j)); mag += std::fabs(v[k] * s(k, j)); }
      if (!usable(g, err, mag)) continue;
      ld rel = b.n.anyAdaptive() ? 1e-5L : 1e-8L;
      g.close("Gradient", gr(i, j), double(want), double(rel * (1 + mag) + 20 * err), "input " + std::to_string(i) + " x=" + str(p) + " s=" + str(col(s, j)) + " via " + wayName(way));
    }
  }
}
static Mat drawSens(G& g, int r, int n) { Mat s(r, n); for (int j = 0; j < n; ++j) { bool one = g.chance(1, 4); int k = int(g.below(r)); for (int i = 0; i < r; ++i) s(i, j) = one ? (i == k) : g.real(-2, 2); } return s; }
static bool trivialMap(Node const& n) { bool t = true; n.visit([&](Node const& k) { if (k.kind == "component" || k.kind == "affine") t = false; }); return t; }

PBT_PROPERTY(any_map, 1500) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.box = g.pick<double>({2, 3}); cfg.K = g.pick<double>({1, 3});
  Built b = build(g, cfg, 2, 3, 2);
  int n = g.range(1, 3);
  Mat x = drawPts(g, b.n.din, n, cfg.box), s = drawSens(g, b.n.dout, n);
  if (!trivialMap(b.n) && maxAbs(s) > 0) g.nontrivial();
  judge(g, b, x, s, drawWay(g));
}
PBT_PROPERTY(composed_map, 700) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.box = 2;
  Built b; b.n = genComposed(g, cfg, g.range(1, 3), 2);
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  int n = g.range(1, 3);
  Mat x = drawPts(g, b.n.din, n, 2), s = drawSens(g, b.n.dout, n);
  if (!trivialMap(b.n) && maxAbs(s) > 0) g.nontrivial();
  judge(g, b, x, s, drawWay(g));
}
PBT_PROPERTY(component, 1500) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.box = g.pick<double>({2, 3}); cfg.K = g.pick<double>({1, 3});
  Built b; b.n = genComponent(g, cfg, g.range(1, 4));
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  int n = g.range(1, 3);
  Mat x = drawPts(g, b.n.din, n, cfg.box), s = drawSens(g, 1, n);
  if (maxAbs(s) > 0 && b.c.cwiseAbs().maxCoeff() > 0) g.nontrivial();
  judge(g, b, x, s, drawWay(g));
}
PBT_PROPERTY(far_outside_bounds, 500) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.lin = 2; cfg.box = 6; cfg.allowExp = false;
  Built b; b.n = genComponent(g, cfg, g.range(1, 3));
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  Mat x = drawPts(g, b.n.din, 2, 25), s = drawSens(g, 1, 2);
  g.nontrivial();
  judge(g, b, x, s, drawWay(g));
}
PBT_PROPERTY(linear_in_sensitivity, 600) {
  Cfg cfg; cfg.exact = false; cfg.box = 2;
  Built b = build(g, cfg, 2, 3, 2);
  int n = g.range(1, 3);
  Mat x = drawPts(g, b.n.din, n, 2), s = drawSens(g, b.n.dout, n), t = drawSens(g, b.n.dout, n);
  double u = g.real(-3, 3);
  if (!trivialMap(b.n)) g.nontrivial();
  Mat a = runOp(*b.n.map, GRAD, x, s), c = runOp(*b.n.map, GRAD, x, t), e = runOp(*b.n.map, GRAD, x, s + u * t);
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < n; ++j) {
    double m = std::fabs(a(i, j)) + std::fabs(u * c(i, j));
    // rounding is relative to the sizes of all entries of the same point
    double scale = a.col(j).cwiseAbs().maxCoeff() + std::fabs(u) * c.col(j).cwiseAbs().maxCoeff() + m + 1;
    g.close("linearity", e(i, j), a(i, j) + u * c(i, j), 1e-9 * scale, "");
  }
}
PBT_PROPERTY(expansion_and_affine_functions, 900) {
  int din = g.range(1, 4), dout = g.range(1, 3), n = g.range(1, 3);
  std::shared_ptr<PFB> f; ref::Expansion ex; VecX c; Mat A; bool aff = g.chance(1, 4), hasB = g.coin();
  Cfg cfg;
  if (aff) {
    dout = std::min(dout, din); A.resize(dout, din); for (int i = 0; i < dout; ++i) for (int j = 0; j < din; ++j) A(i, j) = g.real(-2, 2);
    VecX bv = drawVec(g, dout);
    if (hasB) f = std::make_shared<mpart::AffineFunction<HS>>(view(g, A), view(bv)); else f = std::make_shared<mpart::AffineFunction<HS>>(view(g, A));
    g.note() << "affine function " << din << "->" << dout;
  } else {
    auto o = drawOpts(g, cfg); auto ms = drawMSet(g, din, orderFor(g, din, false));
    f = mpart::MapFactory::CreateExpansion<HS>(dout, ms.fixed, o);
    ex.o = refOpts(o); ex.m = ms.idx; ex.dim = din; ex.out = dout;
    c = drawVec(g, dout * int(ms.idx.size())); VecX w = c; f->SetCoeffs(Eigen::Ref<VecX>(w));
    g.note() << "expansion " << din << "->" << dout << " " << optDesc(o) << " " << ms.desc << " coeffs " << str(c);
  }
  g.nontrivial();
  Mat x = drawPts(g, din, n, 3), s = drawSens(g, dout, n);
  Mat gr = f->Gradient(x, s); LV lc = lv(c);
  g.check(gr.rows() == din && gr.cols() == n, "shape", "Gradient shape");
  for (int j = 0; j < n; ++j) for (int i = 0; i < din; ++i) {
    ld v = 0, e = 0;
    if (aff) { for (int k = 0; k < dout; ++k) v += ld(A(k, i)) * s(k, j); }
    else { LV p = col(x, j); auto F = [&](ld h) { LV q = p; q[i] += h; LV y = ex.eval(q, lc.data()); ld t = 0; for (int k = 0; k < dout; ++k) t += y[k] * s(k, j); return t; }; ref::deriv(F, 0.02L, v, e); }
    if (!usable(g, e, std::fabs(v))) continue;
    ld mag = 1; if (!aff) { LV m; ex.eval(col(x, j), lc.data(), &m); for (int k = 0; k < dout; ++k) mag += m[k] * std::fabs(s(k, j)); }
    g.close("function Gradient", gr(i, j), double(v), double(1e-9L * mag + 20 * e), "input " + std::to_string(i) + " x=" + str(col(x, j)));
  }
}
PBT_PROPERTY(sigmoid_sums, 400) {
  // (judged with the argument order this class has, see the known finding)
  typedef Kokkos::HostSpace HSp; int n = g.chance(1, 10) ? g.range(13, 300) : g.range(1, 12), N = g.range(1, 9); Kokkos::View<double*, HSp> cen("c", n), wid("w", n), co("co", n);
  for (int i = 0; i < n; ++i) { cen(i) = g.real(-4, 4); wid(i) = g.real(-6, 6); co(i) = g.real(-3, 3); }
  mpart::Sigmoid1d<HSp, mpart::Logistic> f{mpart::StridedVector<const double, HSp>(cen), mpart::StridedVector<const double, HSp>(wid)}; f.SetCoeffs(Kokkos::View<const double*, HSp>(co));
  Mat x = drawPts(g, 1, N, 8), s = drawSens(g, 1, N); if (n > 1) g.nontrivial(); g.note() << "sum of " << n << " sigmoids at " << str(col(x.transpose(), 0)); ld amax = 1; for (int i = 0; i < n; ++i) amax += std::fabs(co(i)) * (1 + std::fabs(wid(i)) * 30);
  Buf bx(x, int(g.range(0, 4))), bs(s, int(g.range(0, 4))), bo(Mat::Constant(1, N, 7e5), int(g.range(1, 4))); Mat r; bool impl = g.coin();
  if (impl) { auto o = bo.view(); f.GradientImpl(bs.cview(), bx.cview(), o); r = toMat(o); g.check(bo.padIntact(), "writes", "wrote outside the result"); } else { auto vs = bs.cview(), vx = bx.cview(); r = toMat(f.Gradient(vs, vx)); }
  g.check(bx.intact() && bs.intact(), "writes", "inputs changed"); g.check(r.rows() == 1 && r.cols() == N, "shape", "wrong result shape");
  for (int j = 0; j < N; ++j) { ld d = 0; for (int i = 0; i < n; ++i) { ld u = ld(wid(i)) * (ld(x(0, j)) - cen(i)); d += ld(co(i)) * wid(i) * ref::logistic(u) * ref::logistic(-u); } g.close("Gradient", r(0, j), double(s(0, j) * d), double(6e-14L * amax * (1 + std::fabs(s(0, j)))), "Sigmoid1d"); }
}
PBT_PROPERTY(sigmoid_gradient_arguments, 0) {
  // a known finding, only replayed: Sigmoid1d takes the sensitivities first, unlike every other function
  typedef Kokkos::HostSpace HSp; Kokkos::View<double*, HSp> cen("c", 1), wid("w", 1), co("co", 1); cen(0) = 0.5; wid(0) = 1.5; co(0) = 2;
  mpart::Sigmoid1d<HSp, mpart::Logistic> sig{mpart::StridedVector<const double, HSp>(cen), mpart::StridedVector<const double, HSp>(wid)}; sig.SetCoeffs(Kokkos::View<const double*, HSp>(co)); mpart::ParameterizedFunctionBase<HSp>& f = sig;
  Mat x(1, 1), s(1, 1); x(0, 0) = 0.25; s(0, 0) = -1.5; ld u = 1.5L * (0.25L - 0.5L), v = ref::logistic(u); g.note() << "sum of one sigmoid, f.Gradient(x, s) with x=0.25 s=-1.5"; g.nontrivial();
  Mat r = f.Gradient(x, s); g.close("Gradient", r(0, 0), double(-1.5L * 2 * 1.5L * v * ref::logistic(-u)), 1e-12, "Sigmoid1d");
}
PBT_PROPERTY(many_terms, 30) {
  Cfg cfg = bigCfg(g); cfg.grad = true; Built b = bigComponent(g, cfg); Mat x = drawPts(g, b.n.din, 1, 2), s = drawSens(g, 1, 1); if (maxAbs(s) > 0) g.nontrivial();
  judge(g, b, x, s, drawWay(g));
}
