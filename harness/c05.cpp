// C05: CoeffGrad(x,s) is the derivative of s.Evaluate(x) with respect to each coefficient, in storage order.
#include "MParT/Sigmoid.h"
#include "deriv.hpp"
using namespace mg;

static Mat drawSens(G& g, int r, int n) { Mat s(r, n); for (int j = 0; j < n; ++j) { bool one = g.chance(1, 4); int k = int(g.below(r)); for (int i = 0; i < r; ++i) s(i, j) = one ? (i == k) : g.real(-2, 2); } return s; }

static void judge(G& g, Built& b, Mat const& x, Mat const& s, int way, int most) {
  bool ok; Mat gr = runOpIn(g, *b.n.map, CGRAD, x, s, way, &ok, int(g.below(4)));
  g.check(gr.rows() == b.n.nc && (gr.cols() == x.cols() || b.n.nc == 0), "shape", "CoeffGrad has the wrong shape");
  auto idx = pickIdx(g, b.n.nc, most);
  for (int j = 0; j < x.cols(); ++j) {
    LV p = col(x, j); Der D(g, b, p, false);
    for (int i : idx) {
      LV v, e; D.along(false, true, i, v, e);
      ld want = 0, err = 0, mag = 0; for (int k = 0; k < b.n.dout; ++k) { want += v[k] * s(k, j); err += e[k] * std::fabs(s(k, j)); mag += std::fabs(v[k] * s(k, j)); }
      if (!usable(g, err, mag)) continue;
      ld rel = b.n.anyAdaptive() ? 1e-5L : 1e-8L;
      g.close("CoeffGrad", gr(i, j), double(want), double(rel * (1 + mag) + 20 * err), "coefficient " + std::to_string(i) + " x=" + str(p) + " s=" + str(col(s, j)) + " via " + wayName(way));
    }
  }
}
PBT_PROPERTY(any_map, 900) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.box = g.pick<double>({2, 3}); cfg.K = g.pick<double>({1, 3});
  Built b = build(g, cfg, 2, 3, 2);
  int n = g.range(1, 2);
  Mat x = drawPts(g, b.n.din, n, cfg.box), s = drawSens(g, b.n.dout, n);
  if (b.n.nc > 0 && maxAbs(s) > 0) g.nontrivial();
  judge(g, b, x, s, drawWay(g), 24);
}
PBT_PROPERTY(composed_map, 400) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.box = 2;
  Built b; b.n = genComposed(g, cfg, g.range(1, 3), 2);
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  int n = g.range(1, 2);
  Mat x = drawPts(g, b.n.din, n, 2), s = drawSens(g, b.n.dout, n);
  if (b.n.nc > 0 && maxAbs(s) > 0) g.nontrivial();
  judge(g, b, x, s, drawWay(g), 20);
}
PBT_PROPERTY(component, 1200) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.box = g.pick<double>({2, 3}); cfg.K = g.pick<double>({1, 3});
  Built b; b.n = genComponent(g, cfg, g.range(1, 4));
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  int n = g.range(1, 3);
  Mat x = drawPts(g, b.n.din, n, cfg.box), s = drawSens(g, 1, n);
  if (maxAbs(s) > 0) g.nontrivial();
  judge(g, b, x, s, drawWay(g), 40);
}
PBT_PROPERTY(far_outside_bounds, 400) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.lin = 2; cfg.box = 6; cfg.allowExp = false;
  Built b; b.n = genComponent(g, cfg, g.range(1, 3));
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c); g.note() << b.n.desc << " coeffs " << str(b.c);
  Mat x = drawPts(g, b.n.din, 2, 25), s = drawSens(g, 1, 2);
  g.nontrivial();
  judge(g, b, x, s, drawWay(g), 20);
}
PBT_PROPERTY(expansion, 700) {
  // linear in the coefficients: the gradient is s_k times the basis products, exactly
  int din = g.range(1, 4), dout = g.range(1, 4), n = g.range(1, 3); Cfg cfg;
  auto o = drawOpts(g, cfg); auto ms = drawMSet(g, din, orderFor(g, din, false)); int N = int(ms.idx.size());
  auto f = mpart::MapFactory::CreateExpansion<HS>(dout, ms.fixed, o);
  ref::Expansion ex; ex.o = refOpts(o); ex.m = ms.idx; ex.dim = din; ex.out = 1;
  VecX c = drawVec(g, dout * N); VecX w = c; f->SetCoeffs(Eigen::Ref<VecX>(w));
  g.note() << "expansion " << din << "->" << dout << " " << optDesc(o) << " " << ms.desc << " coeffs " << str(c);
  g.nontrivial();
  Mat x = drawPts(g, din, n, 4), s = drawSens(g, dout, n);
  Mat gr = f->CoeffGrad(x, s);
  g.check(gr.rows() == dout * N && gr.cols() == n, "shape", "CoeffGrad shape");
  for (int j = 0; j < n; ++j) for (int i = 0; i < N; ++i) {
    LV e(N, 0); e[i] = 1; LV m; ld v = ex.eval(col(x, j), e.data(), &m)[0];
    for (int k = 0; k < dout; ++k) g.close("expansion CoeffGrad", gr(k * N + i, j), double(v * s(k, j)), 1e-12 * (1 + double(m[0])) * (1 + std::fabs(s(k, j))), "output " + std::to_string(k) + " term " + std::to_string(i) + " x=" + str(col(x, j)));
  }
}
PBT_PROPERTY(no_coefficients, 300) {
  int din = g.range(1, 4), dout = g.range(1, din), n = g.range(1, 4); Cfg cfg;
  Node k; g.nontrivial();
  switch (g.below(4)) {
    case 0: k = genAffine(g, cfg, din, dout); break;
    case 1: k = genIdentity(din, dout); break;
    case 2: { k = genAffine(g, cfg, din, din); Node j = genIdentity(din, din); std::vector<std::shared_ptr<CMB>> v{k.map, j.map}; k.map = std::make_shared<mpart::ComposedMap<HS>>(v, false, g.range(-1, 2)); k.dout = din; k.desc = "composed " + k.desc; break; }
    default: { Node j = genIdentity(din, din); k = genAffine(g, cfg, din + 1, 1); std::vector<std::shared_ptr<CMB>> v{j.map, k.map}; k.map = std::make_shared<mpart::TriangularMap<HS>>(v); k.din = din + 1; k.dout = din + 1; k.desc = "triangular " + k.desc; }
  }
  g.note() << k.desc;
  Mat x = drawPts(g, k.din, n, 3), s = drawSens(g, k.dout, n);
  g.check(k.map->numCoeffs == 0, "numCoeffs", "a map without coefficients reports some");
  Mat r = runOpIn(g, *k.map, CGRAD, x, s, int(g.below(IMPL)));
  g.check(r.size() == 0, "empty", "CoeffGrad of a map without coefficients is not empty");
}

PBT_PROPERTY(sigmoid_sums, 400) {
  // (judged with the argument order this class has, see the known finding)
  typedef Kokkos::HostSpace HSp; int n = g.chance(1, 10) ? g.range(13, 300) : g.range(1, 12), N = g.range(1, 9); Kokkos::View<double*, HSp> cen("c", n), wid("w", n), co("co", n);
  for (int i = 0; i < n; ++i) { cen(i) = g.real(-4, 4); wid(i) = g.real(-6, 6); co(i) = g.real(-3, 3); }
  mpart::Sigmoid1d<HSp, mpart::Logistic> f{mpart::StridedVector<const double, HSp>(cen), mpart::StridedVector<const double, HSp>(wid)}; f.SetCoeffs(Kokkos::View<const double*, HSp>(co));
  Mat x = drawPts(g, 1, N, 8), s = drawSens(g, 1, N); if (n > 1) g.nontrivial(); g.note() << "sum of " << n << " sigmoids at " << str(col(x.transpose(), 0)); ld amax = 1; for (int i = 0; i < n; ++i) amax += std::fabs(co(i)) * (1 + std::fabs(wid(i)) * 30);
  Buf bx(x, int(g.range(0, 4))), bs(s, int(g.range(0, 4))), bo(Mat::Constant(n, N, 7e5), int(g.range(1, 4))); Mat r; bool impl = g.coin();
  if (impl) { auto o = bo.view(); f.CoeffGradImpl(bs.cview(), bx.cview(), o); r = toMat(o); g.check(bo.padIntact(), "writes", "wrote outside the result"); } else { auto vs = bs.cview(), vx = bx.cview(); r = toMat(f.CoeffGrad(vs, vx)); }
  g.check(bx.intact() && bs.intact(), "writes", "inputs changed"); g.check(r.rows() == n && r.cols() == N, "shape", "wrong result shape");
  for (int j = 0; j < N; ++j) for (int i = 0; i < n; ++i) { ld u = ld(wid(i)) * (ld(x(0, j)) - cen(i)); g.close("CoeffGrad", r(i, j), double(s(0, j) * ref::logistic(u)), double(3e-14L * (1 + std::fabs(s(0, j))) * (1 + std::fabs(wid(i)))), "Sigmoid1d coefficient " + std::to_string(i)); }
}
PBT_PROPERTY(sigmoid_coeff_grad_arguments, 0) {
  // a known finding, only replayed: Sigmoid1d takes the sensitivities first, unlike every other function
  typedef Kokkos::HostSpace HSp; Kokkos::View<double*, HSp> cen("c", 1), wid("w", 1), co("co", 1); cen(0) = 0.5; wid(0) = 1.5; co(0) = 2;
  mpart::Sigmoid1d<HSp, mpart::Logistic> sig{mpart::StridedVector<const double, HSp>(cen), mpart::StridedVector<const double, HSp>(wid)}; sig.SetCoeffs(Kokkos::View<const double*, HSp>(co)); mpart::ParameterizedFunctionBase<HSp>& f = sig;
  Mat x(1, 1), s(1, 1); x(0, 0) = 0.25; s(0, 0) = -1.5; ld u = 1.5L * (0.25L - 0.5L), v = ref::logistic(u); g.note() << "sum of one sigmoid, f.CoeffGrad(x, s) with x=0.25 s=-1.5"; g.nontrivial();
  Mat r = f.CoeffGrad(x, s); g.close("CoeffGrad", r(0, 0), double(-1.5L * v), 1e-12, "Sigmoid1d");
}
PBT_PROPERTY(many_terms, 60) {
  Cfg cfg = bigCfg(g); cfg.grad = true; Built b = bigComponent(g, cfg); Mat x = drawPts(g, b.n.din, 1, 2), s = drawSens(g, 1, 1); if (maxAbs(s) > 0) g.nontrivial();
  judge(g, b, x, s, drawWay(g), 4);
}
