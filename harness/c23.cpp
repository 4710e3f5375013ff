// C23: KL objectives. Oracle: minus the average of the change-of-variables log density at every sample, and the chain rule.
#include "deriv.hpp"
#include "MParT/MapObjective.h"
using namespace mg;
typedef mpart::MapObjective<HS> Obj;
typedef mpart::GaussianSamplerDensity<HS> GSD;
/// a user-defined density
struct Sech : mpart::DensityBase<HS> {
  int d; Sech(int d_) : DensityBase(d_), d(d_) {}
  static ld logp(LV const& y) { ld s = 0; for (auto v : y) s -= std::fabs(v) + std::log1p(std::exp(-2 * std::fabs(v))); return s; }
  void LogDensityImpl(mpart::StridedMatrix<const double, HS> const& p, mpart::StridedVector<double, HS> o) override { for (size_t j = 0; j < p.extent(1); ++j) { LV y; for (size_t i = 0; i < p.extent(0); ++i) y.push_back(p(i, j)); o(j) = double(logp(y)); } }
  void LogDensityInputGradImpl(mpart::StridedMatrix<const double, HS> const& p, mpart::StridedMatrix<double, HS> o) override { for (size_t j = 0; j < p.extent(1); ++j) for (size_t i = 0; i < p.extent(0); ++i) o(i, j) = -std::tanh(p(i, j)); }
};
struct Sys {
  std::shared_ptr<Obj> obj; bool sech = false, test = false; std::unique_ptr<Buf> tr, te; Mat xtr, xte; int nTr, nTe = 0; Mat mean, cov; Eigen::Matrix<ld, -1, -1> P; ld logdet = 0; int d;
  ld logp(LV const& y) const { if (sech) return Sech::logp(y); ld q = 0; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) q += (y[i] - mean(i, 0)) * P(i, j) * (y[j] - mean(j, 0)); return -0.5L * (q + d * std::log(2 * M_PIl) + logdet); }
  LV grad(LV const& y) const { LV r(d, 0); if (sech) { for (int i = 0; i < d; ++i) r[i] = -std::tanh(y[i]); return r; } for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) r[i] -= P(i, j) * (y[j] - mean(j, 0)); return r; }
};
static void make(G& g, Sys& s, Node const& n, double box, bool many = false) {
  s.d = n.dout; s.test = g.coin(); s.nTr = g.chance(1, 5) ? 1 : g.range(1, 9); s.nTe = s.test ? g.range(1, 7) : 0; if (g.chance(1, 10)) s.nTr = g.range(40, 90); if (many) { s.nTr = g.range(200, 5000); if (s.test) s.nTe = g.range(1, 5000); }
  s.xtr = many ? manyPts(g, n.din, s.nTr, box) : drawPts(g, n.din, s.nTr, box); s.xte = s.nTe > 7 ? manyPts(g, n.din, s.nTe, box) : drawPts(g, n.din, s.nTe, box);
  s.tr.reset(new Buf(s.xtr, g.pick<int>({LEFT, RIGHT, PADDED, STEP}))); if (s.test) s.te.reset(new Buf(s.xte, g.pick<int>({LEFT, RIGHT, PADDED, STEP})));
  s.mean = Mat::Zero(s.d, 1); s.cov = Mat::Identity(s.d, s.d);
  int k = int(g.below(3));
  if (k == 0) {
    unsigned dim = n.din == n.dout && g.coin() ? 0u : unsigned(n.dout);
    s.obj = s.test ? mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(s.tr->cview(), s.te->cview(), dim) : mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(s.tr->cview(), dim); g.label("factory");
  } else {
    std::shared_ptr<mpart::DensityBase<HS>> den;
    if (k == 1) { s.sech = true; den = std::make_shared<Sech>(s.d); g.label("user-defined density"); }
    else {
      Kokkos::View<double*, HS> mv("m", s.d); Kokkos::View<double**, Kokkos::LayoutLeft, HS> cv("c", s.d, s.d); Mat B(s.d, s.d);
      for (int i = 0; i < s.d; ++i) { mv(i) = s.mean(i, 0) = g.real(-1, 1); for (int j = 0; j < s.d; ++j) B(i, j) = j < i ? g.real(-0.5, 0.5) : j == i ? g.real(0.6, 1.5) : 0; }
      s.cov = B * B.transpose(); for (int i = 0; i < s.d; ++i) for (int j = 0; j < s.d; ++j) cv(i, j) = s.cov(i, j);
      den = std::make_shared<GSD>(mpart::StridedVector<double, HS>(mv), mpart::StridedMatrix<double, HS>(cv)); g.label("normal density with mean and covariance");
    }
    s.obj = s.test ? std::make_shared<mpart::KLObjective<HS>>(s.tr->cview(), s.te->cview(), den) : std::make_shared<mpart::KLObjective<HS>>(s.tr->cview(), den);
  }
  Eigen::Matrix<ld, -1, -1> C = s.cov.cast<ld>(); s.P = C.inverse(); s.logdet = std::log(C.determinant());
  g.note() << " training samples " << s.nTr << " test samples " << s.nTe << " density " << k;
}
static ld value(Sys& s, CMB& m, Mat const& x, ld& mag) {
  Mat y = runOp(m, EVAL, x, x), l = runOp(m, LDET, x, x); ld t = 0; mag = 0;
  for (int j = 0; j < x.cols(); ++j) { ld r = s.logp(col(y, j)); t -= r + ld(l(0, j)); mag += std::fabs(r) + std::fabs(ld(l(0, j))); }
  mag /= x.cols(); return t / x.cols();
}
static LV gradient(Sys& s, CMB& m, Mat const& x, LV& mag) {
  Mat y = runOp(m, EVAL, x, x), sens(s.d, x.cols()); for (int j = 0; j < x.cols(); ++j) { LV q = s.grad(col(y, j)); for (int i = 0; i < s.d; ++i) sens(i, j) = double(q[i]); }
  Mat a = runOp(m, CGRAD, x, sens), c = runOp(m, LDCG, x, x); LV r(a.rows(), 0); mag.assign(a.rows(), 0);
  for (int i = 0; i < a.rows(); ++i) { for (int j = 0; j < x.cols(); ++j) { r[i] -= ld(a(i, j)) + ld(c(i, j)); mag[i] += std::fabs(ld(a(i, j))) + std::fabs(ld(c(i, j))); } r[i] /= x.cols(); mag[i] /= x.cols(); }
  return r;
}
static bool contDeep(Node const& n) { bool c = true; n.visit([&](Node const& k) { if (k.kind == "component" && !k.opts.contDeriv) c = false; }); return c; }
static bool hasGrad(Node const& n) { return n.nc > 0 && (contDeep(n) || !n.count("composed")); }
static bool unchangedC(Node const& n, VecX const& c) { if (!n.nc) return true; auto v = n.map->Coeffs(); for (int i = 0; i < n.nc; ++i) if (v(i) != c(i)) return false; return true; }
PBT_PROPERTY(values_and_gradients, 700) {
  Cfg cfg; cfg.box = 2; cfg.K = g.pick<double>({1, 2}); cfg.exact = g.coin(); cfg.contOnly = g.chance(2, 3); cfg.allowExp = g.chance(1, 3);
  Built b = build(g, cfg, 2, 3, 2); Sys s; make(g, s, b.n, 2);
  if (b.n.count("component")) g.nontrivial();
  auto& o = *s.obj; auto map = b.n.map;
  g.check(int(o.InputDim()) == b.n.din && int(o.NumSamples()) == s.nTr && int(o.MapOutputDim()) == b.n.dout, "dimensions", "InputDim " + std::to_string(o.InputDim()) + " NumSamples " + std::to_string(o.NumSamples()) + " MapOutputDim " + std::to_string(o.MapOutputDim()));
  g.check(toMat(o.GetTrain()) == s.xtr, "stored samples", "GetTrain"); if (s.test) g.check(toMat(o.GetTest()) == s.xte, "stored samples", "GetTest");
  int rounds = b.n.nc && g.coin() ? 2 : 1;
  for (int r = 0; r < rounds; ++r) {
    bool viaCall = false; VecX c = b.c;
    if (r) { std::vector<double> v; drawCoeffs(g, b.n, v); c = Eigen::Map<VecX>(v.data(), v.size()); c *= 0.8; viaCall = hasGrad(b.n) && g.coin(); if (!viaCall) { VecX w = c; map->SetCoeffs(Eigen::Ref<VecX>(w)); } g.note() << " then coeffs " << str(c); }
    double got = 0; std::vector<double> gr(b.n.nc + 4, 777.25);
    if (hasGrad(b.n) && (viaCall || g.coin())) { viaCall = true; got = o(b.n.nc, c.data(), gr.data() + 2, map); g.check(gr[0] == 777.25 && gr[1] == 777.25 && gr[b.n.nc + 2] == 777.25 && gr[b.n.nc + 3] == 777.25, "memory", "the gradient was written outside its array"); }
    g.check(unchangedC(b.n, c), "coefficients", viaCall ? "the map does not hold the coefficients the objective was called with" : "evaluating changed the coefficients");
    ld mag; ld want = value(s, *map, s.xtr, mag); if (!std::isfinite(double(want)) || mag > 1e200L) continue;
    double e = o.TrainError(map); g.close("TrainError", e, double(want), double(1e-11L * (1 + mag)), "");
    if (viaCall) g.close("value of the combined call", got, double(want), double(1e-11L * (1 + mag)), "");
    if (s.test) { ld w2 = value(s, *map, s.xte, mag); if (std::isfinite(double(w2)) && mag < 1e200L) g.close("TestError", o.TestError(map), double(w2), double(1e-11L * (1 + mag)), ""); }
    else { bool t = false; try { o.TestError(map); } catch (std::exception const&) { t = true; } g.check(t, "no test set", "TestError without a test set did not throw"); }
    if (hasGrad(b.n)) {
      LV gm; LV wg = gradient(s, *map, s.xtr, gm); auto v = o.TrainCoeffGrad(map); g.check(int(v.extent(0)) == b.n.nc, "shape", "TrainCoeffGrad");
      int way = int(g.below(3)); Mat dirt = Mat::Constant(1, b.n.nc, 4e5); Buf ob(dirt, way == 0 ? RIGHT : way == 1 ? STEP : PADDED); Kokkos::LayoutStride l(b.n.nc, std::max<long>(ob.s1, 1)); mpart::StridedVector<double, HS> ov(ob.mem.data() + ob.off, l);
      double both = 0; bool comb = g.coin(); if (comb) both = o.ObjectivePlusCoeffGradImpl(s.tr->cview(), ov, map); else if (g.coin()) o.TrainCoeffGradImpl(map, ov); else o.CoeffGradImpl(s.tr->cview(), ov, map);
      g.check(ob.padIntact(), "memory", "the gradient was written beside its (strided) vector");
      if (comb) g.close("value of the combined call", both, double(want), double(1e-11L * (1 + std::fabs(want))) + 1e-9, "ObjectivePlusCoeffGradImpl");
      Mat og = toRow(ov);
      for (int i = 0; i < b.n.nc; ++i) {
        double tol = double(1e-10L * (1 + gm[i]) * (1 + std::fabs(want))); std::string at = "coefficient " + std::to_string(i);
        g.close("TrainCoeffGrad", v(i), double(wg[i]), tol, at); g.close("preallocated gradient", og(0, i), double(wg[i]), tol, at + (way == 0 ? " contiguous" : " strided")); if (viaCall) g.close("gradient of the combined call", gr[i + 2], double(wg[i]), tol, at);
      }
    }
    // objectives on other data than the stored samples
    Mat other = drawPts(g, b.n.din, g.range(1, 3), 2); Buf bo(other, STEP); ld m3; ld w3 = value(s, *map, other, m3); if (std::isfinite(double(w3)) && m3 < 1e200L) g.close("ObjectiveImpl", o.ObjectiveImpl(bo.cview(), map), double(w3), double(1e-11L * (1 + m3)), "");
    g.check(s.tr->intact() && (!s.te || s.te->intact()), "stored samples", "the samples were changed"); g.check(unchangedC(b.n, c), "coefficients", "evaluating changed the coefficients");
  }
}
PBT_PROPERTY(derivative, 250) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.contOnly = true; cfg.box = 2; cfg.K = g.pick<double>({1, 2}); cfg.allowExp = g.chance(1, 3);
  Built b = build(g, cfg, 1, 3, 2); if (!b.n.nc) g.discard("no coefficients"); Sys s; make(g, s, b.n, 2); g.nontrivial();
  int N = std::min<int>(s.nTr, 4); if (N < s.nTr) { s.xtr = Mat(s.xtr.leftCols(N)); s.tr.reset(new Buf(s.xtr, STEP)); }
  for (int j = 0; j < N; ++j) if (b.n.minDiag(col(s.xtr, j), b.lc.data()) < 1e-4L) g.discard("nearly singular point");
  Kokkos::View<double*, HS> gr("g", b.n.nc); s.obj->CoeffGradImpl(s.tr->cview(), gr, b.n.map);
  Mat y = runOp(*b.n.map, EVAL, s.xtr, s.xtr); auto idx = pickIdx(g, b.n.nc, 8); std::vector<ld> want(idx.size(), 0), err(idx.size(), 0), mag(idx.size(), 0);
  for (int j = 0; j < N; ++j) { LV p = col(s.xtr, j), q = s.grad(col(y, j)); Der T(g, b, p, false), L(g, b, p, true);
    for (size_t k = 0; k < idx.size(); ++k) { LV v, e, w, f; T.along(false, true, idx[k], v, e); L.along(true, true, idx[k], w, f); want[k] -= w[0] / N; err[k] += f[0] / N; mag[k] += std::fabs(w[0]) / N; for (size_t i = 0; i < q.size(); ++i) { want[k] -= q[i] * v[i] / N; err[k] += std::fabs(q[i]) * e[i] / N; mag[k] += std::fabs(q[i] * v[i]) / N; } } }
  for (size_t k = 0; k < idx.size(); ++k) { if (!usable(g, err[k], mag[k])) continue; g.close("derivative", gr(idx[k]), double(want[k]), double((b.n.anyAdaptive() ? 4e-5L : 1e-7L) * (1 + mag[k]) + 20 * err[k]), "coefficient " + std::to_string(idx[k])); }
}
// the objective of a union of samples is the weighted average of the objectives; order and duplicates do not matter
PBT_PROPERTY(averages, 300) {
  Cfg cfg; cfg.exact = false; cfg.box = 2; cfg.K = 1.5; cfg.contOnly = true; cfg.cheap = true; cfg.allowExp = false;
  Built b = build(g, cfg, 2, 3, 2); Sys s; make(g, s, b.n, 2); if (b.n.count("component")) g.nontrivial();
  int N = s.nTr, k = 1 + int(g.below(N)); Mat perm(b.n.din, N); std::vector<int> p(N); for (int i = 0; i < N; ++i) p[i] = i; for (int i = N - 1; i > 0; --i) std::swap(p[i], p[g.below(i + 1)]);
  for (int j = 0; j < N; ++j) perm.col(j) = s.xtr.col(p[j]);
  auto f = [&](Mat const& x) { Buf q(x, g.pick<int>({LEFT, RIGHT, STEP})); return s.obj->ObjectiveImpl(q.cview(), b.n.map); };
  auto gr = [&](Mat const& x) { Buf q(x, g.pick<int>({LEFT, RIGHT, STEP})); Kokkos::View<double*, HS> v("g", b.n.nc); s.obj->CoeffGradImpl(q.cview(), v, b.n.map); return toRow(v); };
  double whole = s.obj->TrainError(b.n.map), tol = 1e-11; auto part = [&](int a, int n) { return Mat(perm.middleCols(a, n)); };
  double sum = k * f(part(0, k)) + (k < N ? (N - k) * f(part(k, N - k)) : 0); double mag = 0; for (int j = 0; j < N; ++j) mag += std::fabs(f(part(j, 1)));
  if (!std::isfinite(whole) || mag > 1e200) return;
  g.close("average", sum / N, whole, tol * (1 + mag), "weighted average of two parts of a permutation");
  if (b.n.nc) { Mat a = gr(s.xtr), u = gr(part(0, k)) * k; if (k < N) u += gr(part(k, N - k)) * (N - k); double sc = 1 + maxAbs(a) + maxAbs(u); for (int j = 0; j < N; ++j) sc += maxAbs(gr(part(j, 1))); for (int i = 0; i < b.n.nc; ++i) g.close("average gradient", u(0, i) / N, a(0, i), 1e-11 * sc, "coefficient " + std::to_string(i)); }
}
PBT_PROPERTY(many_samples, 12) {
  // hundreds to thousands of samples: the averages and their gradients still run over every one of them
  Cfg cfg; cfg.exact = false; cfg.cheap = cfg.ccOnly = cfg.contOnly = true; cfg.allowExp = false; cfg.box = 2; Built b = build(g, cfg, 1, 2, 1); Sys s; make(g, s, b.n, 2, true); g.nontrivial();
  auto map = b.n.map; ld mag; ld want = value(s, *map, s.xtr, mag);
  g.close("TrainError", s.obj->TrainError(map), double(want), double(1e-11L * (1 + mag)), "");
  if (s.test) { ld m2, w2 = value(s, *map, s.xte, m2); g.close("TestError", s.obj->TestError(map), double(w2), double(1e-11L * (1 + m2)), ""); }
  if (!hasGrad(b.n)) return;
  LV gm, wg = gradient(s, *map, s.xtr, gm); auto v = s.obj->TrainCoeffGrad(map);
  for (int i = 0; i < b.n.nc; ++i) g.close("TrainCoeffGrad", v(i), double(wg[i]), double(1e-10L * (1 + gm[i])), "coefficient " + std::to_string(i));
  VecX c = b.c; std::vector<double> gr(b.n.nc); double e = (*s.obj)(b.n.nc, c.data(), gr.data(), map); g.close("value of the combined call", e, double(want), double(1e-11L * (1 + mag)), "");
  for (int i = 0; i < b.n.nc; ++i) g.close("gradient of the combined call", gr[i], double(wg[i]), double(1e-10L * (1 + gm[i])), "coefficient " + std::to_string(i));
}
