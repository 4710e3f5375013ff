// C22: pullback and pushforward densities and samplers. Oracle: the change-of-variables formula applied to the reference of
// the map (values, numerical derivatives) and to the map's own operations (tight).
#include "deriv.hpp"
#include "inv.hpp"
#include "MParT/Distributions/GaussianSamplerDensity.h"
#include "MParT/Distributions/TransportDistributionFactory.h"
using namespace mg;
typedef mpart::DensityBase<HS> Dens;
typedef mpart::SampleGenerator<HS> Samp;
typedef mpart::GaussianSamplerDensity<HS> GSD;
/// a reference density of the user's: product of hyperbolic secants, or with a coupling term
struct Sech : Dens, Samp {
  LV a, m; ld couple;
  Sech(G& g, int d) : Dens(d), Samp(d, 1), couple(g.coin() ? 0 : g.real(-0.4, 0.4)) { for (int i = 0; i < d; ++i) { a.push_back(g.real(0.4, 1.5)); m.push_back(g.real(-1, 1)); } }
  unsigned int Dim() const override { return unsigned(a.size()); }
  ld logp(LV const& y) const { ld s = -0.7L; for (size_t i = 0; i < y.size(); ++i) { ld t = a[i] * (y[i] - m[i]); s -= std::fabs(t) + std::log1p(std::exp(-2 * std::fabs(t))); if (i) s += couple * std::sin(y[i] - y[i - 1]); } return s; }
  LV grad(LV const& y) const { LV r(y.size(), 0); for (size_t i = 0; i < y.size(); ++i) { r[i] -= a[i] * std::tanh(a[i] * (y[i] - m[i])); if (i) { r[i] += couple * std::cos(y[i] - y[i - 1]); r[i - 1] -= couple * std::cos(y[i] - y[i - 1]); } } return r; }
  void LogDensityImpl(mpart::StridedMatrix<const double, HS> const& p, mpart::StridedVector<double, HS> o) override { for (size_t j = 0; j < p.extent(1); ++j) { LV y; for (size_t i = 0; i < p.extent(0); ++i) y.push_back(p(i, j)); o(j) = double(logp(y)); } }
  void LogDensityInputGradImpl(mpart::StridedMatrix<const double, HS> const& p, mpart::StridedMatrix<double, HS> o) override { for (size_t j = 0; j < p.extent(1); ++j) { LV y; for (size_t i = 0; i < p.extent(0); ++i) y.push_back(p(i, j)); LV r = grad(y); for (size_t i = 0; i < r.size(); ++i) o(i, j) = double(r[i]); } }
  unsigned state = 1;
  void SetSeed(unsigned s) override { state = s; }
  void SampleImpl(mpart::StridedMatrix<double, HS> o) override { for (size_t j = 0; j < o.extent(1); ++j) for (size_t i = 0; i < o.extent(0); ++i) { state = state * 1664525u + 1013904223u; o(i, j) = (state >> 8) / 16777216.0 * 3 - 1.5; } }
};
struct Ref {  // reference distribution with its formula
  std::shared_ptr<Dens> dens; std::shared_ptr<Samp> samp; std::shared_ptr<mpart::Distribution<HS>> dist;
  std::shared_ptr<Sech> sech; int d; Mat mean, cov; Eigen::Matrix<ld, -1, -1> P; ld logdet = 0; Kokkos::View<double*, HS> mv; Kokkos::View<double**, Kokkos::LayoutLeft, HS> cv;
  Ref(G& g, int dim) : d(dim) {
    int k = int(g.below(4));
    if (k == 0) { sech = std::make_shared<Sech>(g, d); dens = sech; samp = sech; g.label("user-defined reference"); g.note() << " ref sech"; }
    else {
      mean = Mat::Zero(d, 1); cov = Mat::Identity(d, d); std::shared_ptr<GSD> q;
      if (k >= 2) { mv = Kokkos::View<double*, HS>("m", d); for (int i = 0; i < d; ++i) mv(i) = mean(i, 0) = g.real(-1, 1); }
      if (k == 3) { Mat B(d, d); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) B(i, j) = j < i ? g.real(-0.5, 0.5) : j == i ? g.real(0.6, 1.5) : 0; cov = B * B.transpose(); cv = Kokkos::View<double**, Kokkos::LayoutLeft, HS>("c", d, d); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) cv(i, j) = cov(i, j); }
      if (k == 1) q = std::make_shared<GSD>((unsigned)d); else if (k == 2) q = std::make_shared<GSD>(mpart::StridedVector<double, HS>(mv)); else q = std::make_shared<GSD>(mpart::StridedVector<double, HS>(mv), mpart::StridedMatrix<double, HS>(cv));
      dens = q; samp = q; g.label(k == 1 ? "standard normal reference" : k == 2 ? "normal reference with mean" : "normal reference with mean and covariance");
      Eigen::Matrix<ld, -1, -1> C = cov.cast<ld>(); P = C.inverse(); logdet = std::log(C.determinant()); g.note() << " ref normal " << k;
    }
    dist = std::make_shared<mpart::Distribution<HS>>(samp, dens);
  }
  ld logp(LV const& y) const { if (sech) return sech->logp(y); ld q = 0; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) q += (y[i] - mean(i, 0)) * P(i, j) * (y[j] - mean(j, 0)); return -0.5L * (q + d * std::log(2 * M_PIl) + logdet); }
  LV grad(LV const& y) const { if (sech) return sech->grad(y); LV r(d, 0); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) r[i] -= P(i, j) * (y[j] - mean(j, 0)); return r; }
};
static bool contDeep(Node const& n) { bool c = true; n.visit([&](Node const& k) { if (k.kind == "component" && !k.opts.contDeriv) c = false; }); return c; }
static bool nontrivialMap(Node const& n) { bool t = false; n.visit([&](Node const& k) { if (k.kind == "component" || k.kind == "affine") t = true; }); return t; }
static Mat logD(G& g, Dens& d, Mat const& x, int way, mpart::Distribution<HS>* dist = nullptr) {
  bool ok; Mat r;
  if (way == EIGEN) { Mat x0 = x; r = d.LogDensity(x0).transpose(); ok = x0 == x; }
  else {
    Buf b(x, way == IMPL ? STEP : way); auto v = b.cview();
    if (way == IMPL) { Mat dirt = Mat::Constant(1, x.cols(), 4e5); Buf o(dirt, STEP); Kokkos::LayoutStride l(x.cols(), std::max<long>(o.s1, 1)); mpart::StridedVector<double, HS> ov(o.mem.data() + o.off, l); d.LogDensityImpl(v, ov); r = toRow(ov); ok = o.padIntact() && b.intact(); }
    else { r = toRow(d.LogDensity<HS>(v)); ok = b.intact(); }
  }
  g.check(ok, "inputs", std::string("LogDensity via ") + wayName(way) + " changed its input or memory beside its result");
  g.check(r.cols() == x.cols(), "shape", "LogDensity"); return r;
}
static Mat logDG(G& g, Dens& d, Mat const& x, int way) {
  bool ok; Mat r;
  if (way == EIGEN) { Mat x0 = x; r = d.LogDensityInputGrad(x0); ok = x0 == x; }
  else {
    Buf b(x, way == IMPL ? PADDED : way); auto v = b.cview();
    if (way == IMPL) { Mat dirt = Mat::Constant(x.rows(), x.cols(), 4e5); Buf o(dirt, 1 + int(g.below(4))); auto ov = o.view(); d.LogDensityInputGradImpl(v, ov); r = toMat(ov); ok = o.padIntact() && b.intact(); }
    else { r = toMat(d.LogDensityInputGrad<HS>(v)); ok = b.intact(); }
  }
  g.check(ok, "inputs", std::string("LogDensityInputGrad via ") + wayName(way) + " changed its input or memory beside its result");
  g.check(r.rows() == x.rows() && r.cols() == x.cols(), "shape", "LogDensityInputGrad"); return r;
}
static Mat logDC(G& g, mpart::PullbackDensity<HS>& d, Mat const& x, int nc, int way) {
  bool ok; Mat r;
  if (way == EIGEN) { Mat x0 = x; r = d.LogDensityCoeffGrad(x0); ok = x0 == x; }
  else {
    Buf b(x, way == IMPL ? PADDED : way); auto v = b.cview();
    if (way == IMPL) { Mat dirt = Mat::Constant(nc, x.cols(), 4e5); Buf o(dirt, 1 + int(g.below(4))); auto ov = o.view(); d.LogDensityCoeffGradImpl(v, ov); r = toMat(ov); ok = o.padIntact() && b.intact(); }
    else { r = toMat(d.LogDensityCoeffGrad(v)); ok = b.intact(); }
  }
  g.check(ok, "inputs", std::string("LogDensityCoeffGrad via ") + wayName(way) + " changed its input or memory beside its result");
  g.check(r.rows() == nc && r.cols() == x.cols(), "shape", "LogDensityCoeffGrad"); return r;
}
PBT_PROPERTY(pullback_density, 900) {
  Cfg cfg; cfg.box = 2; cfg.K = g.pick<double>({1, 2}); cfg.exact = g.coin(); cfg.contOnly = g.chance(2, 3); cfg.allowExp = g.chance(1, 3);
  Built b = build(g, cfg, 2, 3, 2); Ref R(g, b.n.dout); if (nontrivialMap(b.n)) g.nontrivial();
  auto pb = std::make_shared<mpart::PullbackDensity<HS>>(b.n.map, R.dens);
  g.check(pb->Dim() == unsigned(b.n.dout), "dimension", "of the pullback density");
  bool again = g.coin() && b.n.nc;  // the density follows the map's coefficients
  for (int round = 0; round < 1 + int(again); ++round) {
    if (round) { std::vector<double> v; drawCoeffs(g, b.n, v); b.c = Eigen::Map<VecX>(v.data(), v.size()); b.c *= 0.8; VecX w = b.c; b.n.map->SetCoeffs(Eigen::Ref<VecX>(w)); b.lc = lv(b.c); g.note() << " then coeffs " << str(b.c); }
    int N = g.range(0, 4); Mat x = drawPts(g, b.n.din, N, 2); int way = drawWay(g);
    Mat l = logD(g, *pb, x, way);
    Mat y = runOp(*b.n.map, EVAL, x, x), ldt = runOp(*b.n.map, LDET, x, x);
    for (int j = 0; j < N; ++j) {
      ld rho = R.logp(col(y, j)), want = rho + ld(ldt(0, j)); if (!(std::fabs(want) < 1e250L)) continue;
      g.close("log density", l(0, j), double(want), 1e-11 * (1 + std::fabs(double(rho)) + std::fabs(ldt(0, j))), "x=" + str(col(x, j)) + " from the map's own values, via " + wayName(way));
      if (cfg.exact && contDeep(b.n) && !b.n.anyAdaptive()) { LV p = col(x, j); if (b.n.minDiag(p, b.lc.data()) < 1e-5L) continue; ld w2 = R.logp(b.n.refEval(p, b.lc.data())) + b.n.refLogDet(p, b.lc.data()); g.close("log density of the reference map", l(0, j), double(w2), 1e-5 * (1 + std::fabs(double(w2))), "x=" + str(p)); }
    }
    // gradients: the chain rule on the map's own operations
    if (N == 0) continue;
    Mat s(b.n.dout, N); for (int j = 0; j < N; ++j) { LV q = R.grad(col(y, j)); for (int i = 0; i < b.n.dout; ++i) s(i, j) = double(q[i]); }
    bool cont = contDeep(b.n);
    auto cmp = [&](const char* tag, Mat const& got, Mat const& a, Mat const& c) { for (int i = 0; i < got.rows(); ++i) for (int j = 0; j < N; ++j) g.close(tag, got(i, j), a(i, j) + c(i, j), 1e-9 * (1 + std::fabs(a(i, j)) + std::fabs(c(i, j))) * (1 + maxAbs(s)), "entry (" + std::to_string(i) + "," + std::to_string(j) + ") from the map's own gradients"); };
    if (cont) cmp("input gradient", logDG(g, *pb, x, drawWay(g)), runOp(*b.n.map, GRAD, x, s), runOp(*b.n.map, LDIG, x, x));
    if (b.n.nc && (cont || !b.n.count("composed"))) cmp("coefficient gradient", logDC(g, *pb, x, b.n.nc, drawWay(g)), runOp(*b.n.map, CGRAD, x, s), runOp(*b.n.map, LDCG, x, x));
  }
}
PBT_PROPERTY(pullback_gradients, 350) {
  Cfg cfg; cfg.exact = false; cfg.grad = true; cfg.contOnly = true; cfg.box = 2; cfg.K = g.pick<double>({1, 2}); cfg.allowExp = g.chance(1, 3);
  Built b = build(g, cfg, 1, 3, 2); Ref R(g, b.n.dout); if (nontrivialMap(b.n)) g.nontrivial();
  mpart::PullbackDensity<HS> pb(b.n.map, R.dens);
  Mat x = drawPts(g, b.n.din, 1, 2); LV p = col(x, 0);
  if (b.n.minDiag(p, b.lc.data()) < 1e-4L) g.discard("nearly singular point");
  Mat gi = logDG(g, pb, x, drawWay(g)), gc; if (b.n.nc) gc = logDC(g, pb, x, b.n.nc, drawWay(g));
  Mat y = runOp(*b.n.map, EVAL, x, x); LV s = R.grad(col(y, 0));
  Der T(g, b, p, false), L(g, b, p, true);
  for (int coeff = 0; coeff < 2; ++coeff) for (int i : pickIdx(g, coeff ? b.n.nc : b.n.din, 10)) {
    LV v, e, w, f; T.along(false, coeff, i, v, e); L.along(true, coeff, i, w, f);
    ld want = w[0], err = f[0], mag = std::fabs(w[0]); for (size_t k = 0; k < s.size(); ++k) { want += s[k] * v[k]; err += std::fabs(s[k]) * e[k]; mag += std::fabs(s[k] * v[k]); }
    if (!usable(g, err, mag)) continue;
    g.close(coeff ? "coefficient gradient" : "input gradient", (coeff ? gc : gi)(i, 0), double(want), double((b.n.anyAdaptive() ? 4e-5L : 1e-7L) * (1 + mag) + 20 * err), std::string(coeff ? "coefficient " : "input ") + std::to_string(i) + " x=" + str(p));
  }
}
static Built square(G& g, Cfg const& cfg) {
  Built b; int d = g.range(1, 3); b.n = genMap(g, cfg, d, d, 2); b.c = setCoeffs(g, b.n); b.lc = lv(b.c); b.n.visit([&](Node const& k) { g.label(k.kind); });
  g.note() << b.n.desc << " coeffs " << str(b.c); return b;
}
PBT_PROPERTY(pushforward_density, 600) {
  Cfg cfg; cfg.box = 2; cfg.K = g.pick<double>({1, 2}); cfg.allowExp = false; cfg.contOnly = g.coin();
  Built b = square(g, cfg); Ref R(g, b.n.dout); if (nontrivialMap(b.n)) g.nontrivial();
  auto pf = std::make_shared<mpart::PushforwardDensity<HS>>(b.n.map, R.dens); g.check(pf->Dim() == unsigned(b.n.dout), "dimension", "of the pushforward density");
  int N = g.range(1, 3), d = b.n.dout; Mat x = drawPts(g, d, N, 1.5), y = b.n.map->Evaluate(x), l = logD(g, *pf, y, drawWay(g));
  Mat none(0, N), z = runOp(*b.n.map, INV, none, y), ldz = runOp(*b.n.map, LDET, z, z), ldx = runOp(*b.n.map, LDET, x, x);
  for (int j = 0; j < N; ++j) {
    LV p = col(x, j); ld want = R.logp(col(z, j)) - ld(ldz(0, j));
    if (!std::isfinite(double(want))) continue;
    g.close("log density", l(0, j), double(want), 1e-9 * (1 + std::fabs(double(want))), "y=" + str(col(y, j)) + " from the map's own inverse");
    // against the point the output came from
    ld md = b.n.minDiag(p, b.lc.data()); ld err = 0; for (int i = 0; i < d; ++i) err = std::max(err, std::fabs(ld(z(i, j)) - p[i]));
    if (!(md > 0.05L) || b.n.count("composed")) continue;
    g.check(err < 1e-3L, "inverse", "the inverse is far from the point y came from: " + num(double(err)) + " x=" + str(p));
    ld w2 = R.logp(p) - ld(ldx(0, j)); LV gr = R.grad(p); ld sl = 0; for (auto q : gr) sl += std::fabs(q);
    // slope of the log-determinant, by a difference at the scale of the error
    g.close("log density at the point of origin", l(0, j), double(w2), double(1e-8L + err * sl * 2 + 2 * std::fabs(ld(ldz(0, j)) - ld(ldx(0, j)))), "x=" + str(p));
  }
  bool t = false; try { Mat q = pf->LogDensityInputGrad(y); } catch (std::exception const&) { t = true; } g.label(t ? "input gradient refused" : "input gradient offered");
}
PBT_PROPERTY(consistency, 300) {
  // pulling the pushforward back gives the reference; pulling back twice is pulling back through the composition
  Cfg cfg; cfg.box = 2; cfg.K = 1; cfg.allowExp = false; cfg.contOnly = true; cfg.cheap = true;
  Built b = square(g, cfg); int d = b.n.dout; Ref R(g, d); if (nontrivialMap(b.n)) g.nontrivial();
  int N = g.range(1, 3); Mat x = drawPts(g, d, N, 1.5);
  auto pf = std::make_shared<mpart::PushforwardDensity<HS>>(b.n.map, R.dens); mpart::PullbackDensity<HS> back(b.n.map, pf);
  Mat l = logD(g, back, x, drawWay(g)), y = b.n.map->Evaluate(x), z = runOp(*b.n.map, INV, Mat(0, N), y), a = runOp(*b.n.map, LDET, x, x), c = runOp(*b.n.map, LDET, z, z);
  for (int j = 0; j < N; ++j) { ld want = R.logp(col(z, j)) - ld(c(0, j)) + ld(a(0, j)); g.close("pullback of the pushforward", l(0, j), double(want), 1e-9 * (1 + std::fabs(double(want))), "x=" + str(col(x, j))); }
  Built b2; b2.n = genMap(g, cfg, d, d, 1); b2.c = setCoeffs(g, b2.n); g.note() << " second map " << b2.n.desc << " coeffs " << str(b2.c);
  auto inner = std::make_shared<mpart::PullbackDensity<HS>>(b2.n.map, R.dens); mpart::PullbackDensity<HS> twice(b.n.map, inner);
  Mat l2 = logD(g, twice, x, drawWay(g)), y2 = b2.n.map->Evaluate(y), a2 = runOp(*b2.n.map, LDET, y, y);
  for (int j = 0; j < N; ++j) { ld want = R.logp(col(y2, j)) + ld(a2(0, j)) + ld(a(0, j)); g.close("pullback of a pullback", l2(0, j), double(want), 1e-10 * (1 + std::fabs(double(want)) + std::fabs(double(R.logp(col(y2, j))))), "x=" + str(col(x, j))); }
  // forward: outputs of the pushforward at T2(T1(x)) under both maps
}
PBT_PROPERTY(samplers, 500) {
  Cfg cfg; cfg.box = 4; cfg.K = 1.5; cfg.allowExp = false; cfg.exact = false; cfg.ccMin = 8;
  Built b = square(g, cfg); int d = b.n.dout; Ref R(g, d); if (nontrivialMap(b.n)) g.nontrivial();
  bool pull = g.coin(), dist = g.coin(); g.label(pull ? "pullback" : "pushforward"); g.note() << (pull ? " pullback" : " pushforward");
  unsigned seed = unsigned(g.below(1u << 31)); int N = g.range(0, 6), M = g.range(0, 3);
  std::shared_ptr<Samp> s; std::shared_ptr<Dens> q;
  std::shared_ptr<mpart::PullbackDistribution<HS>> D1; std::shared_ptr<mpart::PushforwardDistribution<HS>> D2;
  if (pull) s = std::make_shared<mpart::PullbackSampler<HS>>(b.n.map, R.samp); else s = std::make_shared<mpart::PushforwardSampler<HS>>(b.n.map, R.samp);
  if (pull) q = std::make_shared<mpart::PullbackDensity<HS>>(b.n.map, R.dens); else q = std::make_shared<mpart::PushforwardDensity<HS>>(b.n.map, R.dens);
  auto D = std::make_shared<mpart::Distribution<HS>>(s, q);
  auto seedIt = [&] { if (dist) D->SetSeed(seed); else s->SetSeed(seed); };
  auto take = [&](int n) {
    if (g.coin()) { Mat dirt = Mat::Constant(d, n, 7e5); Buf o(dirt, 1 + int(g.below(4))); auto v = o.view(); if (dist) D->SampleImpl(v); else s->SampleImpl(v); g.check(o.padIntact(), "memory", "sampling wrote beside its result"); return toMat(v); }
    return dist ? toMat(D->Sample(n)) : toMat(s->Sample(n));
  };
  g.check(s->Dim() == unsigned(d) && D->Dim() == unsigned(d), "dimension", "of the sampler");
  seedIt(); Mat u = take(N), u2 = take(M); seedIt(); Mat again = take(N);
  R.samp->SetSeed(seed); Mat r = toMat(R.samp->Sample(N)), r2 = toMat(R.samp->Sample(M));
  auto same = [&](const char* tag, Mat const& a, Mat const& w, double rel) { g.check(a.rows() == d && a.cols() == w.cols(), "shape", "of the samples"); for (int j = 0; j < a.cols(); ++j) if (w.col(j).array().isFinite().all()) for (int i = 0; i < d; ++i) { if (!std::isfinite(w(i, j)) || std::fabs(w(i, j)) > 1e8) continue; g.close(tag, a(i, j), w(i, j), rel * (1 + maxAbs(w.col(j))), "sample " + std::to_string(j)); } };
  same("same seed", again, u, 0);
  auto image = [&](Mat const& m) { return m.cols() == 0 ? Mat(d, 0) : pull ? runOp(*b.n.map, INV, Mat(0, m.cols()), m) : runOp(*b.n.map, EVAL, m, m); };
  same("samples", u, image(r), pull ? 1e-7 : 1e-11); same("later samples", u2, image(r2), pull ? 1e-7 : 1e-11);
  // the factories give the same objects
  if (pull) { D1 = mpart::CreatePullback<HS>(b.n.map, R.dist); D1->SetSeed(seed); same("factory", toMat(D1->Sample(N)), u, pull ? 1e-7 : 1e-11); } else { D2 = mpart::CreatePushforward<HS>(b.n.map, R.dist); D2->SetSeed(seed); same("factory", toMat(D2->Sample(N)), u, 1e-11); }
  if (N > 0) {
    Mat x = pull ? drawPts(g, d, N, 1.5) : Mat(b.n.map->Evaluate(drawPts(g, d, N, 1.5))); Buf bx(x, STEP); mpart::StridedMatrix<const double, HS> v = bx.cview();
    Mat f = pull ? toRow(D1->LogDensity(v)) : toRow(D2->LogDensity(v)), w = logD(g, *q, x, EIGEN), h = toRow(D->LogDensity(v));
    for (int j = 0; j < N; ++j) { if (!std::isfinite(w(0, j))) continue; g.close("factory", f(0, j), w(0, j), 1e-10 * (1 + std::fabs(w(0, j))), "log density"); g.close("distribution", h(0, j), w(0, j), 1e-10 * (1 + std::fabs(w(0, j))), "log density"); }
  }
}
