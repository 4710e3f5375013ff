// C21: Gaussian sampler-densities. Oracle: the multivariate normal in long double arithmetic, and statistics of the samples.
#include "buf.hpp"
#include "mp.hpp"
#include "MParT/Distributions/GaussianSamplerDensity.h"
using pbt::G;
using namespace mg;
typedef long double ld;
typedef Eigen::Matrix<ld, -1, -1> LM;
typedef mpart::GaussianSamplerDensity<HS> GSD;
static std::string str(Mat const& m) { std::ostringstream s; s.precision(17); for (int i = 0; i < m.rows(); ++i) { s << (i ? "; " : "["); for (int j = 0; j < m.cols(); ++j) s << (j ? " " : "") << m(i, j); } s << "]"; return s.str(); }
struct Case {
  int d; bool hasM, hasC; Mat mean, cov; LM L; ld logdet = 0, cond = 1, scale = 1;
  std::unique_ptr<Buf> bm, bc; std::shared_ptr<GSD> gsd; std::shared_ptr<mpart::Distribution<HS>> dist;
};
static mpart::StridedVector<double, HS> vec(Buf& b) { Kokkos::LayoutStride l(b.r, std::max<long>(b.s0, 1)); return mpart::StridedVector<double, HS>(b.mem.data() + b.off, l); }
static void drawCov(G& g, Case& c, int spread) {
  int d = c.d; Mat B(d, d);
  int style = int(g.below(4)); double s0 = std::pow(10.0, g.range(-spread, spread));
  if (style == 0) { B = Mat::Zero(d, d); for (int i = 0; i < d; ++i) B(i, i) = g.real(0.2, 2) * s0; }  // diagonal
  else { for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) B(i, j) = (j < i ? g.real(-0.7, 0.7) / std::sqrt(double(d)) * 2 : j == i ? g.real(0.3, 1.5) * (style == 3 ? std::pow(10.0, g.range(-1, 1)) : 1) : 0) * s0; }
  // a symmetric product; the rounding of its entries perturbs it within what the tolerance below allows
  LM Bl = B.cast<ld>(); LM S = Bl * Bl.transpose(); c.cov = S.cast<double>(); for (int i = 0; i < d; ++i) for (int j = 0; j < i; ++j) c.cov(j, i) = c.cov(i, j);
}
static bool factor(Case& c) {
  LM S = c.hasC ? LM(c.cov.cast<ld>()) : LM(LM::Identity(c.d, c.d)); Eigen::LLT<LM> llt(S); if (llt.info() != Eigen::Success) return false;
  c.L = llt.matrixL(); c.logdet = 0; for (int i = 0; i < c.d; ++i) c.logdet += 2 * std::log(c.L(i, i));
  if (c.d) { Eigen::SelfAdjointEigenSolver<LM> es(S); ld lo = es.eigenvalues()(0), hi = es.eigenvalues()(c.d - 1); if (!(lo > 0)) return false; c.cond = hi / lo; c.scale = std::sqrt(hi); }
  return c.cond < 1e6L;
}
static void make(G& g, Case& c, int kind = -1) {
  if (kind < 0) kind = int(g.below(4));
  c.hasM = kind == 1 || kind == 3; c.hasC = kind >= 2;
  if (c.hasM) { c.mean.resize(c.d, 1); for (int i = 0; i < c.d; ++i) c.mean(i, 0) = g.real(-3, 3) * (g.chance(1, 6) ? 100 : 1); c.bm.reset(new Buf(c.mean, g.pick<int>({LEFT, RIGHT, PADDED, STEP}))); }
  if (!factor(c)) g.discard("covariance too ill-conditioned");
  if (c.hasC) c.bc.reset(new Buf(c.cov, g.pick<int>({LEFT, RIGHT, PADDED, STEP})));
  bool viaDist = g.coin();
  if (viaDist) {
    if (kind == 0) c.dist = mpart::CreateGaussianDistribution<HS>((unsigned)c.d); else if (kind == 1) c.dist = mpart::CreateGaussianDistribution<HS>(vec(*c.bm));
    else if (kind == 2) c.dist = mpart::CreateGaussianDistribution<HS>(c.bc->view()); else c.dist = mpart::CreateGaussianDistribution<HS>(vec(*c.bm), c.bc->view());
    c.gsd = std::dynamic_pointer_cast<GSD>(c.dist->GetDensity());
    g.check(bool(c.gsd) && std::dynamic_pointer_cast<GSD>(c.dist->GetSampler()) == c.gsd, "distribution", "the distribution does not hold one Gaussian as sampler and density");
    g.check(c.dist->Dim() == unsigned(c.d), "dimension", "of the distribution");
  } else {
    if (kind == 0) c.gsd = std::make_shared<GSD>((unsigned)c.d); else if (kind == 1) c.gsd = std::make_shared<GSD>(vec(*c.bm));
    else if (kind == 2) c.gsd = std::make_shared<GSD>(c.bc->view()); else c.gsd = std::make_shared<GSD>(vec(*c.bm), c.bc->view());
  }
  g.check(c.gsd->Dim() == unsigned(c.d), "dimension", std::to_string(c.gsd->Dim()) + " instead of " + std::to_string(c.d));
  g.label(kind == 0 ? "standard" : kind == 1 ? "mean only" : kind == 2 ? "covariance only" : "mean and covariance");
  g.note() << "dim " << c.d << (c.hasM ? " mean " + str(c.mean.transpose()) : "") << (c.hasC ? " cov " + str(c.cov) : "");
}
static Mat points(G& g, Case& c, int N) { Mat x(c.d, N); for (int j = 0; j < N; ++j) { double far = g.chance(1, 8) ? 30 : 3; for (int i = 0; i < c.d; ++i) x(i, j) = (c.hasM ? c.mean(i, 0) : 0) + g.real(-far, far) * double(std::sqrt(c.hasC ? ld(c.cov(i, i)) : 1.0L)); } return x; }
static Mat logD(G& g, Case& c, Mat const& x, int way) {
  bool ok = true; Mat r;
  if (way == EIGEN) { Mat x0 = x; r = c.gsd->LogDensity(x0).transpose(); ok = x0 == x; }
  else {
    Buf b(x, way == IMPL ? STEP : way); auto v = b.cview();
    if (way == IMPL) { Mat dirt = Mat::Constant(1, x.cols(), 4e5); Buf o(dirt, STEP); Kokkos::LayoutStride l(x.cols(), std::max<long>(o.s1, 1)); mpart::StridedVector<double, HS> ov(o.mem.data() + o.off, l); if (c.dist && g.coin()) c.dist->LogDensityImpl(v, ov); else c.gsd->LogDensityImpl(v, ov); r = toRow(ov); ok = o.padIntact(); }
    else r = c.dist && g.coin() ? toRow(c.dist->LogDensity(v)) : toRow(c.gsd->LogDensity<HS>(v));
    ok = ok && b.intact();
  }
  g.check(ok, "inputs", std::string("LogDensity via ") + wayName(way) + " changed its input or memory beside its result");
  return r;
}
static Mat logDG(G& g, Case& c, Mat const& x, int way) {
  bool ok = true; Mat r;
  if (way == EIGEN) { Mat x0 = x; r = c.gsd->LogDensityInputGrad(x0); ok = x0 == x; }
  else {
    Buf b(x, way == IMPL ? PADDED : way); auto v = b.cview();
    if (way == IMPL) { Mat dirt = Mat::Constant(x.rows(), x.cols(), 4e5); Buf o(dirt, 1 + int(g.below(4))); auto ov = o.view(); if (c.dist && g.coin()) c.dist->LogDensityInputGradImpl(v, ov); else c.gsd->LogDensityInputGradImpl(v, ov); r = toMat(ov); ok = o.padIntact(); }
    else r = c.dist && g.coin() ? toMat(c.dist->LogDensityInputGrad(v)) : toMat(c.gsd->LogDensityInputGrad<HS>(v));
    ok = ok && b.intact();
  }
  g.check(ok, "inputs", std::string("LogDensityInputGrad via ") + wayName(way) + " changed its input or memory beside its result");
  return r;
}
static void judge(G& g, Case& c, Mat const& x) {
  int way = int(g.below(NWAYS)), d = c.d, N = int(x.cols());
  Mat l = logD(g, c, x, way), gr = logDG(g, c, x, int(g.below(NWAYS)));
  g.check(l.cols() == N, "shape", "LogDensity has length " + std::to_string(l.cols())); g.check(gr.rows() == d && gr.cols() == N, "shape", "LogDensityInputGrad");
  for (int j = 0; j < N; ++j) {
    LM z = x.col(j).cast<ld>(); if (c.hasM) z -= c.mean.cast<ld>();
    LM w = c.L.triangularView<Eigen::Lower>().solve(z); LM q = c.L.transpose().triangularView<Eigen::Upper>().solve(w);
    ld quad = w.squaredNorm(), want = -0.5L * quad - 0.5L * d * std::log(2 * M_PIl) - 0.5L * c.logdet;
    ld big = x.col(j).cast<ld>().cwiseAbs().maxCoeff() + (c.hasM ? ld(c.mean.cwiseAbs().maxCoeff()) : 0);  // cancellation in x - mean
    ld cancel = 1e-16L * big / std::max<ld>(z.cwiseAbs().maxCoeff(), 1e-300L);
    ld rel = 1e-15L * d * c.cond * 20 + 20 * cancel * std::sqrt(c.cond);
    std::string at = "x=" + str(x.col(j).transpose()) + " via " + wayName(way);
    g.close("log density", l(0, j), double(want), double(1e-12L * (1 + std::fabs(want) + d) + rel * (1 + quad)), at);
    for (int i = 0; i < d; ++i) g.close("gradient of the log density", gr(i, j), double(-q(i, 0)), double((1e-12L + rel) * (q.norm() + 1e-300L)), at + " component " + std::to_string(i));
  }
  if (c.bm) g.check(c.bm->intact(), "inputs", "the caller's mean was changed"); if (c.bc) g.check(c.bc->intact(), "inputs", "the caller's covariance was changed");
}
PBT_PROPERTY(density, 5000) {
  Case c; c.d = g.range(1, 8); drawCov(g, c, g.coin() ? 0 : 3); make(g, c);
  if (c.hasC || c.hasM) g.nontrivial();
  judge(g, c, points(g, c, g.range(0, 6)));
}
// many dimensions and scales: the determinant itself may not be representable, its logarithm is
PBT_PROPERTY(many_dimensions, 150) {
  Case c; c.d = g.range(20, 110); c.hasC = true; drawCov(g, c, g.coin() ? 1 : 4); make(g, c, 2 + int(g.below(2))); g.nontrivial();
  if (c.logdet < -740 || c.logdet > 709) g.label("determinant beyond the range of a double");
  judge(g, c, points(g, c, g.range(1, 3)));
}
// the four ways of stating the same distribution agree
PBT_PROPERTY(equivalent_forms, 300) {
  int d = g.range(1, 6); Case a, b; a.d = b.d = d; a.hasC = false; b.cov = Mat::Identity(d, d); make(g, a, int(g.below(2))); g.nontrivial();
  b.hasC = true; b.hasM = a.hasM || g.coin(); b.mean = a.hasM ? a.mean : Mat(Mat::Zero(d, 1));
  b.bc.reset(new Buf(b.cov, STEP)); b.bm.reset(new Buf(b.mean, PADDED)); factor(b);
  b.gsd = b.hasM ? std::make_shared<GSD>(vec(*b.bm), b.bc->view()) : std::make_shared<GSD>(b.bc->view());
  Mat x = points(g, a, 3), la = logD(g, a, x, EIGEN), lb = logD(g, b, x, EIGEN), ga = logDG(g, a, x, EIGEN), gb = logDG(g, b, x, EIGEN);
  for (int j = 0; j < 3; ++j) { g.close("log density", la(0, j), lb(0, j), 1e-12 * (1 + std::fabs(lb(0, j))), "identity covariance stated or implied"); for (int i = 0; i < d; ++i) g.close("gradient", ga(i, j), gb(i, j), 1e-12 * (1 + std::fabs(gb(i, j))), "identity covariance stated or implied"); }
}
static Mat sample(G& g, Case& c, int N, int way) {
  if (way == 0) return toMat(c.dist ? c.dist->Sample(N) : mpart::StridedMatrix<double, HS>(c.gsd->Sample(N)));
  Mat dirt = Mat::Constant(c.d, N, -9e4); Buf o(dirt, way); auto v = o.view(); if (c.dist) c.dist->SampleImpl(v); else c.gsd->SampleImpl(v);
  g.check(o.padIntact(), "memory", "sampling wrote beside its result"); return toMat(v);
}
PBT_PROPERTY(reproducible, 400) {
  Case c; c.d = g.range(1, 6); drawCov(g, c, 2); make(g, c); g.nontrivial();
  unsigned seed = g.chance(1, 8) ? 0 : g.chance(1, 8) ? 4294967295u : unsigned(g.below(1u << 31)); int N = g.range(0, 40), way = int(g.below(5));
  auto set = [&](unsigned s) { if (c.dist) c.dist->SetSeed(s); else c.gsd->SetSeed(s); };
  g.note() << " seed " << seed << " N " << N;
  set(seed); Mat a = sample(g, c, N, way), a2 = sample(g, c, N, way);
  g.check(a.rows() == c.d && a.cols() == N, "shape", "of the sample matrix");
  int junk = g.range(0, 9); if (junk) sample(g, c, junk, 0);
  set(seed); Mat b = sample(g, c, N, int(g.below(5)));
  g.check(a == b, "same seed", "samples drawn after setting the same seed differ");
  Mat b2 = sample(g, c, N, 0); g.check(a2 == b2, "same seed", "the second batches drawn after setting the same seed differ");
  if (N > 0) { g.check(!(a == a2), "fresh samples", "two consecutive batches are equal"); for (int j = 0; j < N; ++j) for (int i = 0; i < c.d; ++i) g.check(std::isfinite(a(i, j)), "finite", "a sample is not finite");
    set(seed + 1 + unsigned(g.below(1000))); Mat o = sample(g, c, N, 0); g.check(!(a == o), "other seed", "another seed gives the same samples"); }
  // an equal distribution object draws the same
  Case e; e.d = c.d; e.hasM = c.hasM; e.hasC = c.hasC; 
  if (c.hasC) e.gsd = c.hasM ? std::make_shared<GSD>(vec(*c.bm), c.bc->view()) : std::make_shared<GSD>(c.bc->view()); else e.gsd = c.hasM ? std::make_shared<GSD>(vec(*c.bm)) : std::make_shared<GSD>((unsigned)c.d);
  e.gsd->SetSeed(seed); g.check(sample(g, e, N, 0) == a, "same seed", "an equal distribution with the same seed draws other samples");
}
PBT_PROPERTY(statistics, 100) {
  Case c; c.d = g.range(1, 5); drawCov(g, c, 2); make(g, c); g.nontrivial();
  unsigned seed = unsigned(g.below(1u << 31)); if (c.dist) c.dist->SetSeed(seed); else c.gsd->SetSeed(seed);
  int N = 8000, d = c.d, way = int(g.below(5)); g.note() << " seed " << seed;
  Mat x(d, N); int got = 0; while (got < N) { int k = g.coin() ? N - got : std::min<int>(N - got, g.range(500, 4000)); x.middleCols(got, k) = sample(g, c, k, way); got += k; }
  LM z = x.cast<ld>(); if (c.hasM) z.colwise() -= Eigen::Matrix<ld, -1, 1>(c.mean.cast<ld>().col(0));
  LM w = c.L.triangularView<Eigen::Lower>().solve(z); ld rn = std::sqrt(ld(N));  // standard normal if the samples are what they should be
  auto bound = [&](const char* tag, ld v, ld lim, std::string const& ctx) { ++g.comparisons; if (!(std::fabs(v) < lim)) { std::ostringstream s; s << ctx << ": standardised statistic " << double(v); g.fail(tag, s.str()); } };
  for (int i = 0; i < d; ++i) {
    ld m1 = w.row(i).sum() / N, m2 = 0, m3 = 0, m4 = 0, lag = 0; for (int j = 0; j < N; ++j) { ld q = w(i, j); m2 += q * q; m3 += q * q * q; m4 += q * q * q * q; if (j) lag += q * w(i, j - 1); }
    bound("sample mean", m1 * rn, 7, "component " + std::to_string(i)); bound("sample variance", (m2 / N - 1) * rn / std::sqrt(2.0L), 9, "component " + std::to_string(i));
    bound("sample skewness", m3 / N * rn / std::sqrt(15.0L), 10, "component " + std::to_string(i)); bound("sample kurtosis", (m4 / N - 3) * rn / std::sqrt(96.0L), 14, "component " + std::to_string(i)); bound("independence", lag / rn, 8, "consecutive samples, component " + std::to_string(i));
    for (int k = 0; k < i; ++k) { ld cr = 0, cl = 0; for (int j = 0; j < N; ++j) { cr += w(i, j) * w(k, j); if (j) cl += w(i, j) * w(k, j - 1); } bound("sample covariance", cr / rn, 8, "components " + std::to_string(i) + "," + std::to_string(k)); bound("independence", cl / rn, 8, "consecutive samples"); }
    std::vector<ld> s(N); for (int j = 0; j < N; ++j) s[j] = w(i, j); std::sort(s.begin(), s.end()); ld D = 0;
    for (int j = 0; j < N; ++j) { ld F = 0.5L * std::erfc(-s[j] / std::sqrt(2.0L)); D = std::max({D, std::fabs(F - ld(j) / N), std::fabs(F - ld(j + 1) / N)}); }
    bound("normality", D * rn, 3.6, "Kolmogorov-Smirnov, component " + std::to_string(i));
  }
}
