// C09: quadrature rules. Oracles: closed-form integrals in long double, and for the adaptive rules the documented
// recursion (accept when coarse and fine agree, or at the deepest level) written recursively in long double.
#include "mp.hpp"
#include "ref.hpp"
#include "MParT/Quadrature.h"
#include <memory>
#include <functional>
using namespace mpart;
using pbt::G;
using ref::ld;
typedef Kokkos::HostSpace H;
typedef Kokkos::View<double*, H> View;
static const double EPS = 2.220446049250313e-16;

// ---------------------------------------------------------------- integrands with closed-form integrals
struct Fun {
  int kind = 0; ld a = 0, b = 0, c = 1; std::vector<double> p;
  ld freq = 0;  // 1/length over which it varies
  ld val(ld x) const {
    switch (kind) {
      case 0: { ld s = 0; for (size_t i = p.size(); i-- > 0;) s = s * (x - a) * b + p[i]; return s; }
      case 1: return c * std::exp(a * (x - b));
      case 2: return c * std::sin(a * x + b);
      case 3: { ld u = a * (x - b); return c / (1 + u * u); }
      case 4: { ld u = a * (x - b); return c * std::exp(-u * u); }
      default: return c * std::fabs(x - b);
    }
  }
  ld anti(ld x, ld x0) const {  // integral from x0 to x
    switch (kind) {
      case 0: { auto F = [&](ld t) { ld u = (t - a) * b, s = 0; for (size_t i = p.size(); i-- > 0;) s = s * u + p[i] / ld(i + 1); return s * u / b; }; return F(x) - F(x0); }
      case 1: return c * std::exp(a * (x0 - b)) * (a == 0 ? (x - x0) : std::expm1(a * (x - x0)) / a);
      case 2: return a == 0 ? c * std::sin(b) * (x - x0) : 2 * c * std::sin(a * (x + x0) / 2 + b) * std::sin(a * (x - x0) / 2) / a;
      case 3: return c * (std::atan(a * (x - b)) - std::atan(a * (x0 - b))) / a;
      case 4: return c * std::sqrt(acosl(-1.0L)) / 2 * (std::erf(a * (x - b)) - std::erf(a * (x0 - b))) / a;
      default: { auto F = [&](ld t) { return c * (t - b) * std::fabs(t - b) / 2; }; return F(x) - F(x0); }
    }
  }
  std::string str() const { std::ostringstream s; s.precision(17); static const char* nm[] = {"poly", "exp", "sin", "runge", "gauss", "kink"}; s << nm[kind] << "(a=" << double(a) << " b=" << double(b) << " c=" << double(c); for (double v : p) s << " " << v; s << ")"; return s.str(); }
};
static Fun drawFun(G& g, double lb, double ub, int maxDeg, bool smoothOnly) {
  double w = std::max(std::fabs(ub - lb), 1e-3), mid = 0.5 * (lb + ub);
  Fun f; f.kind = g.below(smoothOnly ? 5 : 6);
  auto where = [&] { return g.coin() ? g.pick<double>({mid, lb, ub}) : mid + w * g.real(-0.7, 0.7); };
  switch (f.kind) {
    case 0: f.a = mid; f.b = 2 / w; for (int i = 0, n = g.range(1, maxDeg + 1); i < n; ++i) f.p.push_back(g.real(-2, 2)); f.freq = (f.p.size() > 4 ? double(f.p.size()) / 2 : 1) / w; break;
    case 1: f.a = g.real(-6, 6) / w; f.b = mid; f.c = g.real(0.1, 3); f.freq = std::fabs(f.a); break;
    case 2: f.a = g.real(-40, 40) / w; f.b = g.real(-3, 3); f.c = g.real(0.1, 3); f.freq = std::fabs(f.a); break;
    case 3: case 4: f.a = (g.coin() ? g.real(0.5, 8) : g.real(8, 200)) / w; f.b = where(); f.c = g.real(-3, 3); f.freq = f.a; break;
    default: f.b = where(); f.c = g.real(-3, 3); f.freq = 1e300L; break;
  }
  return f;
}
static void drawLimits(G& g, double& lb, double& ub, bool allowReverse, bool tiny) {
  switch (g.below(5)) {
    case 0: lb = 0; ub = 1; break;
    case 1: lb = -1; ub = 1; break;
    case 2: { lb = g.real(-5, 5); ub = lb + g.pick<double>({1e-6, 1e-3, 0.1}) * (1 + g.unit()); break; }
    case 3: { lb = g.real(-1000, 1000); ub = lb + g.real(0.5, 20); break; }
    default: lb = g.real(-5, 5); ub = lb + g.real(0.01, 10);
  }
  if (tiny && g.chance(1, 12)) { double d = g.pick<double>({0.0, 5e-16, 3e-15}); lb = g.coin() ? 0 : g.real(-0.01, 0.01); ub = lb + d; }
  if (allowReverse && g.chance(1, 4)) std::swap(lb, ub);
}

// ---------------------------------------------------------------- the integrand given to the library
struct Call {
  const std::vector<Fun>* fs; double lo, hi; long* count; bool* outside;
  void operator()(double x, double* v) const {
    ++*count; double t = 4 * EPS * std::max(std::fabs(lo), std::fabs(hi)); if (!(x >= lo - t && x <= hi + t)) *outside = true;
    for (size_t i = 0; i < fs->size(); ++i) v[i] = double((*fs)[i].val(x));
  }
};
// a workspace of exactly the advertised size between canaries, filled with junk
struct Work {
  std::vector<double> w; unsigned n;
  Work(G& g, unsigned size) : w(size + 8, 12345.75), n(size) { dirty(g); }
  void dirty(G& g) { for (unsigned i = 0; i < n; ++i) w[4 + i] = g.chance(1, 4) ? std::nan("") : g.real(-1e6, 1e6); }
  double* p() { return w.data() + 4; }
  bool intact() const { for (int i = 0; i < 4; ++i) if (w[i] != 12345.75 || w[4 + n + i] != 12345.75) return false; return true; }
};
// integrates with one of the four ways of providing workspace; checks everything that does not depend on the answer
template <class Q>
static std::vector<double> integrate(G& g, Q& q, Work& wk, int mode, const std::vector<Fun>& fs, double lb, double ub, const std::string& ctx) {
  long count = 0; bool outside = false; Call c{&fs, std::min(lb, ub), std::max(lb, ub), &count, &outside};
  std::vector<double> res(fs.size() + 2, -777.25); for (size_t i = 0; i < fs.size(); ++i) res[i + 1] = g.chance(1, 3) ? std::nan("") : g.real(-100, 100);
  if (mode == 0 || mode == 1) q.Integrate(c, lb, ub, res.data() + 1);
  else if (mode == 2) { q.SetWorkspace(wk.p()); q.Integrate(c, lb, ub, res.data() + 1); }
  else q.Integrate(wk.p(), c, lb, ub, res.data() + 1);
  g.check(!outside, "points in interval", ctx + ": the integrand was evaluated outside the interval");
  g.check(count > 0, "evaluated", ctx);
  g.check(res.front() == -777.25 && res.back() == -777.25, "result length", ctx + ": wrote outside the result");
  g.check(wk.intact(), "workspace size", ctx + ": wrote outside a workspace of the advertised size");
  return std::vector<double>(res.begin() + 1, res.end() - 1);
}
static std::string fstr(const std::vector<Fun>& fs) { std::string s; for (auto& f : fs) s += f.str() + " "; return s; }

// ---------------------------------------------------------------- Clenshaw-Curtis
// exact nodes and weights of the rule with n points, from the definition (interpolatory weights via moments)
static void ccRef(int n, std::vector<ld>& x, std::vector<ld>& w) {
  const ld pi = acosl(-1.0L); x.assign(n, 0); w.assign(n, 0);
  if (n == 1) { w[0] = 2; return; }
  int N = n - 1;
  for (int i = 0; i < n; ++i) x[i] = -std::cos(pi * i / N);
  // w_i = (c_i/N) * sum_{k even, 0..N}'' 2/(1-k^2) cos(k i pi / N)   (interpolation by Chebyshev polynomials)
  for (int i = 0; i < n; ++i) {
    ld s = 0; for (int k = 0; k <= N; k += 2) { ld f = (k == 0 || k == N) ? 0.5L : 1; s += f * 2 / (1 - ld(k) * k) * std::cos(pi * k * i / N); }
    w[i] = s * ((i == 0 || i == N) ? 1 : 2) / N;
  }
}
PBT_PROPERTY(rule, 500) {
  int n = g.chance(1, 3) ? g.pick<int>({1, 2, 3, 4, 5, 6, 7, 9, 17, 33, 65, 129}) : g.range(1, 80);
  g.note() << "CC rule n=" << n; if (n > 1) g.nontrivial();
  std::vector<double> w(n + 2, -777.25), x(n + 2, -777.25);
  ClenshawCurtisQuadrature<H>::GetRule(n, w.data() + 1, x.data() + 1);
  g.check(w.front() == -777.25 && w.back() == -777.25 && x.front() == -777.25 && x.back() == -777.25, "bounds", "GetRule wrote outside its arrays");
  std::vector<ld> X, W; ccRef(n, X, W);
  ld sum = 0;
  for (int i = 0; i < n; ++i) {
    std::string c = "n=" + std::to_string(n) + " i=" + std::to_string(i);
    g.close("node", x[i + 1], double(X[i]), 4 * EPS, c);
    g.close("weight", w[i + 1], double(W[i]), 4 * EPS * (n + 4), c);
    g.check(w[i + 1] > 0, "weight positive", c);
    if (i) g.check(x[i + 1] > x[i], "nodes increase", c);
    sum += w[i + 1];
  }
  g.close("weights sum", double(sum), 2, 8 * EPS * n, "n=" + std::to_string(n));
  auto pr = ClenshawCurtisQuadrature<H>::GetRule(n);
  g.check(pr.first.size() == n && pr.second.size() == n, "GetRule sizes", "");
  for (int i = 0; i < n; ++i) g.check(pr.first[i] == w[i + 1] && pr.second[i] == x[i + 1], "GetRule overloads agree", "n=" + std::to_string(n));
}

static std::unique_ptr<ClenshawCurtisQuadrature<H>> makeCC(G& g, int n, int dim, int& mode, Work& wk, std::string& desc) {
  mode = g.below(5);
  desc = "n=" + std::to_string(n) + " maxDim=" + std::to_string(dim) + " mode=" + std::to_string(mode);
  typedef ClenshawCurtisQuadrature<H> Q;
  if (mode == 0) return std::make_unique<Q>(n, dim);
  if (mode == 1) return std::make_unique<Q>(n, dim, wk.p());
  if (mode == 4) { mode = 1; View p("p", n), w("w", n); Kokkos::deep_copy(p, 7.0); return std::make_unique<Q>(p, w, dim, wk.p()); }
  return std::make_unique<Q>(n, dim, nullptr);
}
PBT_PROPERTY(cc_polynomial, 700) {
  int n = g.chance(1, 3) ? g.pick<int>({1, 2, 3, 4, 5, 8, 9, 17}) : g.range(1, 24), dim = g.range(1, 5);
  Work wk(g, ClenshawCurtisQuadrature<H>::GetWorkspaceSize(dim)); int mode; std::string d;
  auto q = makeCC(g, n, dim, mode, wk, d);
  int reps = g.range(1, 3);
  for (int r = 0; r < reps; ++r) {
    int fd = g.coin() ? dim : g.range(1, dim); if (fd != dim || r) q->SetDim(fd);
    double lb, ub; drawLimits(g, lb, ub, true, true);
    double w = std::fabs(ub - lb); std::vector<Fun> fs(fd); if (ub < lb) g.label("reversed limits");
    for (auto& f : fs) { f.kind = 0; f.a = 0.5 * (lb + ub); f.b = w > 1e-10 ? 2 / w : 1; int deg = g.coin() ? n - 1 : g.range(0, n - 1); for (int i = 0; i <= deg; ++i) f.p.push_back(g.real(-2, 2)); }
    std::ostringstream s; s.precision(17); s << d << " [" << lb << "," << ub << "] " << fstr(fs); std::string ctx = s.str();
    g.note() << ctx << "; "; if (n > 1) g.nontrivial();
    if (w < 1e-10) g.label("tiny interval");
    auto res = integrate(g, *q, wk, mode, fs, lb, ub, ctx);
    for (int i = 0; i < fd; ++i) {
      double mag = 0; for (double p : fs[i].p) mag += std::fabs(p);
      // nodes are rounded to |lb|,|ub|: a shift of eps*|b| in a point scaled by 2/w changes the value by ~ deg^2*that
      double shift = EPS * std::max(std::fabs(lb), std::fabs(ub)) * 2 / std::max(w, 1e-10) * fs[i].p.size() * fs[i].p.size();
      g.close("exact for polynomials", res[i], double(fs[i].anti(ub, lb)), w * mag * (EPS * (40 + 6 * n) + 8 * shift) + (w < 4e-15 ? w * mag * 4 : 0) + 1e-300, ctx + " output " + std::to_string(i));
    }
    // another integrand, another interval: nothing may carry over
    if (g.coin()) wk.dirty(g);
  }
}
// CC applied to anything: the weighted sum over the mapped nodes
PBT_PROPERTY(cc_general, 500) {
  int n = g.range(1, 40), dim = g.range(1, 4);
  Work wk(g, ClenshawCurtisQuadrature<H>::GetWorkspaceSize(dim)); int mode; std::string d;
  auto q = makeCC(g, n, dim, mode, wk, d);
  std::vector<ld> X, W; ccRef(n, X, W);
  for (int r = 0, reps = g.range(1, 3); r < reps; ++r) {
    double lb, ub; drawLimits(g, lb, ub, true, false); std::vector<Fun> fs(dim); for (auto& f : fs) f = drawFun(g, lb, ub, 8, false);
    std::ostringstream s; s.precision(17); s << d << " [" << lb << "," << ub << "] " << fstr(fs); std::string ctx = s.str();
    g.note() << ctx << "; "; if (n > 1) g.nontrivial();
    auto res = integrate(g, *q, wk, mode, fs, lb, ub, ctx);
    for (int i = 0; i < dim; ++i) {
      ld sum = 0, mag = 0, h = (ld(ub) - lb) / 2, m = (ld(ub) + lb) / 2, slope = 0;
      ld dx = 4 * EPS * std::max(std::fabs(lb), std::fabs(ub));
      for (int k = 0; k < n; ++k) { ld v = fs[i].val(m + h * X[k]); sum += h * W[k] * v; mag += std::fabs(h * W[k] * v); slope += std::fabs(h * W[k]) * (std::fabs(fs[i].val(m + h * X[k] + dx) - v) + std::fabs(fs[i].val(m + h * X[k] - dx) - v)); }
      g.close("weighted sum", res[i], double(sum), double(mag) * EPS * (40 + 6 * n) + 4 * double(slope) + 1e-300 + EPS * std::fabs(double(h)) * 40 * n * double(std::fabs(fs[i].c)), ctx);
    }
  }
}

// ---------------------------------------------------------------- adaptive rules
struct Model {
  const std::vector<Fun>& fs; int maxSub, minSub, metric; double absTol, relTol; bool tinyInterval; ld dxRel;
  std::function<void(const Fun&, ld, ld, ld&, ld&)> rule;  // coarse and fine integral over an interval
  bool ambiguous = false, cut = false; long leaves = 0; int deepest = 0; ld errSum = 0; std::vector<ld> res, mag;
  ld rnd(ld a, ld b) const { return 0; }
  void run(ld a, ld b, int level) {
    size_t n = fs.size(); std::vector<ld> C(n), F(n);
    for (size_t i = 0; i < n; ++i) rule(fs[i], a, b, C[i], F[i]);
    ld err = 0, refv = 0;
    auto comb = [&](ld e, ld c) {
      if (metric == QuadError::NormInf) { err = std::max(err, std::fabs(e)); refv = std::max(refv, std::fabs(c)); }
      else if (metric == QuadError::Norm2) { err += e * e; refv += c * c; }
      else { err += std::fabs(e); refv += std::fabs(c); } };
    for (size_t i = 0; i < (metric == QuadError::First ? 1 : n); ++i) comb(F[i] - C[i], C[i]);
    if (metric == QuadError::Norm2) { err = std::sqrt(err); refv = std::sqrt(refv); }
    ld tol = std::max(ld(relTol) * refv, ld(absTol));
    ld size = 0; for (size_t i = 0; i < n; ++i) size += std::fabs(b - a) * (std::fabs(fs[i].val(a)) + std::fabs(fs[i].val(b)) + std::fabs(fs[i].val((a + b) / 2)) + std::fabs(fs[i].c));
    bool last = level == maxSub - 1;
    if (!last && level >= minSub && std::fabs(err - tol) <= 1e-3L * tol + 1e-13L * size) ambiguous = true;
    if (((err < tol || last) && level >= minSub) || tinyInterval) {
      if (!(err < tol)) cut = true;
      ++leaves; deepest = std::max(deepest, level); errSum += std::max(err, tol);
      for (size_t i = 0; i < n; ++i) { res[i] += F[i]; mag[i] += std::fabs(b - a) * (std::fabs(fs[i].val(a)) + std::fabs(fs[i].val(b)) + std::fabs(fs[i].val((a + b) / 2)) + std::fabs(fs[i].c)); }
      return;
    }
    if (leaves > 60000) return;
    run(a, (a + b) / 2, level + 1); run((a + b) / 2, b, level + 1);
  }
};
template <class MakeQ, class Rule>
static void adaptive(G& g, const char* name, MakeQ make, std::function<unsigned(int, int)> wsize, Rule rule, ld reach) {
  int maxSub = g.pick<int>({1, 2, 3, 6, 10, 15, 20, 31}), minSub = g.coin() ? 0 : g.range(0, std::min(maxSub - 1, 5)), dim = g.range(1, 5);
  double absTol = std::pow(10.0, g.range(-11, -2)), relTol = g.chance(1, 4) ? 0.0 : std::pow(10.0, g.range(-11, -2));
  int metric = g.below(4), mode = g.below(4);
  Work wk(g, wsize(maxSub, dim));
  auto q = make(maxSub, dim, mode == 0, mode == 1 ? wk.p() : nullptr, absTol, relTol, QuadError::Type(metric), minSub);
  std::ostringstream d; d.precision(17);
  d << name << " maxSub=" << maxSub << " minSub=" << minSub << " maxDim=" << dim << " absTol=" << absTol << " relTol=" << relTol << " metric=" << metric << " mode=" << mode << " ";
  for (int r = 0, reps = g.range(1, 3); r < reps; ++r) {
    int fd = g.chance(2, 3) ? dim : g.range(1, dim); if (fd != dim || r) q->SetDim(fd);
    double lb, ub; drawLimits(g, lb, ub, true, true);
    bool smooth = g.coin(); std::vector<Fun> fs(fd); for (auto& f : fs) f = drawFun(g, lb, ub, 8, smooth);
    std::ostringstream s; s.precision(17); s << d.str() << " [" << lb << "," << ub << "] " << fstr(fs); std::string ctx = s.str();
    g.note() << ctx << "; ";
    Model m{fs, maxSub, minSub, metric, absTol, relTol, std::fabs(ub - lb) < 1e-14, 0, rule}; m.res.assign(fd, 0); m.mag.assign(fd, 0);
    m.run(lb, ub, 0);
    if (m.leaves > 60000) { g.discard("too many leaves"); }
    if (m.leaves > 1) g.nontrivial();
    g.label(m.tinyInterval ? "tiny interval" : ub < lb ? "reversed" : m.cut ? "cut off at the deepest level" : m.leaves > 8 ? "many leaves" : "few leaves");
    auto res = integrate(g, *q, wk, mode, fs, lb, ub, ctx);
    ld w = std::fabs(ld(ub) - lb), pos = EPS * std::max(std::fabs(lb), std::fabs(ub));
    for (int i = 0; i < fd; ++i) {
      std::string c = ctx + " output " + std::to_string(i);
      // rounding: sums of leaves, and points rounded to the size of the limits (moves a value by slope*pos)
      ld slope = fs[i].kind == 5 ? std::fabs(fs[i].c) : (std::min(fs[i].freq, 1e6L) * 3 * (fs[i].kind == 0 ? fs[i].p.size() : 1));
      ld big = m.mag[i] + w * std::fabs(fs[i].c);
      ld rnd = 200 * EPS * big * (1 + m.deepest) + 20 * pos * slope * big + 1e-300L;
      if (m.tinyInterval) rnd += 4 * big;
      if (!m.ambiguous) g.close("documented recursion", res[i], double(m.res[i]), double(rnd), c);
      else g.label("knife edge");
      // accuracy: when every leaf met its tolerance and the integrand is resolved on the coarsest accepted interval
      ld f = fs[i].freq, h = w / std::pow(2.0L, minSub);
      if (!m.ambiguous && !m.cut && !m.tinyInterval && f * h <= reach && metric != QuadError::First) {
        g.label("resolved");
        g.close("within tolerance", res[i], double(fs[i].anti(ub, lb)), double(m.errSum + rnd), c);
      }
    }
    if (ub != lb && g.coin() && !m.ambiguous) {  // swapped limits
      auto rev = integrate(g, *q, wk, mode, fs, ub, lb, ctx + " swapped");
      for (int i = 0; i < fd; ++i) { ld big = m.mag[i] + w * std::fabs(fs[i].c); ld slope = std::min(fs[i].freq, 1e6L) * 3 * std::max<size_t>(1, fs[i].p.size()); g.close("swapped limits", rev[i], -res[i], double(400 * EPS * big * (1 + m.deepest) + 40 * pos * slope * big + (m.tinyInterval ? 8 * big : 0) + 1e-300L), ctx + " output " + std::to_string(i)); }
    }
    if (g.coin()) {  // the same integral once more, after others and from a dirty workspace, is the same number
      if (mode != 0) wk.dirty(g);
      auto again = integrate(g, *q, wk, mode, fs, lb, ub, ctx + " again");
      for (int i = 0; i < fd; ++i) g.check(again[i] == res[i], "repeatable", ctx + ": integrating again gave another number for output " + std::to_string(i));
    }
  }
}
PBT_PROPERTY(adaptive_simpson, 500) {
  typedef AdaptiveSimpson<H> Q;
  adaptive(g, "AdaptiveSimpson",
    [](int ms, int dim, bool internal, double* w, double at, double rt, QuadError::Type e, int mn) { return internal ? std::make_unique<Q>(ms, dim, at, rt, e, mn) : std::make_unique<Q>(ms, dim, w, at, rt, e, mn); },
    [](int ms, int dim) { return Q::GetWorkspaceSize(ms, dim); },
    [](const Fun& f, ld a, ld b, ld& C, ld& F) { ld m = (a + b) / 2, l = f.val(a), r = f.val(b), c = f.val(m), h = b - a; C = h / 6 * (l + 4 * c + r); F = h / 12 * (l + 4 * f.val((a + m) / 2) + 2 * c + 4 * f.val((m + b) / 2) + r); }, 1.0L);
}
PBT_PROPERTY(adaptive_cc, 500) {
  typedef AdaptiveClenshawCurtis<H> Q;
  int level = g.range(1, 5); bool views = g.coin();
  auto X = std::make_shared<std::vector<ld>>(), W = std::make_shared<std::vector<ld>>(), X2 = std::make_shared<std::vector<ld>>(), W2 = std::make_shared<std::vector<ld>>();
  ccRef((1 << level) + 1, *X, *W); ccRef((1 << (level + 1)) + 1, *X2, *W2);
  std::string nm = "AdaptiveClenshawCurtis level=" + std::to_string(level) + (views ? " (views)" : "");
  adaptive(g, nm.c_str(),
    [=](int ms, int dim, bool internal, double* w, double at, double rt, QuadError::Type e, int mn) {
      if (internal) return std::make_unique<Q>(level, ms, dim, at, rt, e, mn);
      if (!views) return std::make_unique<Q>(level, ms, dim, w, at, rt, e, mn);
      int n = (1 << level) + 1, m = (1 << (level + 1)) + 1; View a("a", n), b("b", n), c("c", m), d("d", m);
      return std::make_unique<Q>(a, b, c, d, ms, dim, w, at, rt, e, mn); },
    [](int ms, int dim) { return Q::GetWorkspaceSize(ms, dim); },
    [=](const Fun& f, ld a, ld b, ld& C, ld& F) { ld h = (b - a) / 2, m = (a + b) / 2; C = F = 0; for (size_t i = 0; i < X->size(); ++i) C += h * (*W)[i] * f.val(m + h * (*X)[i]); for (size_t i = 0; i < X2->size(); ++i) F += h * (*W2)[i] * f.val(m + h * (*X2)[i]); }, 1.0L);
}

