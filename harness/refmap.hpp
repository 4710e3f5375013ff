// Independent long double reference of map components, expansions and compound maps.
#pragma once
#include "ref.hpp"
#include <functional>
#include <memory>
#include <string>
#include <vector>
namespace ref {
typedef std::vector<ld> Vec;

struct Opts {
  Family fam = PROB; bool norm = true;
  bool lin = false; ld lb = 0, ub = 0;  // linearised outside [lb,ub]
  bool expo = false;                    // positive function: exp or softplus
  int cc = 0;                           // >0: integral replaced by the cc-point Clenshaw-Curtis rule; 0: exact integral
  bool contDeriv = true;
  ld nugget = 0;
};
/// factor of one dimension: an order of zero contributes one (normalised or not), whatever the representation of the set
inline V3 b1(Opts const& o, int k, ld x) { if (k == 0) return V3{1, 0, 0, 1, 0, 0}; return o.lin ? linBasis(o.fam, o.norm, k, x, o.lb, o.ub) : basis(o.fam, o.norm, k, x); }
inline ld pos(Opts const& o, ld x) { return o.expo ? std::exp(x) : softplus(x); }
inline ld dpos(Opts const& o, ld x) { return o.expo ? std::exp(x) : logistic(x); }

/// weights and nodes of the n-point Clenshaw-Curtis rule on [0,1], from the closed formula
inline void ccRule(int n, Vec& t, Vec& w) {
  t.assign(n, 0); w.assign(n, 0);
  if (n == 1) { t[0] = 0.5L; w[0] = 1; return; }
  int N = n - 1;
  for (int k = 0; k <= N; ++k) {
    ld s = 0;
    for (int j = 1; j <= N / 2; ++j) s += (2 * j == N ? 1.0L : 2.0L) / (4.0L * j * j - 1) * std::cos(2 * j * k * PI / N);
    ld c = (k == 0 || k == N) ? 1 : 2;
    w[k] = c / N * (1 - s) / 2;
    t[k] = (1 + std::cos(k * PI / N)) / 2;
  }
}
inline void glRule(int n, Vec& t, Vec& w) {
  t.assign(n, 0); w.assign(n, 0);
  for (int i = 0; i < n; ++i) {
    ld x = std::cos(PI * (i + 0.75L) / (n + 0.5L)), dp = 1;
    for (int it = 0; it < 60; ++it) {
      ld p0 = 1, p1 = x;
      for (int k = 2; k <= n; ++k) { ld p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
      dp = n * (x * p1 - p0) / (x * x - 1);
      ld dx = p1 / dp; x -= dx;
      if (std::fabs(dx) < 1e-20L) break;
    }
    t[i] = (1 + x) / 2; w[i] = 1 / ((1 - x * x) * dp * dp);
  }
}
template <class F> ld glPanel(F const& f, ld a, ld b) {
  static Vec t, w; if (t.empty()) glRule(20, t, w);
  ld s = 0; for (int i = 0; i < 20; ++i) s += w[i] * f(a + (b - a) * t[i]);
  return s * (b - a);
}
template <class F> ld glAdapt(F const& f, ld a, ld b, ld whole, int depth) {
  ld m = (a + b) / 2, l = glPanel(f, a, m), r = glPanel(f, m, b);
  if (depth <= 0 || std::fabs(l + r - whole) <= 1e-16L * (std::fabs(l) + std::fabs(r)) + 1e-19L) return l + r;
  return glAdapt(f, a, m, l, depth - 1) + glAdapt(f, m, b, r, depth - 1);
}
template <class F> ld integrate(F const& f, ld a, ld b) { return a == b ? 0 : glAdapt(f, a, b, glPanel(f, a, b), 12); }

typedef std::vector<std::vector<unsigned>> MSet;

struct Comp {
  Opts o; MSet m; int dim = 1;
  /// a_k(x_<d): expansion = sum_k a_k phi_k(x_d); also magnitudes
  void collapse(Vec const& x, ld const* c, Vec& a, Vec& mag) const {
    unsigned maxk = 0; for (auto& q : m) for (unsigned v : q) maxk = std::max(maxk, v);
    std::vector<std::vector<V3>> tab(dim - 1);
    for (int i = 0; i + 1 < dim; ++i) for (unsigned k = 0; k <= maxk; ++k) tab[i].push_back(b1(o, int(k), x[i]));
    a.assign(maxk + 1, 0); mag.assign(maxk + 1, 0);
    for (size_t i = 0; i < m.size(); ++i) {
      ld p = c[i], q = std::fabs(c[i]);
      for (int j = 0; j + 1 < dim; ++j) { p *= tab[j][m[i][j]].v; q *= tab[j][m[i][j]].mv; }
      a[m[i][dim - 1]] += p; mag[m[i][dim - 1]] += q;
    }
  }
  static ld sum(Opts const& o, Vec const& a, ld t, int which) {
    ld s = 0;
    for (size_t k = 0; k < a.size(); ++k) if (a[k] != 0) { V3 v = b1(o, int(k), t); s += a[k] * (which == 0 ? v.v : which == 1 ? v.d : v.d2); }
    return s;
  }
  struct Out { ld v; ld mag; ld integral; };
  Out eval(Vec const& x, ld const* c) const {
    Vec a, mag; collapse(x, c, a, mag);
    ld xd = x[dim - 1];
    Out r{0, 0, 0};
    for (size_t k = 0; k < a.size(); ++k) { V3 v = b1(o, int(k), 0.0L); r.v += a[k] * v.v; r.mag += mag[k] * v.mv; }
    auto f = [&](ld t) { return pos(o, sum(o, a, t, 1)) + o.nugget; };
    ld I = 0;
    if (o.cc > 0) { Vec t, w; ccRule(o.cc, t, w); for (int i = 0; i < o.cc; ++i) I += w[i] * f(xd * t[i]); I *= xd; }
    else I = exact(a, xd);
    r.v += I; r.mag += std::fabs(I); r.integral = I;
    return r;
  }
  ld exact(Vec const& a, ld xd) const {
    auto f = [&](ld t) { return pos(o, sum(o, a, t, 1)) + o.nugget; };
    Vec cuts{0};
    if (o.lin) { ld lo = std::min<ld>(0, xd), hi = std::max<ld>(0, xd); Vec in; for (ld b : {o.lb, o.ub}) if (b > lo && b < hi) in.push_back(b);
      if (in.size() == 2 && ((xd > 0) != (in[0] < in[1]))) std::swap(in[0], in[1]); for (ld b : in) cuts.push_back(b); }
    cuts.push_back(xd);
    ld I = 0; for (size_t i = 0; i + 1 < cuts.size(); ++i) I += integrate(f, cuts[i], cuts[i + 1]);
    return I;
  }
  /// difference between the selected rule and the exact integral
  ld quadError(Vec const& x, ld const* c) const {
    if (o.cc <= 0) return 0;
    Vec a, mag; collapse(x, c, a, mag);
    return std::fabs(eval(x, c).integral - exact(a, x[dim - 1]));
  }
  /// the diagonal derivative the component defines (continuous or of the quadrature rule)
  ld diag(Vec const& x, ld const* c) const {
    Vec a, mag; collapse(x, c, a, mag);
    ld xd = x[dim - 1];
    if (o.contDeriv || o.cc <= 0) return pos(o, sum(o, a, xd, 1)) + o.nugget;
    Vec t, w; ccRule(o.cc, t, w); ld s = 0;
    for (int i = 0; i < o.cc; ++i) { ld df = sum(o, a, xd * t[i], 1); s += w[i] * (pos(o, df) + o.nugget + xd * t[i] * dpos(o, df) * sum(o, a, xd * t[i], 2)); }
    return s;
  }
  /// sum of the magnitudes of the terms of df at x (what rounding errors are relative to)
  ld dfMag(Vec const& x, ld const* c) const { Vec a, mag; collapse(x, c, a, mag); ld s = 0; for (size_t k = 0; k < mag.size(); ++k) s += mag[k] * b1(o, int(k), x[dim - 1]).md; return s; }
  ld df(Vec const& x, ld const* c) const { Vec a, mag; collapse(x, c, a, mag); return sum(o, a, x[dim - 1], 1); }
};

struct Expansion {
  Opts o; MSet m; int dim = 1, out = 1;
  Vec eval(Vec const& x, ld const* c, Vec* mag = nullptr) const {
    Vec y(out, 0); if (mag) mag->assign(out, 0);
    for (size_t i = 0; i < m.size(); ++i) {
      ld p = 1, q = 1; for (int j = 0; j < dim; ++j) { V3 v = b1(o, int(m[i][j]), x[j]); p *= v.v; q *= v.mv; }
      for (int k = 0; k < out; ++k) { y[k] += c[k * m.size() + i] * p; if (mag) (*mag)[k] += std::fabs(c[k * m.size() + i]) * q; }
    }
    return y;
  }
};

/// derivative of a long double function at 0 from two extrapolated central differences of very different widths, which
/// disagree visibly near a kink; err estimates the error
template <class F> inline void deriv(F const& f, ld h0, ld& val, ld& err) {
  const ld hs[5] = {1, 0.5L, 0.25L, 0.01L, 0.005L};
  ld D[5], S[5], f0 = f(0.0L);
  for (int i = 0; i < 5; ++i) { ld h = h0 * hs[i], p = f(h), m = f(-h); D[i] = (p - m) / (2 * h); S[i] = (p - 2 * f0 + m) / h; }
  ld a1 = (4 * D[1] - D[0]) / 3, a2 = (4 * D[2] - D[1]) / 3, a = (16 * a2 - a1) / 15;
  val = (4 * D[4] - D[3]) / 3;
  err = std::max(std::max(std::fabs(a - val), 0.05L * std::fabs(a1 - a2)), std::fabs(S[4] - S[3] / 2));
}
}  // namespace ref
