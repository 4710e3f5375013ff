// Independent reference definitions (long double, closed forms) used as oracles.
#pragma once
#include <cmath>
#include <vector>
namespace ref {
typedef long double ld;
const ld PI = 3.141592653589793238462643383279502884L;

struct V3 { ld v, d, d2; ld mv, md, md2; };  // value, first, second derivative and magnitude bounds of the terms involved

// p_n for probabilist (a=1) or physicist (a=2) Hermite, with majorants
inline void hermiteAll(int a, int n, ld x, std::vector<ld>& p, std::vector<ld>& m) {
  p.assign(n + 1, 0); m.assign(n + 1, 0);
  p[0] = 1; m[0] = 1;
  if (n > 0) { p[1] = a * x; m[1] = std::fabs(a * x) ; }
  for (int k = 2; k <= n; ++k) { p[k] = a * x * p[k - 1] - a * ld(k - 1) * p[k - 2]; m[k] = std::fabs(a * x) * m[k - 1] + a * ld(k - 1) * m[k - 2]; }
}
inline ld factorial(int n) { ld f = 1; for (int i = 2; i <= n; ++i) f *= i; return f; }

enum Family { PROB = 0, PHYS = 1, HFUN = 2 };

inline V3 hermite(int a, int n, ld x, bool normalize) {
  std::vector<ld> p, m; hermiteAll(a, n, x, p, m);
  V3 r; r.v = p[n]; r.mv = m[n];
  r.d = n >= 1 ? a * ld(n) * p[n - 1] : 0; r.md = n >= 1 ? a * ld(n) * m[n - 1] : 0;
  r.d2 = n >= 2 ? ld(a) * a * ld(n) * ld(n - 1) * p[n - 2] : 0; r.md2 = n >= 2 ? ld(a) * a * ld(n) * ld(n - 1) * m[n - 2] : 0;
  if (normalize) {
    ld nrm = a == 1 ? std::sqrt(std::sqrt(2 * PI) * factorial(n)) : std::sqrt(std::sqrt(PI) * std::pow(ld(2), n) * factorial(n));
    r.v /= nrm; r.d /= nrm; r.d2 /= nrm; r.mv /= nrm; r.md /= nrm; r.md2 /= nrm;
  }
  return r;
}
inline V3 hermiteFunction(int order, ld x) {
  V3 r{0, 0, 0, 0, 0, 0};
  if (order == 0) { r.v = 1; r.mv = 1; return r; }
  if (order == 1) { r.v = x; r.d = 1; r.mv = std::fabs(x); r.md = 1; return r; }
  int n = order - 2;
  std::vector<ld> p, m; hermiteAll(2, n, x, p, m);
  ld s = std::exp(-x * x / 2) / std::sqrt(std::pow(ld(2), n) * factorial(n) * std::sqrt(PI));
  ld dp = n >= 1 ? 2 * ld(n) * p[n - 1] : 0, dm = n >= 1 ? 2 * ld(n) * m[n - 1] : 0;
  r.v = s * p[n]; r.mv = s * m[n];
  r.d = s * (dp - x * p[n]); r.md = s * (dm + std::fabs(x) * m[n]);
  r.d2 = (x * x - 2 * n - 1) * r.v; r.md2 = (x * x + 2 * n + 1) * r.mv;
  return r;
}
inline V3 basis(Family f, bool norm, int order, ld x) {
  if (f == PROB) return hermite(1, order, x, norm);
  if (f == PHYS) return hermite(2, order, x, norm);
  return hermiteFunction(order, x);
}
/// linearised outside [lb,ub]
inline V3 linBasis(Family f, bool norm, int order, ld x, ld lb, ld ub) {
  if (x >= lb && x <= ub) return basis(f, norm, order, x);
  ld b = x < lb ? lb : ub;
  V3 r = basis(f, norm, order, b), o;
  o.v = r.v + r.d * (x - b); o.d = r.d; o.d2 = 0;
  o.mv = r.mv + r.md * std::fabs(x - b); o.md = r.md; o.md2 = 0;
  return o;
}
inline ld softplus(ld x) { return x > 0 ? x + std::log1p(std::exp(-x)) : std::log1p(std::exp(x)); }
inline ld logistic(ld x) { return x > 0 ? 1 / (1 + std::exp(-x)) : std::exp(x) / (1 + std::exp(x)); }
}  // namespace ref
