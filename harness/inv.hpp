// Accuracy to expect of a computed inverse.
#pragma once
#include "ops.hpp"
namespace mg {
static const double XTOL = 1e-6, YTOL = 1e-6;
/// bound on the residual T(x1,x2') - r of the computed inverse, from the root finder's tolerances and the slopes of the
/// layers; c points at this node's coefficients
inline ld lip(Node const& n, LV const& x, ld const* c, bool all) {
  // largest row sum of the Jacobian, by differences of the reference
  LV y = n.refEval(x, c); ld m = 0; LV row(y.size(), 0);
  for (int k = all ? 0 : n.din - n.dout; k < n.din; ++k) {
    LV a = x, b = x; a[k] += 2e-6L; b[k] -= 2e-6L; LV p = n.refEval(a, c), q = n.refEval(b, c);
    for (size_t i = 0; i < y.size(); ++i) row[i] += std::max(std::fabs(p[i] - y[i]), std::fabs(q[i] - y[i])) / 2e-6L;
  }
  for (auto v : row) m = std::max(m, v);
  return m;
}
inline ld resTol(Node const& n, LV const& x, ld const* c) {
  if (n.kind == "component") { ld s = 0; LV q = x; for (ld h : {-1e-6L, 0.0L, 1e-6L}) { q.back() = x.back() + h; s = std::max(s, std::fabs(n.comp.diag(q, c))); } return YTOL + XTOL * 1.5L * s; }
  if (n.kind == "triangular") { ld t = 0; int off = 0; for (auto& k : n.kids) { t = std::max(t, resTol(k, LV(x.begin(), x.begin() + k.din), c + off)); off += k.nc; } return t; }
  if (n.kind == "composed") { ld e = 0; LV y = x; int off = 0; for (auto& k : n.kids) { e = lip(k, y, c + off, true) * e * 1.5L + resTol(k, y, c + off); y = k.refEval(y, c + off); off += k.nc; } return e; }
  if (n.kind == "summarized") { LV lead(x.begin(), x.end() - 1); LV s = n.refSummary(lead); s.push_back(x.back()); return resTol(n.kids[0], s, c); }
  return 1e-9L;
}
}  // namespace mg
