// C08: one-dimensional bases against closed-form long double references.
#include "mp.hpp"
#include "ref.hpp"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
using namespace mpart;
using pbt::G;
using ref::ld;

static const double EPS = 2.220446049250313e-16;

static double drawPoint(G& g, double lb, double ub) {
  switch (g.below(9)) {
    case 0: case 1: case 2: case 3: return g.real(-4, 4);
    case 4: return g.real(-9, 9);
    case 5: return g.pick<double>({0.0, 1.0, -1.0, 0.5, -2.0, 3.0});
    case 6: return g.real(-60, 60);
    case 7: { // around the linearisation bounds
      double b = g.coin() ? lb : ub; if (!std::isfinite(b)) return g.real(-4, 4);
      switch (g.below(4)) { case 0: return b; case 1: return std::nextafter(b, -1e300); case 2: return std::nextafter(b, 1e300); default: return b + g.real(-1e-3, 1e-3); } }
    default: { double b = g.coin() ? lb : ub; if (!std::isfinite(b)) return g.real(-4, 4); return b + g.real(-20, 20); }
  }
}

template <class B>
static void checkAll(G& g, B const& b, std::function<ref::V3(int, ld)> R, double x, double lb, double ub, int maxOrder, std::string const& nm) {
  const double canary = 7.0e77;
  std::vector<double> v(maxOrder + 3, canary), d(maxOrder + 3, canary), d2(maxOrder + 3, canary), v1(maxOrder + 3, canary), d1(maxOrder + 3, canary), vOnly(maxOrder + 3, canary);
  b.EvaluateAll(vOnly.data(), maxOrder, x);
  b.EvaluateDerivatives(v1.data(), d1.data(), maxOrder, x);
  b.EvaluateSecondDerivatives(v.data(), d.data(), d2.data(), maxOrder, x);
  bool atBound = (x == lb || x == ub);
  for (int k = 0; k <= maxOrder; ++k) {
    ref::V3 r = R(k, x);
    // rounding: a few ulps per recurrence step times the magnitude of the terms; exp(-x^2/2) contributes x^2 ulps
    double xx = std::isfinite(lb) && x < lb ? lb : (std::isfinite(ub) && x > ub ? ub : x);
    double c = (16.0 + 8.0 * k + 2.0 * xx * xx) * EPS, fl = 1e-240;
    std::ostringstream cs; cs.precision(17); cs << nm << " order " << k << " x=" << x << " bounds [" << lb << "," << ub << "]";
    std::string s = cs.str();
    double tv = c * double(r.mv) + fl, td = c * double(r.md) + fl, t2 = c * double(r.md2) + fl;
    g.close("EvaluateAll", vOnly[k], double(r.v), tv, s);
    g.close("EvaluateDerivatives.val", v1[k], double(r.v), tv, s);
    g.close("EvaluateDerivatives.der", d1[k], double(r.d), td, s);
    g.close("EvaluateSecondDerivatives.val", v[k], double(r.v), tv, s);
    g.close("EvaluateSecondDerivatives.der", d[k], double(r.d), td, s);
    if (!atBound) g.close("EvaluateSecondDerivatives.der2", d2[k], double(r.d2), t2, s);
    g.close("Evaluate", b.Evaluate(k, x), double(r.v), tv, s);
    g.close("Derivative", b.Derivative(k, x), double(r.d), td, s);
    if (!atBound) g.close("SecondDerivative", b.SecondDerivative(k, x), double(r.d2), t2, s);
  }
  for (auto* w : {&v, &d, &d2, &v1, &d1, &vOnly})
    for (int j = maxOrder + 1; j < maxOrder + 3; ++j) g.check((*w)[j] == canary, "overrun", nm + ": wrote past maxOrder");
}

static int drawOrder(G& g) { return g.below(4) == 0 ? g.range(0, 45) : g.range(0, 14); }

PBT_PROPERTY(plain_basis, 6000) {
  int fam = g.range(0, 2); bool norm = g.coin();
  int n = drawOrder(g);
  const double inf = std::numeric_limits<double>::infinity();
  double x = drawPoint(g, -inf, inf);
  g.note() << "family " << fam << " norm " << norm << " maxOrder " << n << " x " << x;
  if (n >= 2 && x != 0) g.nontrivial();
  if (n > 12) g.label("order>12");
  if (fam == 0) { ProbabilistHermite b(norm); checkAll(g, b, [&](int k, ld y) { return ref::basis(ref::PROB, norm, k, y); }, x, -inf, inf, n, "ProbabilistHermite");
    for (int k = 0; k <= n; ++k) { ld w = std::sqrt(std::sqrt(2 * ref::PI) * ref::factorial(k)); g.close("Normalization", b.Normalization(k), double(w), 1e-13 * double(w), "ProbabilistHermite order " + std::to_string(k)); } }
  if (fam == 1) { PhysicistHermite b(norm); checkAll(g, b, [&](int k, ld y) { return ref::basis(ref::PHYS, norm, k, y); }, x, -inf, inf, n, "PhysicistHermite");
    for (int k = 0; k <= n; ++k) { ld w = std::sqrt(std::sqrt(ref::PI) * std::pow(ld(2), k) * ref::factorial(k)); g.close("Normalization", b.Normalization(k), double(w), 1e-13 * double(w), "PhysicistHermite order " + std::to_string(k)); } }
  if (fam == 2) { HermiteFunction b; checkAll(g, b, [&](int k, ld y) { return ref::basis(ref::HFUN, false, k, y); }, x, -inf, inf, n, "HermiteFunction"); }
}

PBT_PROPERTY(poly_derivs_only, 2000) {
  bool phys = g.coin(), norm = g.coin(); int n = drawOrder(g);
  double x = drawPoint(g, -3, 3);
  g.note() << "derivative-only entry point phys " << phys << " norm " << norm << " n " << n << " x " << x;
  if (n >= 2) g.nontrivial();
  std::vector<double> d(n + 1, 1e99);
  if (phys) PhysicistHermite(norm).EvaluateDerivatives(d.data(), n, x); else ProbabilistHermite(norm).EvaluateDerivatives(d.data(), n, x);
  for (int k = 0; k <= n; ++k) { auto r = ref::basis(phys ? ref::PHYS : ref::PROB, norm, k, x); g.close("derivs-only", d[k], double(r.d), (16 + 8 * k) * EPS * double(r.md) + 1e-240, "order " + std::to_string(k)); }
}

PBT_PROPERTY(linearized_basis, 8000) {
  int fam = g.range(0, 2); bool norm = g.coin();
  const double inf = std::numeric_limits<double>::infinity();
  double lb = g.real(-5, 2), ub = lb + 0.01 + g.real(0, 7);
  int side = g.range(0, 5); if (side == 4) lb = -inf; if (side == 5) ub = inf;
  int n = drawOrder(g);
  double x = drawPoint(g, lb, ub);
  g.note() << "linearized family " << fam << " norm " << norm << " [" << lb << "," << ub << "] maxOrder " << n << " x " << x;
  if (n >= 1 && (x < lb || x > ub)) { g.nontrivial(); g.label("outside"); } else g.label("inside");
  auto R = [&](int k, ld y) { return ref::linBasis(ref::Family(fam), fam == 2 ? false : norm, k, y, lb, ub); };
  if (fam == 0) { LinearizedBasis<ProbabilistHermite> b(ProbabilistHermite(norm), lb, ub); checkAll(g, b, R, x, lb, ub, n, "Linearized<ProbabilistHermite>"); }
  if (fam == 1) { LinearizedBasis<PhysicistHermite> b(PhysicistHermite(norm), lb, ub); checkAll(g, b, R, x, lb, ub, n, "Linearized<PhysicistHermite>"); }
  if (fam == 2) { LinearizedBasis<HermiteFunction> b(lb, ub); checkAll(g, b, R, x, lb, ub, n, "Linearized<HermiteFunction>"); }
}

// unit normalisation as an integral property, by a trapezoid rule that is spectrally accurate for these integrands
PBT_PROPERTY(orthonormal, 60) {
  int fam = g.range(0, 2); int i = g.range(0, 18), j = g.range(0, 18);
  if (fam == 2) { i += 2; j += 2; }
  g.note() << "orthonormality family " << fam << " orders " << i << "," << j; g.nontrivial();
  ProbabilistHermite pb(true); PhysicistHermite ph(true); HermiteFunction hf;
  double s = 0, h = 0.05;
  for (double x = -16; x <= 16.0001; x += h) {
    double a, b, w;
    if (fam == 0) { a = pb.Evaluate(i, x); b = pb.Evaluate(j, x); w = std::exp(-x * x / 2); }
    else if (fam == 1) { a = ph.Evaluate(i, x); b = ph.Evaluate(j, x); w = std::exp(-x * x); }
    else { a = hf.Evaluate(i, x); b = hf.Evaluate(j, x); w = 1; }
    s += h * a * b * w;
  }
  g.close("orthonormal", s, i == j ? 1.0 : 0.0, 1e-8, "inner product");
}
