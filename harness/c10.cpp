// C10: positive functions and sigmoids against long double references, plus monotonicity and inverse relations.
#include "mp.hpp"
#include "ref.hpp"
#include "MParT/PositiveBijectors.h"
#include "MParT/Sigmoid.h"
using namespace mpart;
using pbt::G;
using ref::ld;
static const double EPS = 2.220446049250313e-16;

static double drawArg(G& g, double lo, double hi) {
  switch (g.below(6)) {
    case 0: return g.real(-3, 3);
    case 1: return g.real(-40, 40) < lo ? lo : g.real(-40, 40);
    case 2: return g.real(lo, hi);
    case 3: return g.pick<double>({0.0, 1.0, -1.0, -20.0, -36.5, -37.0, -50.0, -100.0, 30.0, 36.7, 50.0, -0.0, 1e-8, -1e-8, 1e-300});
    case 4: { double m = std::pow(10.0, g.range(-12, 2)); return (g.coin() ? 1 : -1) * m * (1 + g.unit()); }
    default: return g.real(-700, -30);
  }
}
static std::string at(const char* n, double x) { std::ostringstream s; s.precision(17); s << n << " x=" << x; return s.str(); }

struct Ref { ld v, d, d2; };
static Ref softRef(ld x) { Ref r; r.v = ref::softplus(x); r.d = ref::logistic(x); r.d2 = ref::logistic(x) * ref::logistic(-x); return r; }

template <class F>
static void checkPos(G& g, const char* nm, double x, Ref r) {
  double v = F::Evaluate(x), d = F::Derivative(x), d2 = F::SecondDerivative(x);
  std::string s = at(nm, x);
  // exp(x) has a condition number |x|: allow |x| ulps on top of a constant
  double c = (16 + 4 * std::fabs(x)) * EPS;
  g.check(v > 0, "positive", s + " is not positive: " + std::to_string(v));
  g.check(d >= 0, "derivative sign", s);
  g.close("Evaluate", v, double(r.v), c * double(r.v) + 2.3e-308, s);  // below the normal range only the range is judged
  g.close("Derivative", d, double(r.d), c * double(r.d) + 2.3e-308, s);  // below the normal range only the range is judged
  g.close("SecondDerivative", d2, double(r.d2), c * double(r.d2) + 2.3e-308, s);  // below the normal range only the range is judged
}

PBT_PROPERTY(softplus, 20000) {
  double x = drawArg(g, -700, 1e6);
  g.note() << "softplus x=" << x;
  if (std::fabs(x) > 30) { g.nontrivial(); g.label(x > 0 ? "upper tail" : "lower tail"); } else if (x != 0) { g.nontrivial(); g.label("centre"); }
  checkPos<SoftPlus>(g, "SoftPlus", x, softRef(x));
  // inverse in both directions: x -> g(x) -> x and y -> ginv(y) -> y
  double v = SoftPlus::Evaluate(x), back = SoftPlus::Inverse(v);
  // d(inverse)/dv = 1/g'(x): rounding of v is amplified by v/g'(x); for very negative x v/g' -> 1
  double amp = v / std::max(double(softRef(x).d), 1e-300);
  g.close("Inverse(Evaluate)", back, x, EPS * (32 * amp + 16 * std::fabs(x)) + 1e-300, at("SoftPlus", x));
  double y = std::fabs(x) > 0 ? std::fabs(x) : 1.0;
  double xi = SoftPlus::Inverse(y);
  ld want = y > 40 ? ld(y) + std::log(-std::expm1(-ld(y))) : std::log(std::expm1(ld(y)));
  g.close("Inverse", xi, double(want), EPS * (16 * std::fabs(double(want)) + 16 * std::max(1.0, std::min(y, 50.0))), at("SoftPlus inverse", y));
}
PBT_PROPERTY(exponential, 8000) {
  double x = drawArg(g, -700, 700); if (x > 700) x = 700;
  g.note() << "exp x=" << x; if (x != 0) g.nontrivial();
  ld e = std::exp(ld(x));
  checkPos<Exp>(g, "Exp", x, Ref{e, e, e});
  g.close("Inverse(Evaluate)", Exp::Inverse(Exp::Evaluate(x)), x, EPS * (8 + 8 * std::fabs(x)), at("Exp", x));
}
// nondecreasing on ordered pairs, including pairs one ulp to a few percent apart
PBT_PROPERTY(increasing, 20000) {
  double x = drawArg(g, -700, 700), y;
  if (x > 700) x = 700;
  switch (g.below(3)) { case 0: y = std::nextafter(x, 1e9); break; case 1: y = x + std::fabs(x) * 1e-14 * (1 + g.unit()); break; default: y = x + g.real(0, 10); }
  if (y > 705) y = x;
  g.note() << "pair " << x << " <= " << y; if (y > x) g.nontrivial();
  // rounding noise in a pair closer than a few ulps may reorder by an ulp
  double rel = (1 - 8 * EPS * (1 + std::fabs(x)));
  g.check(SoftPlus::Evaluate(y) >= SoftPlus::Evaluate(x) * rel, "softplus increasing", at("SoftPlus", x));
  g.check(SoftPlus::Derivative(y) >= SoftPlus::Derivative(x) * rel, "softplus convex", at("SoftPlus", x));
  g.check(Exp::Evaluate(y) >= Exp::Evaluate(x) * rel, "exp increasing", at("Exp", x));
  if (y > x + 1e-9 * std::fabs(x) + 1e-300 && y - x > 1e-6 && x > -600) g.check(SoftPlus::Evaluate(y) > SoftPlus::Evaluate(x) || x > 700, "softplus strictly increasing", at("SoftPlus", x));
  g.check(Logistic::Evaluate(y) >= Logistic::Evaluate(x) - 2 * EPS, "logistic increasing", at("Logistic", x));
}
PBT_PROPERTY(logistic, 8000) {
  double x = drawArg(g, -700, 700);
  g.note() << "logistic x=" << x; if (x != 0) g.nontrivial();
  double v = Logistic::Evaluate(x); ld r = ref::logistic(x);
  g.close("Evaluate", v, double(r), 4 * EPS, at("Logistic", x));
  g.close("Derivative", Logistic::Derivative(x), double(r * ref::logistic(-ld(x))), 8 * EPS, at("Logistic", x));
  g.check(v >= 0 && v <= 1, "range", at("Logistic", x));
  if (std::fabs(x) < 15) g.close("Inverse(Evaluate)", Logistic::Inverse(v), x, 16 * EPS / double(r * ref::logistic(-ld(x))) + 16 * EPS * std::fabs(x), at("Logistic", x));
  double y = 1e-9 + g.unit() * (1 - 2e-9);
  g.close("Evaluate(Inverse)", Logistic::Evaluate(Logistic::Inverse(y)), y, 32 * EPS, at("Logistic y", y));
}
PBT_PROPERTY(sigmoid_sum, 1500) {
  typedef Kokkos::HostSpace HS;
  int n = g.chance(1, 12) ? g.range(7, 300) : g.range(1, 6), N = g.range(1, 9);
  Kokkos::View<double*, HS> cen("c", n), wid("w", n), co("co", n);
  bool mono = g.coin();
  for (int i = 0; i < n; ++i) { cen(i) = g.real(-4, 4); wid(i) = mono ? 0.05 + g.real(0, 6) : g.real(-6, 6); co(i) = mono ? g.real(0, 3) : g.real(-3, 3); }
  Sigmoid1d<HS, Logistic> f{StridedVector<const double, HS>(cen), StridedVector<const double, HS>(wid)};
  g.check(f.numCoeffs == (unsigned)n && f.inputDim == 1 && f.outputDim == 1, "dims", "Sigmoid1d dimensions");
  f.SetCoeffs(Kokkos::View<const double*, HS>(co));
  Kokkos::View<double**, Kokkos::LayoutRight, HS> x("x", 1, N), s("s", 1, N);
  double cur = g.real(-9, 3);
  for (int j = 0; j < N; ++j) { x(0, j) = cur; cur += g.real(0, 3); s(0, j) = g.real(-3, 3); }
  StridedMatrix<const double, HS> xs = x, ss = s;
  g.note() << "sum of " << n << " sigmoids at " << N << " points, monotone " << mono; if (n > 1) g.nontrivial(); g.label(mono ? "monotone" : "signed");
  StridedMatrix<double, HS> v = f.Evaluate(xs), gr = f.Gradient(ss, xs), cg = f.CoeffGrad(ss, xs);
  double amax = 1; for (int i = 0; i < n; ++i) amax += std::fabs(co(i)) * (1 + std::fabs(wid(i)) * 30);
  for (int j = 0; j < N; ++j) {
    ld val = 0, der = 0;
    for (int i = 0; i < n; ++i) { ld u = ld(wid(i)) * (ld(x(0, j)) - cen(i)); val += co(i) * ref::logistic(u); der += ld(co(i)) * wid(i) * ref::logistic(u) * ref::logistic(-u);
      g.close("CoeffGrad", cg(i, j), double(s(0, j) * ref::logistic(u)), 64 * EPS * amax, "term"); }
    g.close("Evaluate", v(0, j), double(val), 64 * EPS * amax, at("sum", x(0, j)));
    g.close("Gradient", gr(0, j), double(s(0, j) * der), 256 * EPS * amax * (1 + std::fabs(s(0, j))), at("sum", x(0, j)));
    if (mono && j) g.check(v(0, j) >= v(0, j - 1) - 16 * EPS * amax, "increasing", at("sum", x(0, j)));
  }
}
