// C28: a monotone component's own routines, called with explicit coefficients, agree with its defining formula.
#include "mapgen.hpp"
#include "buf.hpp"
#include "MParT/MonotoneComponent.h"
#include "MParT/LinearizedBasis.h"
#include "MParT/HermiteFunction.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Quadrature.h"
using namespace mg;
namespace {
typedef mpart::StridedVector<const double, HS> CV; typedef mpart::StridedVector<double, HS> SV;
/// a vector with a stride inside a marked buffer
struct VBuf {
  Kokkos::View<double*, HS> mem; long n, off, s; VecX value;
  VBuf(G& g, VecX const& v) : n(v.size()), value(v) { s = g.pick<long>({1, 1, 2, 3}); off = g.coin() ? 0 : 2; mem = Kokkos::View<double*, HS>("v", off + (n ? (n - 1) * s + 1 : 0) + 2); for (size_t i = 0; i < mem.size(); ++i) mem(i) = -7.25e7; for (long i = 0; i < n; ++i) mem(off + i * s) = v(i); }
  SV view() { return SV(mem.data() + off, Kokkos::LayoutStride(n, s)); }
  CV cview() { return view(); }
  double at(long i) { return mem(off + i * s); }
  bool padIntact() { for (long k = 0; k < long(mem.size()); ++k) if (!((k - off) >= 0 && (k - off) % s == 0 && (k - off) / s < n) && mem(k) != -7.25e7) return false; return true; }
  bool intact() { for (long i = 0; i < n; ++i) if (at(i) != value(i)) return false; return padIntact(); }
};
const char* ROUT[] = {"EvaluateImpl", "ContinuousDerivative", "DiscreteDerivative", "CoeffJacobian", "InputJacobian", "ContinuousMixedJacobian", "ContinuousMixedInputJacobian", "DiscreteMixedJacobian", "InverseImpl"};

template <class MC> void history(G& g, MC& mc, Node& n, double quadTol) {
  int d = n.din, nc = n.nc;
  std::vector<double> sv; drawCoeffs(g, n, sv); VecX saved = Eigen::Map<VecX>(sv.data(), sv.size()); bool set = g.chance(3, 4);
  if (set) { VecX w = saved; mc.SetCoeffs(Eigen::Ref<VecX>(w)); }
  int steps = g.range(1, 6); bool dep = false;
  for (int t = 0; t < steps; ++t) {
    std::vector<double> ev; drawCoeffs(g, n, ev); VecX c = Eigen::Map<VecX>(ev.data(), ev.size()); LV lc = lv(c);
    for (int i = 0; i < nc; ++i) dep |= c(i) != 0 && n.comp.m[i][d - 1] > 0;
    int N = g.chance(1, 12) ? 0 : g.range(1, 4), r = int(g.below(9)); std::string at = std::string(ROUT[r]) + " step " + std::to_string(t);
    Mat x = drawPts(g, d, N, n.box); g.note() << at << " coeffs " << str(c) << " points"; for (int j = 0; j < N; ++j) g.note() << " " << str(col(x, j)); g.note() << "\n"; g.label(ROUT[r]);
    Buf px(x, int(g.below(5))); VBuf pc(g, c); VBuf e1(g, VecX::Constant(N, 3.5e5)), e2(g, VecX::Constant(N, -2e4)); long rows = r == 4 || r == 6 ? d : nc;
    Buf J(Mat::Constant(rows, N, 4.25e5), int(g.below(5)));
    auto cp = px.cview(); CV sc = pc.cview();
    auto evals = [&](VBuf& e, std::string const& tag) {
      for (int j = 0; j < N; ++j) { LV p = col(x, j); auto o = n.comp.eval(p, lc.data()); g.close(tag, e.at(j), double(o.v), (quadTol ? 400 * quadTol * (1 + std::fabs(double(o.integral))) : 0) + 1e-12 * (1 + double(o.mag)), at + " x=" + str(p)); }
    };
    /// diagonal derivative, of the integral or of the rule
    auto diag = [&](LV const& p, LV const& cc, bool disc) { auto q = n.comp; q.o.contDeriv = !disc; return q.diag(p, cc.data()); };
    auto jac = [&](bool input, auto f, std::string const& tag, double extra) {
      for (int j = 0; j < N; ++j) { LV p = col(x, j); ld scale = std::fabs(f(p, lc));
        for (int i = 0; i < rows; ++i) {
          ld v, e; ref::deriv([&](ld h) { LV a = p, b = lc; if (input) a[i] += h; else b[i] += h; return f(a, b); }, input ? 0.02L : 0.02L * std::min<ld>(2, 0.5L + std::fabs(lc[i])), v, e);
          if (!(e <= 5e-6L * (1 + std::fabs(v)))) { g.label("kink or poor estimate, entry skipped"); continue; }
          g.close(tag, J.at(i, j), double(v), double(20 * e + 1e-8L * (1 + std::fabs(v) + scale)) + extra * (1 + std::fabs(double(v))), at + " entry " + std::to_string(i) + " x=" + str(p));
        } }
    };
    switch (r) {
      case 0: mc.EvaluateImpl(cp, sc, e1.view()); evals(e1, "EvaluateImpl"); break;
      case 1: {
        if (g.coin()) mc.ContinuousDerivative(cp, sc, e1.view());
        else { auto v = mc.ContinuousDerivative(cp, sc); g.check(int(v.extent(0)) == N, "shape", at); auto o = e1.view(); for (int j = 0; j < N; ++j) o(j) = v(j); }
        for (int j = 0; j < N; ++j) { LV p = col(x, j); g.close("ContinuousDerivative", e1.at(j), double(diag(p, lc, false)), 1e-12 * (1 + double(n.comp.dfMag(p, lc.data()))) * (1 + double(diag(p, lc, false))), at + " x=" + str(p)); }
        break; }
      case 2: {
        bool both = g.coin();
        if (both) { mc.DiscreteDerivative(cp, sc, e1.view(), e2.view()); evals(e1, "DiscreteDerivative evaluations"); }
        else { auto v = mc.DiscreteDerivative(cp, sc); g.check(int(v.extent(0)) == N, "shape", at); auto o = e2.view(); for (int j = 0; j < N; ++j) o(j) = v(j); }
        for (int j = 0; j < N; ++j) { LV p = col(x, j); auto o = n.comp.eval(p, lc.data()); ld w = diag(p, lc, true); g.close("DiscreteDerivative", e2.at(j), double(w), 1e-10 * (1 + double(o.mag) + std::fabs(double(w))) + 4e3 * quadTol * (1 + std::fabs(double(w))) * (1 + std::fabs(double(p.back()))), at + " x=" + str(p)); }
        break; }
      case 3: mc.CoeffJacobian(cp, sc, e1.view(), J.view()); evals(e1, "CoeffJacobian evaluations"); jac(false, [&](LV const& a, LV const& b) { return n.comp.eval(a, b.data()).v; }, "CoeffJacobian", 4e3 * quadTol); break;
      case 4: mc.InputJacobian(cp, sc, e1.view(), J.view()); evals(e1, "InputJacobian evaluations"); jac(true, [&](LV const& a, LV const& b) { return n.comp.eval(a, b.data()).v; }, "InputJacobian", 4e4 * quadTol); break;
      case 5: mc.ContinuousMixedJacobian(cp, sc, J.view()); jac(false, [&](LV const& a, LV const& b) { return diag(a, b, false); }, "ContinuousMixedJacobian", 0); break;
      case 6: mc.ContinuousMixedInputJacobian(cp, sc, J.view()); jac(true, [&](LV const& a, LV const& b) { return diag(a, b, false); }, "ContinuousMixedInputJacobian", 0); break;
      case 7: mc.DiscreteMixedJacobian(cp, sc, J.view()); jac(false, [&](LV const& a, LV const& b) { return diag(a, b, true); }, "DiscreteMixedJacobian", 4e4 * quadTol); break;
      default: {
        if (N == 0) N = 1, x = drawPts(g, d, 1, n.box), e1 = VBuf(g, VecX::Constant(1, 3.5e5));
        bool shared = g.chance(1, 4); if (shared) for (int j = 1; j < N; ++j) x.col(j).head(d - 1) = x.col(0).head(d - 1);
        bool flat = false; for (int j = 0; j < N; ++j) flat |= !(n.minDiag(col(x, j), lc.data()) > 1e-3L);
        if (flat) { g.label("nearly flat, not inverted"); e1 = VBuf(g, VecX::Zero(N)); break; }
        VecX y(N); for (int j = 0; j < N; ++j) y(j) = double(n.comp.eval(col(x, j), lc.data()).v);
        Mat pre = x.topRows(d - 1); bool guess = g.coin(); if (guess) { pre = x; for (int j = 0; j < N; ++j) pre(d - 1, j) = g.real(-n.box, n.box); }
        if (shared) { Mat k = pre.leftCols(1); pre = k; }
        double xtol = std::pow(10.0, -g.range(2, 9)), ytol = std::pow(10.0, -g.range(2, 9)); std::map<std::string, std::string> opt;
        char tb[40]; if (g.coin()) { snprintf(tb, 40, "%.17g", xtol); opt["xtol"] = tb; } else xtol = 1e-6; if (g.coin()) { snprintf(tb, 40, "%.17g", ytol); opt["ytol"] = tb; } else ytol = 1e-6; if (g.coin()) opt["Method"] = "Bracket";
        Buf bp(pre, int(g.below(5))); VBuf by(g, y), out(g, VecX::Constant(N, 3.5e5)); g.note() << "xtol " << xtol << " ytol " << ytol << (shared ? " one prefix" : "") << "\n";
        if (opt.empty() && g.coin()) mc.InverseImpl(bp.cview(), by.cview(), sc, out.view()); else mc.InverseImpl(bp.cview(), by.cview(), sc, out.view(), opt);
        g.check(bp.intact() && by.intact() && out.padIntact(), "inputs", at + " changed its inputs or wrote outside the result");
        for (int j = 0; j < N; ++j) {
          LV p = col(x, j); double z = out.at(j); g.check(std::isfinite(z), "InverseImpl", at + " is not finite for x=" + str(p));
          LV q = p; q.back() = z; auto o = n.comp.eval(q, lc.data()); double yt = ytol * 1.01 + 400 * quadTol * (1 + std::fabs(y(j))) + 1e-11 * (1 + double(o.mag));
          LV a = q, b = q; a.back() -= xtol * 1.01 + 1e-14; b.back() += xtol * 1.01 + 1e-14; ld fa = n.comp.eval(a, lc.data()).v - y(j), fb = n.comp.eval(b, lc.data()).v - y(j);
          bool near = std::fabs(o.v - y(j)) <= yt, brack = fa <= yt && fb >= -yt;
          // (a bracket whose ends differ by less than the tolerance also ends the search)
          g.check(near || brack, "InverseImpl", at + " x=" + str(p) + " gives " + num(z) + ", off by " + num(z - x(d - 1, j)) + " and " + num(double(o.v - y(j))) + " for xtol " + num(xtol) + " ytol " + num(ytol));
        } }
    }
    g.check(px.intact() && pc.intact(), "inputs", at + " changed the points or the coefficients");
    g.check(e1.padIntact() && e2.padIntact() && J.padIntact(), "outside", at + " wrote outside its results");
    g.check(mc.CheckCoefficients() == set, "saved coefficients", at + " set or dropped the saved coefficients");
    if (set) { auto k = mc.Coeffs(); for (int i = 0; i < nc; ++i) g.check(k(i) == saved(i), "saved coefficients", at + " changed them"); }
    if (set && N && g.chance(1, 3)) { // the saved coefficients still define the map
      LV ls = lv(saved); Mat y = mc.Evaluate(x); for (int j = 0; j < x.cols(); ++j) { auto o = n.comp.eval(col(x, j), ls.data()); g.close("saved coefficients", y(0, j), double(o.v), (quadTol ? 400 * quadTol * (1 + std::fabs(double(o.integral))) : 0) + 1e-12 * (1 + double(o.mag)), "Evaluate after " + at); }
    }
  }
  if (dep) g.nontrivial();
}

template <class P, class B> void withQuad(G& g, Node& n, MSetSpec const& ms, B const& basis) {
  typedef mpart::MultivariateExpansionWorker<B, HS> W; W w(ms.fixed, basis); bool cont = g.coin(); double nug = double(n.comp.o.nugget);
  n.opts.contDeriv = cont; n.comp.o.contDeriv = cont;
  int q = n.comp.o.lin ? 0 : int(g.below(4));
  if (q <= 1) {
    int pts = g.range(3, 20); n.comp.o.cc = pts; g.note() << "CC" << pts << " " << (cont ? "cont" : "disc") << "\n"; g.label("Clenshaw-Curtis");
    auto mc = g.coin() ? mpart::MonotoneComponent<W, P, mpart::ClenshawCurtisQuadrature<HS>, HS>(w, mpart::ClenshawCurtisQuadrature<HS>(pts, 1, nullptr), cont, nug) : mpart::MonotoneComponent<W, P, mpart::ClenshawCurtisQuadrature<HS>, HS>(w, mpart::ClenshawCurtisQuadrature<HS>(pts, std::max(n.nc, n.din) + 1), cont, nug);
    history(g, mc, n, 0);
  } else if (q == 2) {
    int lo = g.range(6, 7); n.adaptive = true; g.note() << "adaptive Simpson " << (cont ? "cont" : "disc") << "\n"; g.label("adaptive Simpson");
    mpart::MonotoneComponent<W, P, mpart::AdaptiveSimpson<HS>, HS> mc(w, mpart::AdaptiveSimpson<HS>(31, 1, nullptr, 1e-11, 1e-11, mpart::QuadError::First, lo), cont, nug); history(g, mc, n, 2e-11);
  } else {
    int lo = g.range(3, 4), lev = g.range(3, 4); n.adaptive = true; g.note() << "adaptive Clenshaw-Curtis " << (cont ? "cont" : "disc") << "\n"; g.label("adaptive Clenshaw-Curtis");
    mpart::MonotoneComponent<W, P, mpart::AdaptiveClenshawCurtis<HS>, HS> mc(w, mpart::AdaptiveClenshawCurtis<HS>(lev, 31, 1, nullptr, 1e-11, 1e-11, mpart::QuadError::First, lo), cont, nug); history(g, mc, n, 2e-11);
  }
}
void start(G& g, Node& n, MSetSpec& ms, ref::Family fam, bool norm, bool lin, bool expo) {
  int d = g.range(1, 3); ms = drawMSet(g, d, orderFor(g, d, false));
  n.kind = "component"; n.din = d; n.dout = 1; n.box = 2; n.K = g.pick<double>({0.7, 1.5}); n.nc = int(ms.idx.size());
  auto& o = n.comp.o; o.fam = fam; o.norm = norm; o.lin = lin; o.expo = expo; o.nugget = g.coin() ? 0 : g.pick<double>({1e-4, 0.01, 0.3}); n.comp.m = ms.idx; n.comp.dim = d; o.cc = 0;
  if (lin) { double c = g.real(-1.5, 1.5), w = g.real(0.2, 2.0); o.lb = c - w; o.ub = c + w; }
  g.note() << "dim " << d << " family " << int(fam) << (norm ? "" : " unnormalised") << (lin ? " linearised [" + num(double(o.lb)) + "," + num(double(o.ub)) + "]" : "") << (expo ? " exp" : " softplus") << " nugget " << double(o.nugget) << " " << ms.desc << "\n";
}
}
PBT_PROPERTY(prob_hermite, 900) {
  Node n; MSetSpec ms; bool norm = g.coin(), e = g.coin(); start(g, n, ms, ref::PROB, norm, false, e); mpart::ProbabilistHermite b(norm);
  if (e) withQuad<mpart::Exp>(g, n, ms, b); else withQuad<mpart::SoftPlus>(g, n, ms, b);
}
PBT_PROPERTY(phys_hermite, 500) {
  Node n; MSetSpec ms; bool norm = g.coin(); start(g, n, ms, ref::PHYS, norm, false, false); withQuad<mpart::SoftPlus>(g, n, ms, mpart::PhysicistHermite(norm));
}
PBT_PROPERTY(hermite_functions, 500) {
  Node n; MSetSpec ms; start(g, n, ms, ref::HFUN, true, false, true); withQuad<mpart::Exp>(g, n, ms, mpart::HermiteFunction());
}
PBT_PROPERTY(linearised, 700) {
  Node n; MSetSpec ms; bool norm = g.coin(); start(g, n, ms, ref::PROB, norm, true, false);
  withQuad<mpart::SoftPlus>(g, n, ms, mpart::LinearizedBasis<mpart::ProbabilistHermite>(mpart::ProbabilistHermite(norm), double(n.comp.o.lb), double(n.comp.o.ub)));
}
