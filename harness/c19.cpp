// C19: malformed arguments. Oracle: the call throws a std::exception (no crash, no out-of-bounds access, no result), and the
// object then still has the same coefficients and the same values, bit for bit.
#include "ops.hpp"
#include "mset.hpp"
#include "MParT/MonotoneComponent.h"
#include "MParT/MultivariateExpansion.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Quadrature.h"
#include "MParT/Sigmoid.h"
#include "MParT/MapObjective.h"
#include "MParT/TrainMapAdaptive.h"
#include "MParT/Distributions/GaussianSamplerDensity.h"
#include "MParT/Distributions/PullbackDensity.h"
#include "MParT/Distributions/PushforwardDensity.h"
#include "MParT/Distributions/PullbackSampler.h"
#include "MParT/Distributions/PushforwardSampler.h"
#include "MParT/Distributions/Distribution.h"
using namespace mg;
using Kokkos::LayoutLeft;
template <class F> static void rejects(G& g, std::string const& tag, std::string const& what, F const& f) {
  bool thrown = false;
  try { f(); } catch (std::exception const&) { thrown = true; }
  g.check(thrown, tag, what + " was accepted");
  g.nontrivial(); g.label(tag);
}
static int other(G& g, int n, int hi) { int v = g.below(hi); return v >= n ? v + 1 : v; }  // anything in [0,hi] but n
static Mat rnd(G& g, int r, int c) { Mat m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = g.real(-1, 1); return m; }
static bool same(Mat const& a, Mat const& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (long i = 0; i < a.size(); ++i) if (!(a.data()[i] == b.data()[i] || (a.data()[i] != a.data()[i] && b.data()[i] != b.data()[i]))) return false; return true; }
static bool contDeep(Node const& n) { bool c = true; n.visit([&](Node const& k) { if (k.kind == "component" && !k.opts.contDeriv) c = false; }); return c; }

// ---- state of a map, compared before and after
struct Snap {
  Mat y, l; std::vector<double> c;
  Snap(CMB& m, Mat const& x) { y = m.Evaluate(x); l = m.LogDeterminant(x).transpose(); auto v = static_cast<CMB const&>(m).Coeffs(); for (size_t i = 0; i < v.extent(0); ++i) c.push_back(v(i)); }
  bool operator==(Snap const& o) const { return same(y, o.y) && same(l, o.l) && c == o.c; }
};
static std::string dims(Mat const& m) { return std::to_string(m.rows()) + "x" + std::to_string(m.cols()); }
static void wrongCoeffs(G& g, CMB& m, std::string const& at) {
  int n = int(m.numCoeffs), k = g.coin() ? n + g.range(1, 3) : other(g, n, n + 4); if (g.chance(1, 4) && n > 0) k = n - 1;
  std::vector<double> v(k + 1, 7.5); std::string w = at + " with " + std::to_string(n) + " coefficients, given " + std::to_string(k);
  switch (g.below(5)) {
    case 0: { Kokkos::View<double*, HS> a("a", k); Kokkos::View<const double*, HS> ca(a); rejects(g, "coefficient length", "SetCoeffs(view) of " + w, [&] { m.SetCoeffs(ca); }); break; }
    case 1: { VecX a = VecX::Constant(k, 3.25); rejects(g, "coefficient length", "SetCoeffs(Eigen) of " + w, [&] { m.SetCoeffs(Eigen::Ref<VecX>(a)); }); break; }
    case 2: { Kokkos::View<double*, HS> a("a", k); rejects(g, "coefficient length", "WrapCoeffs(view) of " + w, [&] { m.WrapCoeffs(a); }); break; }
    case 3: { VecX a = VecX::Constant(k, 3.25); rejects(g, "coefficient length", "WrapCoeffs(Eigen) of " + w, [&] { m.WrapCoeffs(Eigen::Ref<VecX>(a)); }); break; }
    default: { Kokkos::View<double*, HS> a(v.data(), k); rejects(g, "coefficient length", "WrapCoeffs(raw) of " + w, [&] { m.WrapCoeffs(a); }); }
  }
}
static int drawEntry(G& g) { return g.pick<int>({EIGEN, LEFT, RIGHT, STEP}); }
static void wrongCall(G& g, Node const& n, CMB& m, int N) {
  int op = int(g.below(NOPS)), way = drawEntry(g); int din = int(m.inputDim), dout = int(m.outputDim);
  Mat x = rnd(g, din, N), s = rnd(g, dout, N); std::string how;
  if (op == INV) {
    int lo = din - dout; x = rnd(g, g.coin() ? lo : din, N);
    int k = int(g.below(4));
    if (k == 0) s = rnd(g, other(g, dout, dout + 3), N), how = "outputs with the wrong number of rows";
    else if (k == 1) s = rnd(g, dout, other(g, N, N + 3)), how = "more or fewer outputs than prefixes";
    else {
      bool tri = n.kind == "triangular", low = (n.kind == "component" || n.kind == "summarized" || tri) && lo > 0;
      if (low && (k == 2 || !tri)) x = rnd(g, g.below(lo), N), how = "a prefix with too few rows";
      else if (tri) x = rnd(g, din + g.range(1, 3), N), how = "a prefix with too many rows";
      else s = rnd(g, dout + 1, N), how = "outputs with the wrong number of rows";
    }
  } else if (op == GRAD || op == CGRAD) {
    int k = int(g.below(3));
    if (k == 0) x = rnd(g, other(g, din, din + 3), N), how = "points with the wrong number of rows";
    else if (k == 1) s = rnd(g, other(g, dout, dout + 3), N), how = "sensitivities with the wrong number of rows";
    else s = rnd(g, dout, other(g, N, N + 3)), how = "more or fewer sensitivities than points";
  } else x = rnd(g, other(g, din, din + 3), N), how = "points with the wrong number of rows";
  rejects(g, "argument shape", std::string(opName(op)) + " via " + wayName(way) + " of a " + n.kind + " map " + std::to_string(din) + "->" + std::to_string(dout) + " given " + how + " (" + dims(x) + ", " + dims(s) + ")", [&] { runOp(m, op, x, s, way); });
  g.label(std::string(opName(op)) + " " + how);
}
PBT_PROPERTY(map_calls, 200) {
  Cfg cfg; Built b = build(g, cfg, 3, 3, 2); CMB& m = *b.n.map; int N = g.range(1, 3);
  Mat x = drawPts(g, b.n.din, N, 1.5); Snap before(m, x);
  std::vector<Node*> all; std::function<void(Node&)> add = [&](Node& n) { all.push_back(&n); for (auto& k : n.kids) add(k); }; add(b.n);
  int steps = g.range(1, 5);
  for (int t = 0; t < steps; ++t) {
    Node& n = g.coin() ? b.n : *all[g.below(all.size())];
    switch (g.below(4)) {
      case 0: wrongCoeffs(g, *n.map, n.kind); break;
      case 1: if (n.kind == "triangular" || n.kind == "composed") {
        int cnt = int(n.kids.size()), i = cnt + int(g.below(4)); if (g.chance(1, 4)) i = -1 - int(g.below(3));
        auto tri = std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(n.map); auto com = std::dynamic_pointer_cast<mpart::ComposedMap<HS>>(n.map);
        rejects(g, "component index", "GetComponent(" + std::to_string(i) + ") of a " + n.kind + " map with " + std::to_string(cnt), [&] { if (tri) tri->GetComponent(i); else if (com) com->GetComponent(i); });
        break; }
      // fallthrough
      default: wrongCall(g, n, *n.map, N);
    }
    Snap after(m, x);
    g.check(before == after, "object changed", "a rejected call changed the map: values " + std::to_string(same(before.y, after.y)) + ", log-determinants " + std::to_string(same(before.l, after.l)) + ", coefficients " + std::to_string(before.c == after.c) + " (1: same)");
  }
}

// ---- prefixes that do not reach up to the inputs they must fill in
PBT_PROPERTY(short_prefixes, 60) {
  Cfg cfg; cfg.cheap = true; int which = int(g.below(3)), dout = which == 2 ? g.range(1, 3) : 1, din = dout + g.range(1, 3);
  if (which == 0) cfg.component = cfg.factory = cfg.custom = cfg.composed = cfg.affine = cfg.identity = cfg.single = false;
  Node n = which == 1 ? genComponent(g, cfg, din) : genMap(g, cfg, din, dout, 1); setCoeffs(g, n); g.note() << n.desc;
  bool low = n.kind == "summarized" || n.kind == "component" || n.kind == "triangular"; if (!low) g.discard("a kind that ignores its prefix");
  int lo = din - dout, N = g.range(1, 3); Mat x = drawPts(g, din, N, 1.5); Snap before(*n.map, x);
  for (int r = 0; r < lo; ++r) {
    int way = drawEntry(g); Mat p = rnd(g, r, N), s = rnd(g, dout, N);
    rejects(g, "argument shape", std::string("Inverse via ") + wayName(way) + " of a " + n.kind + " map " + std::to_string(din) + "->" + std::to_string(dout) + " given a prefix of " + std::to_string(r) + " rows", [&] { runOp(*n.map, INV, p, s, way); });
  }
  g.label(n.kind);
  Snap after(*n.map, x); g.check(before == after, "object changed", "a rejected call changed the map");
}

// ---- maps whose coefficients were never set
PBT_PROPERTY(unset_coefficients, 120) {
  Cfg cfg; int dout = g.range(1, 3), din = dout + (g.coin() ? 0 : g.range(1, 2));
  Node n = genMap(g, cfg, din, dout, 3); g.note() << n.desc;
  std::vector<Node*> all; std::function<void(Node&)> add = [&](Node& k) { if (k.nc && !k.map->CheckCoefficients()) all.push_back(&k); for (auto& c : k.kids) add(c); }; add(n);
  if (all.empty()) g.discard("every map has its coefficients");
  Node& u = *all[g.below(all.size())]; int N = g.range(1, 3);
  int tries = g.range(1, 4);
  for (int t = 0; t < tries; ++t) {
    if (g.chance(1, 6)) {
      if (g.coin()) rejects(g, "coefficients never set", "CoeffMap of an unset " + u.kind, [&] { auto c = u.map->CoeffMap(); volatile double d = c.size() ? c(0) : 0; (void)d; });
      else wrongCoeffs(g, *u.map, "unset " + u.kind);
    } else {
      int op = int(g.below(NOPS)), way = drawEntry(g); Mat x = rnd(g, u.din, N), s = rnd(g, u.dout, N);
      rejects(g, "coefficients never set", std::string(opName(op)) + " via " + wayName(way) + " of an unset " + u.kind, [&] { runOp(*u.map, op, x, s, way); });
      g.label(std::string(opName(op)) + " unset " + u.kind);
    }
    g.check(!u.map->CheckCoefficients(), "object changed", "a rejected call left coefficients behind");
  }
  // usable once they are set
  VecX c = setCoeffs(g, n); LV lc = lv(c); Mat x = drawPts(g, n.din, 2, 1.5), y = n.map->Evaluate(x);
  for (int j = 0; j < 2; ++j) { LV p = col(x, j), r = n.refEval(p, lc.data()); for (int i = 0; i < n.dout; ++i) if (std::fabs(r[i]) < 1e4L) g.close("usable afterwards", y(i, j), double(r[i]), 2e-6 * (1 + std::fabs(double(r[i]))), n.kind + " x=" + str(p)); }
}

// ---- a monotone component's own functions
template <class Q> static void component(G& g, Q const& quad, bool cont) {
  typedef mpart::MultivariateExpansionWorker<mpart::ProbabilistHermite, HS> W; typedef mpart::MonotoneComponent<W, mpart::SoftPlus, Q, HS> MC;
  int d = g.range(1, 3), p = g.range(1, 3); auto ms = mpart::FixedMultiIndexSet<HS>(d, p); W w(ms, mpart::ProbabilistHermite(true)); auto mc = std::make_shared<MC>(w, quad, cont);
  int nc = int(mc->numCoeffs), N = g.range(1, 4); g.note() << "component dim " << d << " order " << p << " " << N << " points";
  Kokkos::View<double*, HS> c("c", nc); for (int i = 0; i < nc; ++i) c(i) = g.real(-1, 1); Kokkos::View<const double*, HS> cc(c);
  if (g.chance(1, 4)) {
    Mat x = rnd(g, d, N), s = rnd(g, 1, N);
    rejects(g, "coefficients never set", "an operation of a component without coefficients", [&] { runOp(*mc, int(g.below(NOPS)), x, s, drawEntry(g)); });
  }
  mc->SetCoeffs(cc); Mat px = rnd(g, d, 2); Snap before(*mc, px);
  mpart::StridedVector<const double, HS> sc(cc);
  int steps = g.range(1, 4);
  for (int t = 0; t < steps; ++t) {
    int prow = d, pcol = N, srow = 1, scol = N;
    auto V2 = [](int r, int k) { return Kokkos::View<double**, LayoutLeft, HS>("v", r, k); };
    auto pts = V2(prow, pcol); for (int i = 0; i < prow; ++i) for (int j = 0; j < pcol; ++j) pts(i, j) = g.real(-1, 1);
    mpart::StridedMatrix<const double, HS> cp(pts);
    int which = int(g.below(9));
    auto out2 = [&](int wantR, int wantC, int& r, int& k) { r = wantR; k = wantC; if (g.coin()) r = other(g, wantR, wantR + 3); else k = other(g, wantC, wantC + 3); };
    switch (which) {
      case 0: { int k = other(g, N, N + 3); auto o = V2(1, k); mpart::StridedMatrix<double, HS> so(o); rejects(g, "output shape", "EvaluateImpl into " + std::to_string(k) + " columns for " + std::to_string(N) + " points", [&] { mc->EvaluateImpl(cp, so); }); break; }
      case 1: case 2: {
        int rows = which == 1 ? d : nc, orow = rows, ocol = N, q = int(g.below(6));
        if (q == 0) srow = other(g, 1, 4); else if (q == 1) scol = other(g, N, N + 3); else if (q == 2) orow = other(g, rows, rows + 3); else if (q == 3) ocol = other(g, N, N + 3); else if (q == 4) prow = other(g, d, d + 3); else pcol = other(g, N, N + 3);
        if (q >= 4) { pts = V2(prow, pcol); cp = pts; }
        auto s = V2(srow, scol); auto o = V2(orow, ocol); mpart::StridedMatrix<const double, HS> ss(s); mpart::StridedMatrix<double, HS> so(o);
        std::string what = std::string(which == 1 ? "GradientImpl" : "CoeffGradImpl") + " with points " + std::to_string(prow) + "x" + std::to_string(pcol) + ", sensitivities " + std::to_string(srow) + "x" + std::to_string(scol) + ", output " + std::to_string(orow) + "x" + std::to_string(ocol) + " of " + std::to_string(rows) + "x" + std::to_string(N);
        rejects(g, "gradient argument shape", what, [&] { if (which == 1) mc->GradientImpl(cp, ss, so); else mc->CoeffGradImpl(cp, ss, so); }); break; }
      case 3: case 4: {
        int rows = which == 3 ? nc : d, r = rows, k = N, e = N; if (g.chance(1, 3)) e = other(g, N, N + 3); else out2(rows, N, r, k);
        auto o = V2(r, k); Kokkos::View<double*, HS> ev("e", e); mpart::StridedMatrix<double, HS> so(o); mpart::StridedVector<double, HS> sv(ev);
        rejects(g, "Jacobian shape", std::string(which == 3 ? "CoeffJacobian" : "InputJacobian") + " into " + std::to_string(r) + "x" + std::to_string(k) + " and " + std::to_string(e) + " evaluations instead of " + std::to_string(rows) + "x" + std::to_string(N), [&] { if (which == 3) mc->CoeffJacobian(cp, sc, sv, so); else mc->InputJacobian(cp, sc, sv, so); }); break; }
      case 5: {
        int k3 = int(g.below(3)), rows = k3 == 1 ? d : nc, r, k; out2(rows, N, r, k); auto o = V2(r, k); mpart::StridedMatrix<double, HS> so(o);
        rejects(g, "Jacobian shape", std::string(k3 == 0 ? "ContinuousMixedJacobian" : k3 == 1 ? "ContinuousMixedInputJacobian" : "DiscreteMixedJacobian") + " into " + std::to_string(r) + "x" + std::to_string(k) + " instead of " + std::to_string(rows) + "x" + std::to_string(N), [&] { if (k3 == 0) mc->ContinuousMixedJacobian(cp, sc, so); else if (k3 == 1) mc->ContinuousMixedInputJacobian(cp, sc, so); else mc->DiscreteMixedJacobian(cp, sc, so); }); break; }
      default: {
        std::map<std::string, std::string> o; int yn = N, on = N, xr = g.coin() ? d : d - 1, xc = g.coin() ? 1 : N; std::string how; int q = int(g.below(6));
        if (q == 5 && d == 1) q = 0;
        if (q == 0) { o["Method"] = g.pick<std::string>({"Newton", "bracket", "", "Bisect"}); how = "method \"" + o["Method"] + "\""; }
        else if (q == 1) { const char* k = g.coin() ? "xtol" : "ytol"; o[k] = g.pick<std::string>({"-1e-3", "-1", "-1e-12"}); how = std::string(k) + "=" + o[k]; }
        else if (q == 2) { o["xtol"] = g.pick<std::string>({"0", "1e-17", "0.0"}); o["ytol"] = g.pick<std::string>({"0", "1e-16", "0.0"}); how = "two zero tolerances"; }
        else if (q == 3) { on = other(g, yn, yn + 3); how = "an output of the wrong length"; }
        else if (q == 4) { xc = other(g, yn, yn + 4); if (xc == 1) xc = yn + 5; how = std::to_string(xc) + " prefixes for " + std::to_string(yn) + " outputs"; }
        else { xr = g.below(d - 1); how = "a prefix with too few rows"; }
        if (q != 0 && q != 2 && g.coin()) o["xtol"].empty() ? (void)(o["xtol"] = "1e-5") : (void)0;
        auto xs = V2(xr, xc); Kokkos::View<double*, HS> ys("y", yn), ov("o", on); mpart::StridedMatrix<const double, HS> sx(xs); mpart::StridedVector<const double, HS> sy(ys); mpart::StridedVector<double, HS> so(ov);
        rejects(g, "inverse arguments", "InverseImpl with " + how, [&] { mc->InverseImpl(sx, sy, sc, so, o); }); }
    }
    g.check(Snap(*mc, px) == before, "object changed", "a rejected call changed the component");
  }
}
PBT_PROPERTY(component_functions, 160) {
  bool cont = g.coin();
  if (g.coin()) component(g, mpart::ClenshawCurtisQuadrature<HS>(8, 30), cont);
  else component(g, mpart::AdaptiveSimpson<HS>(6, 30, 1e-6, 1e-6, mpart::QuadError::First), cont);
}

// ---- constructors
static std::shared_ptr<CMB> anyMap(G& g, int din, int dout, bool cheap = false) {
  Cfg cfg; cfg.cheap = true; int k = cheap ? 1 : int(g.below(3));
  if (k == 0) { Node n = genMap(g, cfg, din, dout, 1); setCoeffs(g, n); return n.map; }
  if (k == 1 || dout > 1) return std::make_shared<mpart::IdentityMap<HS>>(din, dout);
  Node n = genComponent(g, cfg, din); setCoeffs(g, n); return n.map;
}
static std::shared_ptr<CMB> unsetComponent(G& g, int d) { typedef mpart::MultivariateExpansionWorker<mpart::ProbabilistHermite, HS> W; W w(mpart::FixedMultiIndexSet<HS>(d, 1 + g.below(2)), mpart::ProbabilistHermite(true)); return std::make_shared<mpart::MonotoneComponent<W, mpart::SoftPlus, mpart::ClenshawCurtisQuadrature<HS>, HS>>(w, mpart::ClenshawCurtisQuadrature<HS>(5, 12)); }
struct Wide : CMB {  // a user's map, of any dimensions
  Wide(int i, int o) : CMB(i, o, 0) {}
  void EvaluateImpl(mpart::StridedMatrix<const double, HS> const&, mpart::StridedMatrix<double, HS>) override {}
  void GradientImpl(mpart::StridedMatrix<const double, HS> const&, mpart::StridedMatrix<const double, HS> const&, mpart::StridedMatrix<double, HS>) override {}
  void CoeffGradImpl(mpart::StridedMatrix<const double, HS> const&, mpart::StridedMatrix<const double, HS> const&, mpart::StridedMatrix<double, HS>) override {}
  void LogDeterminantImpl(mpart::StridedMatrix<const double, HS> const&, mpart::StridedVector<double, HS>) override {}
  void LogDeterminantCoeffGradImpl(mpart::StridedMatrix<const double, HS> const&, mpart::StridedMatrix<double, HS>) override {}
  void LogDeterminantInputGradImpl(mpart::StridedMatrix<const double, HS> const&, mpart::StridedMatrix<double, HS>) override {}
  void InverseImpl(mpart::StridedMatrix<const double, HS> const&, mpart::StridedMatrix<const double, HS> const&, mpart::StridedMatrix<double, HS>) override {}
};
PBT_PROPERTY(map_constructors, 200) {
  typedef std::vector<std::shared_ptr<CMB>> Vec;
  int which = int(g.below(9)); bool mv = g.coin();
  switch (which) {
    case 0: {  // blocks whose dimensions do not chain
      int nb = g.range(2, 4), bad = g.range(1, nb - 1), at = g.range(0, 2); Vec v; std::string d;
      for (int i = 0; i < nb; ++i) {
        int o = g.range(1, 2), in = at + o; if (i == bad) in = std::max(o, other(g, in, in + 3)); if (i == bad && in == at + o) in = at + o + 1;
        v.push_back(anyMap(g, in, o)); at = i == bad && g.coin() ? in : at + o; d += std::to_string(in) + "->" + std::to_string(o) + " ";
      }
      g.note() << d; rejects(g, "inconsistent blocks", "TriangularMap of blocks " + d, [&] { mpart::TriangularMap<HS> t(v, mv); }); break; }
    case 1: {  // a block with more outputs than inputs
      int nb = g.range(1, 3), bad = g.below(nb), at = g.range(0, 1); Vec v; std::string d;
      for (int i = 0; i < nb; ++i) { int o = g.range(1, 2); if (i == bad) { int in = i == 0 ? g.range(0, 2) : at + o; o = in + g.range(1, 2); v.push_back(std::make_shared<Wide>(in, o)); at = in; d += std::to_string(in) + "->" + std::to_string(o) + " "; } else { at += o; v.push_back(anyMap(g, at, o)); d += std::to_string(at) + "->" + std::to_string(o) + " "; } }
      g.note() << d; rejects(g, "inconsistent blocks", "TriangularMap of blocks " + d, [&] { mpart::TriangularMap<HS> t(v, mv); }); break; }
    case 2: {  // layers that do not fit
      int L = g.range(1, 4), d = g.range(1, 3), bad = g.below(L); Vec v; std::string ds;
      for (int i = 0; i < L; ++i) { int in = d, o = d; if (i == bad) { if (g.coin() || L == 1) { if (d == 1 || g.coin()) in = d + g.range(1, 2); else o = d - 1; } else in = o = d + g.range(1, 2); } v.push_back(anyMap(g, in, o, in != o)); ds += std::to_string(in) + "->" + std::to_string(o) + " "; }
      g.note() << ds; rejects(g, "inconsistent layers", "ComposedMap of layers " + ds, [&] { mpart::ComposedMap<HS> t(v, mv, g.range(-1, 3)); }); break; }
    case 3: {  // moveCoeffs needs coefficients
      int nb = g.range(1, 3), bad = g.below(nb); Vec v; bool tri = g.coin();
      for (int i = 0; i < nb; ++i) { int d = tri ? i + 1 : 1; v.push_back(i == bad ? unsetComponent(g, d) : anyMap(g, d, 1)); }
      g.note() << (tri ? "triangular " : "composed ") << nb << " bad " << bad;
      rejects(g, "blocks without coefficients", "moveCoeffs with block " + std::to_string(bad) + " of " + std::to_string(nb) + " unset", [&] { if (tri) mpart::TriangularMap<HS> t(v, true); else mpart::ComposedMap<HS> t(v, true); });
      for (int i = 0; i < nb; ++i) g.check(i == bad ? !v[i]->CheckCoefficients() : v[i]->CheckCoefficients(), "object changed", "block " + std::to_string(i) + " after the rejected construction");
      break; }
    case 4: {  // summaries
      int nin = g.range(1, 3), m = g.range(1, nin); Kokkos::View<double**, LayoutLeft, HS> A("A", m, nin); for (int i = 0; i < m; ++i) A(i, i) = 1;
      auto sum = std::make_shared<mpart::AffineFunction<HS>>(mpart::StridedMatrix<double, HS>(A)); std::shared_ptr<CMB> c; std::string d;
      if (g.coin()) { int cd = other(g, m + 1, m + 4); if (cd == 0) cd = m + 2; c = anyMap(g, cd, 1); d = std::to_string(cd) + "->1"; }
      else { int o = g.range(2, 3); c = anyMap(g, std::max(o, m + 1), o, true); d = "of several outputs"; if (g.coin() && o > m + 1) d += " and inputs"; }
      rejects(g, "inconsistent summary", "SummarizedMap of a summary with " + std::to_string(m) + " outputs and a component " + d, [&] { mpart::SummarizedMap<HS> s(sum, c); }); break; }
    case 5: {  // single entry maps
      int dim = g.range(1, 4), act, cd; if (g.coin()) { act = dim + g.range(1, 3); cd = act; } else { act = g.range(0, dim); cd = 1 + int(g.below(4)); if (cd == act) cd = act + 1; }
      auto c = anyMap(g, cd, 1);
      rejects(g, "inconsistent blocks", "CreateSingleEntryMap(" + std::to_string(dim) + ", " + std::to_string(act) + ") with a component of " + std::to_string(cd) + " inputs", [&] { mpart::MapFactory::CreateSingleEntryMap<HS>(dim, act, c); }); break; }
    case 6: {  // options nothing is registered for
      mpart::MapOptions o; int q = int(g.below(4)); mpart::FixedMultiIndexSet<HS> ms(g.range(1, 3), g.range(0, 2));
      if (q == 0) { o.basisType = static_cast<mpart::BasisTypes>(17 + g.below(4)); }
      else if (q == 1) o.posFuncType = static_cast<mpart::PosFuncTypes>(9 + g.below(4));
      else if (q == 2) o.quadType = static_cast<mpart::QuadTypes>(11 + g.below(4));
      else o.basisType = static_cast<mpart::BasisTypes>(17);
      if (q == 3) rejects(g, "unknown options", "CreateExpansion with an unknown basis", [&] { mpart::MapFactory::CreateExpansion<HS>(g.range(1, 2), ms, o); });
      else if (g.coin()) rejects(g, "unknown options", "CreateComponent with an unknown option", [&] { mpart::MapFactory::CreateComponent<HS>(ms, o); });
      else rejects(g, "unknown options", "CreateTriangular with an unknown option", [&] { mpart::MapFactory::CreateTriangular<HS>(g.range(2, 3), g.range(1, 2), g.range(0, 2), o); });
      break; }
    case 7: {  // sigmoids
      int a = g.range(0, 4), b = other(g, a, a + 3); Kokkos::View<double*, HS> c("c", a), w("w", b); mpart::StridedVector<const double, HS> sc(c), sw(w);
      rejects(g, "inconsistent sigmoid", std::to_string(a) + " centers and " + std::to_string(b) + " widths", [&] { mpart::Sigmoid1d<HS, mpart::Logistic> s(sc, sw); }); break; }
    default: {  // anisotropic limiters
      int n = g.range(1, 4); std::vector<double> w(n, 0.5); double e = 0.1; int q = int(g.below(3));
      if (q == 0) w[g.below(n)] = g.pick<double>({1.0000001, -1e-9, 7, -3}); else e = g.pick<double>({0, 1, -0.2, 3});
      rejects(g, "limiter options", "an anisotropic limiter with epsilon " + num(e) + " and weights " + str(lv(VecX(Eigen::Map<VecX>(w.data(), n)))), [&] { mpart::MultiIndexLimiter::Anisotropic l(w, e); }); }
  }
}

// ---- densities, samplers, objectives, training
typedef mpart::GaussianSamplerDensity<HS> GSD;
PBT_PROPERTY(densities_and_training, 150) {
  typedef std::shared_ptr<mpart::SampleGenerator<HS>> SP; typedef std::shared_ptr<mpart::DensityBase<HS>> DP;
  int d = g.range(1, 3), din = d + (g.coin() ? 0 : g.range(1, 2)); int which = int(g.below(10));
  auto pm = [&](int r, int c) { Kokkos::View<double**, LayoutLeft, HS> v("v", r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) v(i, j) = g.real(-1, 1); return v; };
  auto gauss = [&](int k) { int q = int(g.below(4)); Kokkos::View<double*, HS> mu("m", k); Kokkos::View<double**, LayoutLeft, HS> C("c", k, k); for (int i = 0; i < k; ++i) { mu(i) = g.real(-1, 1); C(i, i) = g.real(0.5, 2); } mpart::StridedVector<double, HS> sm(mu); mpart::StridedMatrix<double, HS> sC(C); return q == 0 ? std::make_shared<GSD>((unsigned)k) : q == 1 ? std::make_shared<GSD>(sm) : q == 2 ? std::make_shared<GSD>(sC) : std::make_shared<GSD>(sm, sC); };
  switch (which) {
    case 0: { auto q = gauss(d); int r = other(g, d, d + 3), N = g.range(1, 3); Mat bad = rnd(g, r, N), good = rnd(g, d, 2); Mat a = q->LogDensity(good), ga = q->LogDensityInputGrad(good); bool grad = g.coin(); int w = int(g.below(2)); auto bv = pm(r, N); mpart::StridedMatrix<const double, HS> sb(bv);
      rejects(g, "density argument shape", std::string(grad ? "LogDensityInputGrad" : "LogDensity") + " of a normal in dimension " + std::to_string(d) + " at points with " + std::to_string(r) + " rows", [&] { if (w) { if (grad) q->LogDensityInputGrad<HS>(sb); else q->LogDensity<HS>(sb); } else { if (grad) q->LogDensityInputGrad(bad); else q->LogDensity(bad); } });
      Mat b = q->LogDensity(good), gb = q->LogDensityInputGrad(good); g.check(same(a, b) && same(ga, gb), "object changed", "the density after a rejected call"); break; }
    case 1: { auto q = gauss(d); int r = other(g, d, d + 3); auto o = pm(r, g.range(1, 3)); mpart::StridedMatrix<double, HS> so(o); rejects(g, "density argument shape", "SampleImpl into " + std::to_string(r) + " rows in dimension " + std::to_string(d), [&] { q->SampleImpl(so); }); break; }
    case 2: { int k = other(g, d, d + 2); if (k == 0) k = d + 1; auto m = anyMap(g, din, d); DP q = gauss(k); rejects(g, "inconsistent densities", "PullbackDensity through a map to dimension " + std::to_string(d) + " of a density in dimension " + std::to_string(k), [&] { mpart::PullbackDensity<HS> p(m, q); }); break; }
    case 3: { int in = din, k = din; if (g.coin() || din == d) { in = d; k = other(g, d, d + 2); if (k == 0) k = d + 1; } auto m = anyMap(g, in, d); DP q = gauss(k); rejects(g, "inconsistent densities", "PushforwardDensity through a map " + std::to_string(in) + "->" + std::to_string(d) + " of a density in dimension " + std::to_string(k), [&] { mpart::PushforwardDensity<HS> p(m, q); }); break; }
    case 4: { bool pull = g.coin(); int in = din, k = pull ? d : din; if (g.coin() || din == d) { in = d; k = other(g, d, d + 2); if (k == 0) k = d + 1; } auto m = anyMap(g, in, d); SP q = gauss(k); rejects(g, "inconsistent densities", std::string(pull ? "PullbackSampler" : "PushforwardSampler") + " through a map " + std::to_string(in) + "->" + std::to_string(d) + " of a sampler in dimension " + std::to_string(k), [&] { if (pull) mpart::PullbackSampler<HS> p(m, q); else mpart::PushforwardSampler<HS> p(m, q); }); break; }
    case 5: { int k = other(g, d, d + 2); if (k == 0) k = d + 1; SP s = gauss(d); DP q = gauss(k); rejects(g, "inconsistent densities", "a Distribution of a sampler in dimension " + std::to_string(d) + " and a density in dimension " + std::to_string(k), [&] { mpart::Distribution<HS> p(s, q); }); break; }
    case 6: { auto m = anyMap(g, d, d); DP q = gauss(d); mpart::PushforwardDensity<HS> p(m, q); Mat x = rnd(g, d, 2); rejects(g, "unavailable operation", "LogDensityInputGrad of a pushforward", [&] { p.LogDensityInputGrad(x); }); break; }
    case 7: { auto m = anyMap(g, din, d); DP q = gauss(d); mpart::PullbackDensity<HS> p(m, q); int r = other(g, din, din + 3); Mat bad = rnd(g, r, 2), good = rnd(g, din, 2); Mat a = p.LogDensity(good); int k = int(g.below(3)); rejects(g, "density argument shape", "a pullback through a map from dimension " + std::to_string(din) + " at points with " + std::to_string(r) + " rows", [&] { if (k == 0) p.LogDensity(bad); else if (k == 1) p.LogDensityInputGrad(bad); else p.LogDensityCoeffGrad(bad); }); g.check(same(a, p.LogDensity(good)), "object changed", "the pullback after a rejected call"); break; }
    case 8: { auto m = anyMap(g, d, d); auto t = pm(d, g.range(1, 4)); mpart::StridedMatrix<const double, HS> st(t); std::shared_ptr<mpart::MapObjective<HS>> o; if (g.coin()) o = mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(st, g.coin() ? 0u : unsigned(d)); else { std::shared_ptr<mpart::DensityBase<HS>> q = gauss(d); o = std::make_shared<mpart::KLObjective<HS>>(st, q); } double a = o->TrainError(m); rejects(g, "no test set", "TestError without a test set", [&] { o->TestError(m); }); g.check(o->TrainError(m) == a, "object changed", "the objective after a rejected call"); break; }
    default: {
      int outs = g.range(1, 3), in = outs + g.range(0, 1), q = int(g.below(4)); auto t = pm(in, 12); mpart::StridedMatrix<const double, HS> st(t);
      auto obj = mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(st, st, outs); std::vector<mpart::MultiIndexSet> v; mpart::ATMOptions o; o.maxSize = 4; o.maxPatience = 1; o.opt_maxeval = 3; o.verbose = 0; o.quadType = mpart::QuadTypes::ClenshawCurtis; o.quadPts = 5;
      std::vector<int> len; for (int i = 0; i < outs; ++i) len.push_back(in - outs + i + 1); std::string how;
      if (q == 0) { if (outs > 1 && g.coin()) len.pop_back(); else len.push_back(in + 1); how = std::to_string(len.size()) + " sets for " + std::to_string(outs) + " outputs"; }
      else if (q == 1 && outs > 1) { int i = g.below(outs), bad = other(g, len[i], len[i] + 2); if (bad == 0) bad = len[i] + 1; how = "set " + std::to_string(i) + " in dimension " + std::to_string(bad) + " instead of " + std::to_string(len[i]); len[i] = bad; }
      else if (q == 2) { int sh = g.coin() || in == outs ? 1 : -1; for (auto& l : len) l += sh; how = "sets in dimensions shifted by " + std::to_string(sh); }
      else { int bad = other(g, in, in + 3); if (bad == 0) bad = in + 1; o.maxDegrees = mpart::MultiIndex(bad, 3u); how = "maximum degrees of length " + std::to_string(bad) + " for " + std::to_string(in) + " inputs"; }
      for (int l : len) v.push_back(mpart::MultiIndexSet::CreateTotalOrder(l, g.below(2)));
      g.note() << outs << " outputs, " << how; std::vector<unsigned> sz; for (auto& s : v) sz.push_back(s.Size());
      rejects(g, "training arguments", "TrainMapAdaptive with " + how, [&] { mpart::TrainMapAdaptive<HS>(v, obj, o); });
      for (size_t i = 0; i < v.size(); ++i) g.check(v[i].Size() == sz[i], "object changed", "set " + std::to_string(i) + " after a rejected training"); }
  }
}

// ---- multi-indices
PBT_PROPERTY(multi_indices, 250) {
  unsigned len = g.range(1, 4); auto raw = [&](unsigned n) { return ms::drawMulti(g, n, 3); };
  int which = int(g.below(9));
  if (which == 0) {
    ms::V v = raw(len); mpart::MultiIndex m = v; unsigned i = len + g.below(4); if (g.chance(1, 5)) i = unsigned(-1) - g.below(3);
    int q = int(g.below(3));
    if (q == 0) rejects(g, "multi-index access", "Get(" + std::to_string(i) + ") of length " + std::to_string(len), [&] { m.Get(i); });
    else if (q == 1) rejects(g, "multi-index access", "Set(" + std::to_string(i) + ") of length " + std::to_string(len), [&] { m.Set(i, g.below(3)); });
    else { unsigned k = g.below(len); mpart::MultiIndex b(k, 1u); rejects(g, "multi-index length", "AnyBounded with a bound of length " + std::to_string(k), [&] { m.AnyBounded(b); }); }
    g.check(m.Vector() == v, "object changed", "multi-index after a rejected call is " + ms::str(m.Vector()) + ", was " + ms::str(v)); return;
  }
  if (which == 1) {
    unsigned n = g.range(1, 6); ref::MSet idx = drawIdx(g, len, 3, n); auto fx = g.coin() ? fixedDense(len, idx) : fixedCompressed(len, idx); unsigned i = fx.Size() + g.below(4); if (g.chance(1, 5)) i = unsigned(-1) - g.below(3);
    rejects(g, "multi-index access", "IndexToMulti(" + std::to_string(i) + ") of a fixed set of " + std::to_string(fx.Size()), [&] { fx.IndexToMulti(i); });
    for (unsigned k = 0; k < fx.Size(); ++k) g.check(fx.IndexToMulti(k) == ms::V(idx[k].begin(), idx[k].end()), "object changed", "term " + std::to_string(k)); return;
  }
  ms::Limiter lim = g.coin() ? ms::none() : ms::drawLimiter(g, len); auto set = mpart::MultiIndexSet::CreateTotalOrder(len, g.below(4), lim.impl); g.note() << "length " << len << " limiter " << lim.desc;
  auto dump = [&](mpart::MultiIndexSet const& s) { std::vector<ms::V> o; for (unsigned i = 0; i < s.Size(); ++i) o.push_back(s.IndexToMulti(i).Vector()); return o; };
  auto before = dump(set); unsigned n = set.Size(), k = other(g, len, len + 2); if (k == 0) k = len + 1; unsigned i = n + g.below(4); if (g.chance(1, 5)) i = unsigned(-1) - g.below(2);
  mpart::MultiIndex bad = raw(k);
  switch (which) {
    case 2: { int q = int(g.below(2)); rejects(g, "multi-index access", std::string(q ? "ForciblyExpand" : "Expand") + "(" + std::to_string(i) + ") of a set of " + std::to_string(n), [&] { if (q) set.ForciblyExpand(i); else set.Expand(i); }); break; }
    case 3: { int q = int(g.below(3)); rejects(g, "multi-index length", std::string(q == 0 ? "Activate" : q == 1 ? "AddActive" : "ForciblyActivate") + " of a multi-index of length " + std::to_string(k), [&] { if (q == 0) set.Activate(bad); else if (q == 1) set.AddActive(bad); else set.ForciblyActivate(bad); }); break; }
    case 4: { ms::V out(len, 0); bool found = false; for (int t = 0; t < 20 && !found; ++t) { out = ms::drawMulti(g, len, 6); found = set.MultiToIndex(mpart::MultiIndex(out)) < 0; } if (!found) g.discard("no absent multi-index drawn"); mpart::MultiIndex m = out; rejects(g, "multi-index access", "Activate of " + ms::str(out) + ", which is neither active nor a neighbour's candidate", [&] { bool adm = set.IsAdmissible(m); if (adm) throw std::runtime_error("admissible: not claimed"); set.Activate(m); }); break; }
    case 5: { if (n < 2) g.discard("one term"); auto last = before[g.below(n)]; auto l2 = [last](mpart::MultiIndex const& m) { return m.Vector() != last; }; rejects(g, "limiter excludes terms", "SetLimiter that excludes " + ms::str(last), [&] { set.SetLimiter(l2); }); break; }
    case 6: { auto o = mpart::MultiIndexSet::CreateTotalOrder(k, g.below(3)); int q = int(g.below(2)); rejects(g, "multi-index length", std::string(q ? "Union" : "assignment") + " of sets of lengths " + std::to_string(len) + " and " + std::to_string(k), [&] { if (q) set.Union(o); else set = o; }); break; }
    case 7: { mpart::MultiIndexSet& cs = set; int q = int(g.below(9)); static const char* nm[] = {"Frontier neighbours", "AdmissibleForwardNeighbors", "BackwardNeighbors", "BackwardNeighbors of an absent multi-index", "NumActiveForward", "NumForward", "IsExpandable", "FrontierNeighbors", "IndexToMulti"};
      rejects(g, "multi-index access", std::string(nm[q]) + " " + std::to_string(i) + " of " + std::to_string(n), [&] { switch (q) { case 1: cs.AdmissibleForwardNeighbors(i); break; case 2: cs.BackwardNeighbors(i); break; case 3: cs.BackwardNeighbors(mpart::MultiIndex(ms::V(len, 9))); break; case 4: cs.NumActiveForward(i); break; case 5: cs.NumForward(i); break; case 6: cs.IsExpandable(i); break; default: cs.IndexToMulti(i); } }); break; }
    default: { int q = int(g.below(2)); if (q) rejects(g, "multi-index access", "IndexToMulti(" + std::to_string(i) + ") of " + std::to_string(n), [&] { set.IndexToMulti(i); }); else rejects(g, "multi-index access", "operator[] " + std::to_string(i) + " of " + std::to_string(n), [&] { set.at(i); }); }
  }
  g.check(dump(set) == before && set.Size() == n, "object changed", "the set after a rejected call: " + ms::str(dump(set)) + ", was " + ms::str(before));
}
