#include <map>
// C16: multivariate expansions equal the naive sum of basis products.
#include "ops.hpp"
#include "MParT/MultivariateExpansion.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
using namespace mg;
using namespace mpart;

/// everything about the naive sum at one point: values and derivatives, each with the magnitude of its terms
struct Naive {
  int d, n; std::vector<std::vector<ref::V3>> t; ref::MSet m;
  Naive(ref::Opts const& o, ref::MSet const& m_, int d_, LV const& x) : d(d_), n(int(m_.size())), m(m_) { std::map<std::pair<int, int>, ref::V3> memo; for (auto& q : m) { std::vector<ref::V3> r; for (int j = 0; j < d; ++j) { auto k = std::make_pair(j, int(q[j])); auto it = memo.find(k); if (it == memo.end()) it = memo.emplace(k, ref::b1(o, int(q[j]), x[j])).first; r.push_back(it->second); } t.push_back(r); } }
  /// term i differentiated a[j] times in direction j
  ld term(int i, std::vector<int> const& a, bool mag) const { ld p = 1; for (int j = 0; j < d; ++j) { auto& v = t[i][j]; p *= mag ? (a[j] == 0 ? v.mv : a[j] == 1 ? v.md : v.md2) : (a[j] == 0 ? v.v : a[j] == 1 ? v.d : v.d2); } return p; }
  ld sum(double const* c, std::vector<int> const& a, bool mag) const { ld s = 0; for (int i = 0; i < n; ++i) s += mag ? std::fabs(c[i]) * term(i, a, true) : c[i] * term(i, a, false); return s; }
};
static double tolFor(ld mag, int d, LV const& x) { double xx = 0; for (auto v : x) xx = std::max(xx, double(std::fabs(v))); return 2.2e-16 * (60 + 20 * d + 4 * xx * xx) * double(mag) + 1e-200; }
static std::vector<int> e(int d, int i, int j = -1) { std::vector<int> a(d, 0); if (i >= 0) a[i]++; if (j >= 0) a[j]++; return a; }

PBT_PROPERTY(factory_expansion, 2500) {
  int din = g.range(1, 4), dout = g.range(1, 4), N = g.range(1, 3); Cfg cfg; auto o = drawOpts(g, cfg); auto ms = drawMSet(g, din, orderFor(g, din, false)); int T = int(ms.idx.size());
  auto f = MapFactory::CreateExpansion<HS>(dout, ms.fixed, o); auto ro = refOpts(o);
  VecX c = drawVec(g, dout * T), w = c; f->SetCoeffs(Eigen::Ref<VecX>(w));
  g.note() << "expansion " << din << "->" << dout << " " << optDesc(o) << " " << ms.desc << " coeffs " << str(c); if (T > 1) g.nontrivial();
  g.check(int(f->numCoeffs) == dout * T && int(f->inputDim) == din && int(f->outputDim) == dout, "dimensions", "wrong sizes");
  Mat x = drawPts(g, din, N, g.pick<double>({3, 3, 8})), s = drawPts(g, dout, N, 2);
  Buf bx(x, int(g.range(0, 4))), bs(s, int(g.range(0, 4))), by(Mat::Constant(dout, N, 5e7), int(g.range(1, 4))), bg(Mat::Constant(din, N, -4e7), int(g.range(1, 4))), bc(Mat::Constant(dout * T, N, 3e7), int(g.range(1, 4)));
  Mat y, gr, cg;
  if (g.coin()) { auto a = by.view(), b = bg.view(), q = bc.view(); f->EvaluateImpl(bx.cview(), a); f->GradientImpl(bx.cview(), bs.cview(), b); f->CoeffGradImpl(bx.cview(), bs.cview(), q); y = toMat(a); gr = toMat(b); cg = toMat(q); g.check(by.padIntact() && bg.padIntact() && bc.padIntact(), "writes", "wrote outside the result"); g.label("preallocated"); }
  else { auto vx = bx.cview(), vs = bs.cview(); y = toMat(f->Evaluate(vx)); gr = toMat(f->Gradient(vx, vs)); cg = toMat(f->CoeffGrad(vx, vs)); }
  g.check(bx.intact() && bs.intact(), "writes", "inputs changed");
  g.check(y.rows() == dout && y.cols() == N && gr.rows() == din && gr.cols() == N && cg.rows() == dout * T && cg.cols() == N, "shape", "wrong result shape");
  for (int j = 0; j < N; ++j) {
    LV p = col(x, j); Naive nv(ro, ms.idx, din, p); bool atB = false; for (auto v : p) if (ro.lin && (v == ro.lb || v == ro.ub)) atB = true;
    for (int k = 0; k < dout; ++k) g.close("Evaluate", y(k, j), double(nv.sum(&c(k * T), e(din, -1), false)), tolFor(nv.sum(&c(k * T), e(din, -1), true), din, p), "output " + std::to_string(k) + " x=" + str(p));
    if (!atB) for (int i = 0; i < din; ++i) { ld v = 0, m = 0; for (int k = 0; k < dout; ++k) { v += s(k, j) * nv.sum(&c(k * T), e(din, i), false); m += std::fabs(s(k, j)) * nv.sum(&c(k * T), e(din, i), true); } g.close("Gradient", gr(i, j), double(v), tolFor(m, din, p), "input " + std::to_string(i) + " x=" + str(p)); }
    for (int k = 0; k < dout; ++k) for (int t = 0; t < T; ++t) g.close("CoeffGrad", cg(k * T + t, j), double(s(k, j) * nv.term(t, e(din, -1), false)), tolFor(std::fabs(s(k, j)) * nv.term(t, e(din, -1), true), din, p), "coefficient " + std::to_string(k * T + t) + " x=" + str(p));
  }
}

template <class B> static void worker(G& g, B const& basis, ref::Opts const& ro, std::string const& nm) {
  int d = g.range(1, 4); auto ms = drawMSet(g, d, g.chance(1, 6) ? 8 : orderFor(g, d, false)); int T = int(ms.idx.size());
  MultivariateExpansionWorker<B, HS> w(ms.fixed, basis); bool copied = g.coin(); MultivariateExpansionWorker<B, HS> w2; w2 = w; auto const& ex = copied ? w2 : w;
  Kokkos::View<double*, HS> c("c", T); std::vector<double> cv(T); for (int i = 0; i < T; ++i) c(i) = cv[i] = g.real(-1.5, 1.5);
  Mat x = drawPts(g, d, 1, g.pick<double>({3, 3, 8})); LV p = col(x, 0); Kokkos::View<double*, HS> pt("pt", d); for (int i = 0; i < d; ++i) pt(i) = x(i, 0);
  g.note() << "worker " << nm << " " << ms.desc << " c=" << str(LV(cv.begin(), cv.end())) << " x=" << str(p); if (T > 1) g.nontrivial();
  g.check(int(ex.NumCoeffs()) == T && int(ex.InputSize()) == d, "sizes", "NumCoeffs or InputSize");
  { auto back = ex.GetMultiIndexSet(); g.check(int(back.Size()) == T, "sizes", "GetMultiIndexSet"); for (int i = 0; i < T; ++i) g.check(back.IndexToMulti(i) == ms.idx[i], "sizes", "GetMultiIndexSet order"); }
  std::vector<unsigned> mx(d, 0); for (auto& q : ms.idx) for (int j = 0; j < d; ++j) mx[j] = std::max(mx[j], q[j]);
  unsigned need = 0; for (int j = 0; j < d; ++j) need += mx[j] + 1;
  g.check(ex.CacheSize() >= need + mx[d - 1] + 1, "sizes", "CacheSize too small for the documented layout");
  Naive nv(ro, ms.idx, d, p); std::vector<double> cache(ex.CacheSize() + 16, 1.7e5);
  auto dirty = [&] { for (size_t i = 0; i < cache.size(); ++i) cache[i] = i < ex.CacheSize() ? (g.coin() ? 1.7e5 : -3e3) : 6.5e6; };
  auto chk = [&](const char* t, double got, std::vector<int> const& a, bool skip = false) { if (!skip) g.close(t, got, double(nv.sum(cv.data(), a, false)), tolFor(nv.sum(cv.data(), a, true), d, p), ""); };
  auto grad = [&](int n) { Kokkos::View<double*, HS> v("g", n); for (int i = 0; i < n; ++i) v(i) = 4.4e6; return v; };
  Kokkos::View<double*, HS> otherPt("o", d); for (int i = 0; i < d; ++i) otherPt(i) = g.real(-2, 2);
  auto fill = [&](DerivativeFlags::DerivativeType f1, DerivativeFlags::DerivativeType f2) {
    dirty(); if (g.chance(1, 3)) { ex.FillCache1(cache.data(), otherPt, f1); ex.FillCache2(cache.data(), otherPt, otherPt(d - 1), f2); g.label("cache used for another point before"); }
    ex.FillCache1(cache.data(), pt, f1);
    if (g.coin()) { otherPt(d - 1) = 99; for (int i = 0; i + 1 < d; ++i) otherPt(i) = pt(i); ex.FillCache2(cache.data(), otherPt, pt(d - 1), f2); } else ex.FillCache2(cache.data(), pt, pt(d - 1), f2);
    for (size_t i = ex.CacheSize(); i < cache.size(); ++i) g.check(cache[i] == 6.5e6, "overrun", "wrote beyond CacheSize");
  };
  bool atB = false; for (auto v : p) if (ro.lin && (v == ro.lb || v == ro.ub)) atB = true;
  switch (g.below(6)) {
    case 0: { fill(DerivativeFlags::None, g.coin() ? DerivativeFlags::None : DerivativeFlags::Parameters); chk("Evaluate", ex.Evaluate(cache.data(), c), e(d, -1)); break; }
    case 1: { fill(DerivativeFlags::None, DerivativeFlags::Diagonal); chk("Evaluate", ex.Evaluate(cache.data(), c), e(d, -1)); chk("DiagonalDerivative 1", ex.DiagonalDerivative(cache.data(), c, 1), e(d, d - 1), atB);
      auto gv = grad(T); chk("MixedCoeffDerivative 1", ex.MixedCoeffDerivative(cache.data(), c, 1, gv), e(d, d - 1), atB); if (!atB) for (int t = 0; t < T; ++t) g.close("MixedCoeffDerivative gradient", gv(t), double(nv.term(t, e(d, d - 1), false)), tolFor(nv.term(t, e(d, d - 1), true), d, p), "term " + std::to_string(t)); break; }
    case 2: { fill(DerivativeFlags::None, g.coin() ? DerivativeFlags::Diagonal2 : DerivativeFlags::Mixed); chk("Evaluate", ex.Evaluate(cache.data(), c), e(d, -1)); chk("DiagonalDerivative 1", ex.DiagonalDerivative(cache.data(), c, 1), e(d, d - 1), atB); chk("DiagonalDerivative 2", ex.DiagonalDerivative(cache.data(), c, 2), e(d, d - 1, d - 1), atB);
      for (int ord : {1, 2}) { auto gv = grad(T); auto a = ord == 1 ? e(d, d - 1) : e(d, d - 1, d - 1); chk("MixedCoeffDerivative", ex.MixedCoeffDerivative(cache.data(), c, ord, gv), a, atB); if (!atB) for (int t = 0; t < T; ++t) g.close("MixedCoeffDerivative gradient", gv(t), double(nv.term(t, a, false)), tolFor(nv.term(t, a, true), d, p), "order " + std::to_string(ord) + " term " + std::to_string(t)); } break; }
    case 3: { fill(DerivativeFlags::Parameters, DerivativeFlags::Parameters); auto gv = grad(T); chk("CoeffDerivative", ex.CoeffDerivative(cache.data(), c, gv), e(d, -1)); for (int t = 0; t < T; ++t) g.close("CoeffDerivative gradient", gv(t), double(nv.term(t, e(d, -1), false)), tolFor(nv.term(t, e(d, -1), true), d, p), "term " + std::to_string(t)); break; }
    case 4: { fill(DerivativeFlags::Input, DerivativeFlags::Input); auto gv = grad(d); chk("InputDerivative", ex.InputDerivative(cache.data(), c, gv), e(d, -1)); for (int i = 0; i < d; ++i) chk("InputDerivative gradient", gv(i), e(d, i), atB); chk("Evaluate", ex.Evaluate(cache.data(), c), e(d, -1)); break; }
    default: { fill(DerivativeFlags::MixedInput, DerivativeFlags::MixedInput); auto gv = grad(d); chk("MixedInputDerivative", ex.MixedInputDerivative(cache.data(), c, gv), e(d, d - 1), atB); for (int i = 0; i < d; ++i) chk("MixedInputDerivative gradient", gv(i), e(d, d - 1, i), atB); }
  }
}
PBT_PROPERTY(expansion_worker, 4000) {
  ref::Opts o; o.fam = g.pick<ref::Family>({ref::PROB, ref::PHYS, ref::HFUN}); o.norm = g.coin();
  bool lin = g.chance(1, 3); if (lin) { o.lin = true; o.lb = g.real(-2.5, 0.5); o.ub = o.lb + g.real(0.5, 3); o.lb = double(o.lb); o.ub = double(o.ub); }
  double lb = double(o.lb), ub = double(o.ub);
  if (o.fam == ref::PROB) { ProbabilistHermite b(o.norm); if (lin) worker(g, LinearizedBasis<ProbabilistHermite>(b, lb, ub), o, "lin prob"); else worker(g, b, o, "prob"); }
  else if (o.fam == ref::PHYS) { PhysicistHermite b(o.norm); if (lin) worker(g, LinearizedBasis<PhysicistHermite>(b, lb, ub), o, "lin phys"); else worker(g, b, o, "phys"); }
  else { HermiteFunction b; if (o.norm) o.norm = false; if (lin) worker(g, LinearizedBasis<HermiteFunction>(b, lb, ub), o, "lin hfun"); else worker(g, b, o, "hfun"); }
}
PBT_PROPERTY(base_function, 700) {
  // the expansion inside a map component is the same sum
  Cfg cfg; int d = g.range(1, 4), N = g.range(1, 3); Node n = genComponent(g, cfg, d); auto f = n.map->GetBaseFunction(); g.check(f != nullptr, "GetBaseFunction", "none");
  VecX c = drawVec(g, n.nc), w = c; f->SetCoeffs(Eigen::Ref<VecX>(w)); g.note() << n.desc << " coeffs " << str(c); if (n.nc > 1) g.nontrivial();
  g.check(int(f->inputDim) == d && f->outputDim == 1 && int(f->numCoeffs) == n.nc, "GetBaseFunction", "sizes");
  Mat x = drawPts(g, d, N, 3); Mat y = f->Evaluate(x);
  for (int j = 0; j < N; ++j) { LV p = col(x, j); Naive nv(n.comp.o, n.comp.m, d, p); g.close("base Evaluate", y(0, j), double(nv.sum(c.data(), e(d, -1), false)), tolFor(nv.sum(c.data(), e(d, -1), true), d, p), "x=" + str(p)); }
}
PBT_PROPERTY(many_terms, 40) {
  // hundreds of terms (more than a byte can count) in tens of dimensions
  int din = g.chance(1, 4) ? g.range(33, 70) : g.range(5, 30), dout = g.range(1, 3), T0 = g.chance(1, 3) ? g.range(257, 900) : g.range(30, 200); Cfg cfg; auto o = drawOpts(g, cfg); auto ms = drawBigMSet(g, din, T0); int T = int(ms.idx.size());
  auto f = MapFactory::CreateExpansion<HS>(dout, ms.fixed, o); auto ro = refOpts(o); g.note() << "expansion " << din << "->" << dout << " " << optDesc(o) << " " << ms.desc; g.nontrivial();
  uint64_t r = g.below(1u << 30) * 2 + 1; VecX c(dout * T); for (int i = 0; i < c.size(); ++i) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; c(i) = double(int64_t(r >> 12)) / double(1LL << 51) - 1; }
  VecX w = c; f->SetCoeffs(Eigen::Ref<VecX>(w));
  Mat x = drawPts(g, din, 1, 2), s = drawPts(g, dout, 1, 2); Mat y = f->Evaluate(x), gr = f->Gradient(x, s), cg = f->CoeffGrad(x, s);
  g.check(y.rows() == dout && gr.rows() == din && cg.rows() == dout * T, "shape", "wrong result shape");
  LV p = col(x, 0); auto e0 = e(din, -1); Naive nv(ro, ms.idx, din, p); bool atB = false; for (auto v : p) if (ro.lin && (v == ro.lb || v == ro.ub)) atB = true;
  for (int k = 0; k < dout; ++k) g.close("Evaluate", y(k, 0), double(nv.sum(&c(k * T), e0, false)), tolFor(nv.sum(&c(k * T), e0, true), din + T / 50, p), "output " + std::to_string(k));
  if (!atB) for (int q = 0; q < 5; ++q) { int i = q == 0 ? din - 1 : int(g.below(din)); ld v = 0, m = 0; for (int k = 0; k < dout; ++k) { v += s(k, 0) * nv.sum(&c(k * T), e(din, i), false); m += std::fabs(s(k, 0)) * nv.sum(&c(k * T), e(din, i), true); } g.close("Gradient", gr(i, 0), double(v), tolFor(m, din + T / 50, p), "input " + std::to_string(i)); }
  for (int k = 0; k < dout; ++k) for (int t = 0; t < T; ++t) g.close("CoeffGrad", cg(k * T + t, 0), double(s(k, 0) * nv.term(t, e0, false)), tolFor(std::fabs(s(k, 0)) * nv.term(t, e0, true), din, p), "coefficient " + std::to_string(k * T + t));
}
