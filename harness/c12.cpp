// C12: a composed map is its layers applied in order; the number of checkpoints changes nothing.
#include "inv.hpp"
using namespace mg;
static const std::vector<int> OPS{EVAL, GRAD, CGRAD, LDET, LDCG, LDIG};
static bool contDeep(Node const& n) { bool c = true; n.visit([&](Node const& k) { if (k.kind == "component" && !k.opts.contDeriv) c = false; }); return c; }
static void equal(G& g, std::string const& tag, Mat const& got, Mat const& want, double rel, std::string const& ctx) {
  g.check(got.rows() == want.rows() && got.cols() == want.cols(), tag, ctx + " shapes differ: " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + " vs " + std::to_string(want.rows()) + "x" + std::to_string(want.cols()));
  for (int i = 0; i < got.rows(); ++i) for (int j = 0; j < got.cols(); ++j) g.close(tag, got(i, j), want(i, j), rel * (1 + std::fabs(want(i, j))), ctx + " entry (" + std::to_string(i) + "," + std::to_string(j) + ")");
}
struct Layers {
  std::vector<Node> k; int d = 0, nc = 0; VecX c; bool cont = true;
  void set(int i) { int off = 0; for (int q = 0; q < i; ++q) off += k[q].nc; if (k[i].nc) { VecX w = c.segment(off, k[i].nc); k[i].map->SetCoeffs(Eigen::Ref<VecX>(w)); } }
  int off(int i) const { int o = 0; for (int q = 0; q < i; ++q) o += k[q].nc; return o; }
  /// expected result from the layers alone
  Mat seq(int op, Mat const& x, Mat const& s) {
    int N = int(x.cols()), L = int(k.size());
    std::vector<Mat> in{x};
    for (int i = 0; i < L; ++i) { set(i); in.push_back(runOp(*k[i].map, EVAL, in[i], in[i])); }
    if (op == EVAL) return in[L];
    if (op == LDET) { Mat r = Mat::Zero(1, N); for (int i = 0; i < L; ++i) r += runOp(*k[i].map, LDET, in[i], in[i]); return r; }
    if (op == GRAD) { Mat v = s; for (int i = L - 1; i >= 0; --i) v = runOp(*k[i].map, GRAD, in[i], v); return v; }
    Mat out = Mat::Zero(nc, N);
    if (op == CGRAD) { Mat v = s; for (int i = L - 1; i >= 0; --i) { if (k[i].nc) out.middleRows(off(i), k[i].nc) = runOp(*k[i].map, CGRAD, in[i], v); v = runOp(*k[i].map, GRAD, in[i], v); } return out; }
    // gradient of the log-determinant: v is the derivative with respect to the input of layer i+1
    Mat v = Mat::Zero(d, N);
    for (int i = L - 1; i >= 0; --i) {
      if (op == LDCG && k[i].nc) { out.middleRows(off(i), k[i].nc) = runOp(*k[i].map, CGRAD, in[i], v); out.middleRows(off(i), k[i].nc) += runOp(*k[i].map, LDCG, in[i], v); }
      if (i > 0 || op == LDIG) { Mat w = runOp(*k[i].map, GRAD, in[i], v); w += runOp(*k[i].map, LDIG, in[i], v); v = w; }
    }
    return op == LDCG ? out : v;
  }
};
static Layers draw(G& g, bool invertible = false) {
  Layers l; l.d = g.range(1, 3); int L = g.chance(2, 5) ? g.range(4, 12) : g.range(1, 4);
  Cfg cfg; cfg.exact = false; cfg.contOnly = g.chance(3, 4); cfg.allowExp = false; cfg.K = L > 4 ? 0.5 : 1; cfg.cheap = true; cfg.box = 2;
  if (invertible) { cfg.ccMin = 14; }
  if (L > 4) cfg.composed = false;
  for (int i = 0; i < L; ++i) { Cfg c = cfg; if (L > 4 && g.coin()) { c.component = c.factory = c.custom = c.summarized = c.single = false; } l.k.push_back(genMap(g, c, l.d, l.d, L > 4 ? 0 : 1)); l.nc += l.k.back().nc; g.note() << l.k.back().desc << " | "; l.cont = l.cont && contDeep(l.k.back()); }
  std::vector<double> v; for (auto& n : l.k) drawCoeffs(g, n, v); l.c = Eigen::Map<VecX>(v.data(), v.size());
  g.note() << " coeffs " << str(l.c); g.label("layers " + std::to_string(L));
  return l;
}
static std::shared_ptr<mpart::ComposedMap<HS>> compose(G& g, Layers& l, int checks) {
  std::vector<std::shared_ptr<CMB>> ms; bool mv = g.coin();
  for (auto& n : l.k) { if (mv) zeroCoeffs(n); ms.push_back(n.map); }
  return std::make_shared<mpart::ComposedMap<HS>>(ms, mv, checks);
}
static void setAll(mpart::ComposedMap<HS>& m, Layers& l) { if (l.nc) { VecX w = l.c; m.SetCoeffs(Eigen::Ref<VecX>(w)); } }

PBT_PROPERTY(layers_in_order, 900) {
  Layers l = draw(g); int L = int(l.k.size()), N = g.range(1, 3); if (L > 1) g.nontrivial();
  int checks = g.range(-1, L + 2); auto m = compose(g, l, checks); setAll(*m, l); g.note() << " maxChecks=" << checks;
  Mat x = drawPts(g, l.d, N, 2), s = drawPts(g, l.d, N, 2);
  std::vector<int> ops; for (int op : OPS) if ((op < LDCG || l.cont) && !((op == CGRAD || op == LDCG) && l.nc == 0)) ops.push_back(op);
  std::vector<Mat> got; std::vector<int> way;
  for (int op : ops) { way.push_back(int(g.below(NWAYS))); got.push_back(runOpIn(g, *m, op, x, s, way.back(), nullptr, int(g.below(4)))); }
  for (size_t q = 0; q < ops.size(); ++q) { Mat want = l.seq(ops[q], x, s); equal(g, opName(ops[q]), got[q], want, 1e-10, std::string("composed vs layers via ") + wayName(way[q])); }
  g.check(int(m->numCoeffs) == l.nc && int(m->inputDim) == l.d && int(m->outputDim) == l.d, "dimensions", "sizes differ from the layers");
  for (int i = 0; i < L; ++i) g.check(m->GetComponent(i) == l.k[i].map, "GetComponent", "layer " + std::to_string(i) + " is not the map it was built from");
}
PBT_PROPERTY(checkpoints, 500) {
  Layers l = draw(g); int L = int(l.k.size()), N = g.range(1, 2); if (L < 2) g.discard("one layer");
  g.nontrivial();
  int a = g.coin() ? g.range(1, L) : 1, b = g.coin() ? -1 : g.range(1, L + 2); g.note() << " maxChecks " << a << " vs " << b;
  std::vector<std::shared_ptr<CMB>> ms; for (auto& n : l.k) ms.push_back(n.map);
  mpart::ComposedMap<HS> A(ms, false, a), B(ms, false, b);
  Mat x = drawPts(g, l.d, N, 2), s = drawPts(g, l.d, N, 2);
  for (int op : OPS) {
    if ((op >= LDCG && !l.cont) || ((op == CGRAD || op == LDCG) && l.nc == 0)) continue;
    setAll(A, l); Mat ra = runOp(A, op, x, s); setAll(B, l); Mat rb = runOp(B, op, x, s);
    equal(g, "maxChecks", ra, rb, 1e-12, std::string(opName(op)));
  }
}
PBT_PROPERTY(coefficient_order, 500) {
  Layers l = draw(g); int L = int(l.k.size()); if (l.nc == 0) g.discard("no coefficients"); if (L > 1) g.nontrivial();
  auto m = compose(g, l, g.range(-1, L)); setAll(*m, l);
  auto all = m->Coeffs(); g.check(int(all.size()) == l.nc, "coefficients", "wrong length");
  int off = 0;
  for (int i = 0; i < L; ++i) if (l.k[i].nc) {
    auto v = l.k[i].map->Coeffs(); g.check(int(v.size()) == l.k[i].nc, "coefficients", "layer " + std::to_string(i) + " has the wrong number");
    for (int q = 0; q < l.k[i].nc; ++q) { g.close("coefficients", all(off + q), l.c(off + q), 0, "concatenation"); g.close("coefficients", v(q), l.c(off + q), 0, "layer " + std::to_string(i) + " coefficient " + std::to_string(q)); }
    off += l.k[i].nc;
  }
  // changing one layer's slice moves the output exactly as changing that layer does
  std::vector<int> with; for (int i = 0; i < L; ++i) if (l.k[i].nc) with.push_back(i);
  int i = g.pick<int>(with); std::vector<double> v; drawCoeffs(g, l.k[i], v); for (int q = 0; q < l.k[i].nc; ++q) l.c(l.off(i) + q) = v[q];
  if (g.coin()) setAll(*m, l); else { auto w = m->Coeffs(); for (int q = 0; q < l.nc; ++q) w(q) = l.c(q); }
  Mat x = drawPts(g, l.d, 2, 2); Mat y = m->Evaluate(x);
  equal(g, "coefficients", y, l.seq(EVAL, x, x), 1e-11, "after changing layer " + std::to_string(i));
}
PBT_PROPERTY(inverse, 600) {
  Layers l = draw(g, true); int L = int(l.k.size()), N = g.range(1, 3); if (L > 1) g.nontrivial();
  auto m = compose(g, l, g.range(-1, L + 1)); setAll(*m, l);
  // a node for the tolerance of the residual
  Node n; n.kind = "composed"; n.kids = l.k; n.din = n.dout = l.d; n.nc = l.nc; LV lc = lv(l.c);
  Mat x = drawPts(g, l.d, N, 1.5); for (int j = 0; j < N; ++j) if (!(n.minDiag(col(x, j), lc.data()) > 3e-3L)) g.discard("nearly flat");
  Mat r = m->Evaluate(x); Mat z;
  int way = int(g.below(NWAYS)); bool guess = g.coin(); z = guess ? drawPts(g, l.d, N, 1.5) : Mat(0, N);
  Mat inv = runOpIn(g, *m, INV, z, r, way, nullptr, int(g.below(4)));
  g.check(inv.rows() == l.d && inv.cols() == N, "shape", "inverse shape");
  Mat y = m->Evaluate(inv);
  double qt = 0; n.visit([&](Node const& k) { if (k.kind == "component" && k.adaptive) qt = std::max(qt, k.opts.quadAbsTol + k.opts.quadRelTol); });
  for (int j = 0; j < N; ++j) {
    LV p = col(inv, j); double tol = double(3 * resTol(n, p, lc.data())) + 400 * L * qt * (1 + r.col(j).cwiseAbs().maxCoeff()) * double(1 + lip(n, p, lc.data(), true));
    for (int i = 0; i < l.d; ++i) { g.check(std::isfinite(inv(i, j)), "finite", "inverse not finite"); g.close("Inverse", y(i, j), r(i, j), tol, "T(Inverse(r)) row " + std::to_string(i)); }
  }
}
PBT_PROPERTY(existing_coefficients, 300) {
  // a composition built with moveCoeffs takes over the coefficients its layers have
  Layers l = draw(g); int L = int(l.k.size()); if (l.nc == 0) g.discard("no coefficients"); if (L > 1) g.nontrivial();
  std::vector<std::shared_ptr<CMB>> ms; for (int i = 0; i < L; ++i) { l.set(i); ms.push_back(l.k[i].map); }
  mpart::ComposedMap<HS> m(ms, true, g.range(-1, L + 1)); g.check(m.CheckCoefficients(), "moveCoeffs", "no coefficients");
  auto v = m.Coeffs(); g.check(int(v.size()) == l.nc, "moveCoeffs", "wrong number of coefficients"); for (int q = 0; q < l.nc; ++q) g.close("moveCoeffs", v(q), l.c(q), 0, "coefficient " + std::to_string(q));
  Mat x = drawPts(g, l.d, 2, 2); Mat y = m.Evaluate(x); equal(g, "moveCoeffs", y, l.seq(EVAL, x, x), 1e-11, "Evaluate after taking over the coefficients");
}
/// up to sixty layers that neither blow up nor collapse: rotations, offsets, identities and gentle components
static Layers manyLayers(G& g) {
  Layers l; l.d = g.range(1, 2); int L = g.range(13, 60); Cfg c; c.exact = false; c.ccOnly = c.cheap = c.contOnly = true; c.allowExp = false; c.K = 0.3; c.box = 3; int comps = 0;
  for (int i = 0; i < L; ++i) {
    int kind = int(g.below(4)); Node n;
    if (kind == 0 && comps < 15) { ++comps; n = l.d == 1 ? genComponent(g, c, 1) : genFactory(g, c, 2, 2); }
    else if (kind == 1) n = genIdentity(l.d, l.d);
    else {
      n.kind = "affine"; n.din = n.dout = l.d; n.hasA = true; n.hasB = kind == 3; double t = g.real(-3, 3), r = g.real(0.85, 1.2); n.A.resize(l.d, l.d);
      if (l.d == 1) n.A(0, 0) = t < 0 ? -r : r; else n.A << r * std::cos(t), -r * std::sin(t), std::sin(t) / r, std::cos(t) / r;
      if (n.hasB) { n.b = drawVec(g, l.d, -0.5, 0.5); n.map = std::make_shared<mpart::AffineMap<HS>>(mg::view(g, n.A), mg::view(n.b)); } else n.map = std::make_shared<mpart::AffineMap<HS>>(mg::view(g, n.A));
      n.desc = "affine";
    }
    l.nc += n.nc; g.note() << n.desc << " | "; l.k.push_back(n);
  }
  std::vector<double> v; for (auto& n : l.k) drawCoeffs(g, n, v); l.c = Eigen::Map<VecX>(v.data(), v.size()); g.note() << " coeffs " << str(l.c); return l;
}
PBT_PROPERTY(many_layers, 100) {
  Layers l = manyLayers(g); int L = int(l.k.size()), checks = g.chance(2, 3) ? g.range(1, 8) : g.range(-1, L + 2); auto m = compose(g, l, checks); setAll(*m, l); g.note() << " maxChecks=" << checks; g.nontrivial();
  g.label(checks > 0 && checks <= 8 ? "few checkpoints" : "many checkpoints");
  Mat x = drawPts(g, l.d, 2, 2), s = drawPts(g, l.d, 2, 2); { Mat y = l.seq(EVAL, x, x); setAll(*m, l); if (!(y.cwiseAbs().maxCoeff() < 100)) g.discard("grows"); }
  std::vector<Mat> got; std::vector<int> ops; for (int op : OPS) if (!((op == CGRAD || op == LDCG) && l.nc == 0)) { ops.push_back(op); got.push_back(runOpIn(g, *m, op, x, s, int(g.below(NWAYS)), nullptr, int(g.below(4)))); }
  for (size_t q = 0; q < ops.size(); ++q) { Mat want = l.seq(ops[q], x, s); double big = want.size() ? want.cwiseAbs().maxCoeff() : 0; equal(g, opName(ops[q]), got[q], want, 1e-9 * (1 + big), "composed vs " + std::to_string(L) + " layers"); }
}
