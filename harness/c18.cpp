// C18: the result for a point depends on that point and the coefficients only.
#include "MParT/Sigmoid.h"
#include "ops.hpp"
using namespace mg;
static const std::vector<int> OPS{EVAL, GRAD, CGRAD, LDET, LDCG, LDIG, INV};
static bool contDeep(Node const& n) { bool c = true; n.visit([&](Node const& k) { if (k.kind == "component" && !k.opts.contDeriv) c = false; }); return c; }
static bool nontrivialMap(Node const& n) { bool t = false; n.visit([&](Node const& k) { if (k.kind == "component" || k.kind == "affine") t = true; }); return t; }
static bool hasAffine(Node const& n) { bool t = false; n.visit([&](Node const& k) { if (k.kind == "affine" || k.kind == "summarized") t = true; }); return t; }
static bool offered(Node const& n, int op, bool cont) {
  if (op == LDIG && !cont) return false;
  if (op == LDCG && !cont && n.count("composed") > 0) return false;
  if ((op == CGRAD || op == LDCG) && n.nc == 0) return false;
  if (op == INV && hasAffine(n) && n.count("component") > 0) return false;  // (rounding may move the root finder's path)
  return true;
}
static void same(G& g, std::string const& t, Mat const& a, Mat const& b, double rel, std::string const& ctx) {
  g.check(a.rows() == b.rows() && a.cols() == b.cols(), t, ctx + " shapes " + std::to_string(a.rows()) + "x" + std::to_string(a.cols()) + " vs " + std::to_string(b.rows()) + "x" + std::to_string(b.cols()));
  double sc = rel == 0 ? 0 : rel * (1 + maxAbs(b));
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) g.close(t, a(i, j), b(i, j), sc, ctx + " entry (" + std::to_string(i) + "," + std::to_string(j) + ")");
}
static Mat cols(Mat const& m, std::vector<int> const& p) { Mat r(m.rows(), p.size()); for (size_t j = 0; j < p.size(); ++j) r.col(j) = m.col(p[j]); return r; }
static Built draw(G& g) {
  Cfg cfg; cfg.exact = false; cfg.box = 2; cfg.K = g.pick<double>({1, 2}); cfg.contOnly = g.coin(); cfg.ccMin = 12; cfg.allowExp = g.chance(1, 3);
  return build(g, cfg, 2, 3, 2);
}
/// sensitivities, or reachable outputs for the inverse
static Mat second(G& g, Node const& n, int op, Mat const& x) { if (op != INV) return drawPts(g, n.dout, int(x.cols()), 2); if (x.cols() == 0) return Mat(n.dout, 0); return n.map->Evaluate(x); }
static Mat first(Node const& n, int op, Mat const& x, bool guess) { return op == INV && !guess ? Mat(x.topRows(n.din - n.dout)) : x; }

PBT_PROPERTY(columns_are_independent, 800) {
  Built b = draw(g); bool cont = contDeep(b.n); if (nontrivialMap(b.n)) g.nontrivial();
  int N = g.chance(1, 6) ? g.range(20, 70) : g.range(0, 6); g.label(N == 0 ? "empty batch" : N == 1 ? "one column" : N < 7 ? "2-6 columns" : "20-70 columns");
  Mat x = drawPts(g, b.n.din, N, 2); std::vector<int> ops; for (int op : OPS) if (offered(b.n, op, cont)) ops.push_back(op);
  int op = g.pick<int>(ops), way = int(g.below(NWAYS)), way1 = int(g.below(NWAYS)); bool guess = g.coin();
  Mat s = second(g, b.n, op, x), f = first(b.n, op, x, guess); bool ok;
  Mat all = runOp(*b.n.map, op, f, s, way, &ok, int(g.below(4)));
  g.check(ok, "inputs", std::string(opName(op)) + " via " + wayName(way) + " changed its inputs or wrote outside its result");
  g.check(all.rows() == outRows(*b.n.map, op) && all.cols() == N, "shape", std::string(opName(op)) + " of " + std::to_string(N) + " columns has the wrong shape");
  double tol = hasAffine(b.n) || b.n.count("composed") > 0 || way != way1 ? 1e-11 : 1e-13;
  std::vector<int> some; for (int j = 0; j < N && j < 8; ++j) some.push_back(N <= 8 ? j : int(g.below(N)));
  for (int j : some) {
    Mat one = runOp(*b.n.map, op, f.col(j), s.col(j), way1, &ok, int(g.below(4)));
    same(g, std::string("alone: ") + opName(op), all.col(j), one, tol, "column " + std::to_string(j) + " of " + std::to_string(N) + " via " + wayName(way) + " against alone via " + wayName(way1));
  }
  // permuted, with repetitions and omissions
  if (N > 0) {
    std::vector<int> p; int M = g.range(1, N + 2); for (int j = 0; j < M; ++j) p.push_back(int(g.below(N)));
    Mat r = runOp(*b.n.map, op, cols(f, p), cols(s, p), way1, &ok, int(g.below(4)));
    same(g, std::string("reordered: ") + opName(op), r, cols(all, p), tol, std::string("via ") + wayName(way1));
  }
  if (b.n.nc) { auto c = b.n.map->Coeffs(); g.check(int(c.size()) == b.n.nc, "coefficients", "length changed"); for (int i = 0; i < b.n.nc; ++i) g.close("coefficients", c(i), b.c(i), 0, "changed by evaluation"); }
}
PBT_PROPERTY(layouts_and_libraries, 900) {
  Built b = draw(g); bool cont = contDeep(b.n); if (nontrivialMap(b.n)) g.nontrivial();
  int N = g.range(0, 5); Mat x = drawPts(g, b.n.din, N, 2); bool guess = g.coin();
  double tol = hasAffine(b.n) || b.n.count("composed") > 0 ? 1e-11 : 1e-13;
  for (int op : OPS) {
    if (!offered(b.n, op, cont)) continue;
    Mat s = second(g, b.n, op, x), f = first(b.n, op, x, guess); bool ok;
    Mat base = runOp(*b.n.map, op, f, s, EIGEN, &ok); g.check(ok, "inputs", "Eigen inputs changed");
    for (int way = LEFT; way < NWAYS; ++way) for (int ow = 1; ow <= (way == IMPL ? 4 : 1); ++ow) {
      if (way == IMPL && ow != 1 && !g.chance(1, 2)) continue;
      Mat r = runOp(*b.n.map, op, f, s, way, &ok, ow, g.pick<double>({3.5e5, -1.0, 1e-3}));
      g.check(ok, "inputs", std::string(opName(op)) + " via " + wayName(way) + " changed its inputs or wrote outside its result");
      same(g, std::string("layout: ") + opName(op), r, base, tol, std::string("via ") + wayName(way) + " result " + wayName(ow));
    }
  }
}
PBT_PROPERTY(earlier_calls_do_not_matter, 900) {
  Built b = draw(g), o = draw(g); bool cb = contDeep(b.n), co = contDeep(o.n); if (nontrivialMap(b.n)) g.nontrivial();
  int N = g.range(1, 4); Mat x = drawPts(g, b.n.din, N, 2); std::vector<int> ops; for (int op : OPS) if (offered(b.n, op, cb)) ops.push_back(op);
  int op = g.pick<int>(ops), way = int(g.below(NWAYS)), ow = int(g.below(4)); bool guess = g.coin(), ok; Mat s = second(g, b.n, op, x), f = first(b.n, op, x, guess);
  Mat base = runOp(*b.n.map, op, f, s, way, &ok, ow); int steps = g.range(1, 8);
  for (int t = 0; t < steps; ++t) {
    bool self = g.chance(2, 3); Node& n = self ? b.n : o.n; bool c = self ? cb : co; int q = int(g.below(NOPS)); if (!offered(n, q, c)) continue;
    Mat y = drawPts(g, n.din, g.chance(1, 8) ? 25 : g.range(0, 4), g.pick<double>({2, 1}));
    Mat s2 = second(g, n, q, y); runOp(*n.map, q, first(n, q, y, g.coin()), s2, int(g.below(NWAYS)), &ok, int(g.below(4)));
    if (self && n.nc && g.chance(1, 4)) { // other coefficients in between, then the same ones again
      VecX w = drawVec(g, n.nc, -0.2, 0.2), z = b.c; n.map->SetCoeffs(Eigen::Ref<VecX>(w)); runOp(*n.map, EVAL, y, y, int(g.below(NWAYS)), &ok); n.map->SetCoeffs(Eigen::Ref<VecX>(z)); g.label("coefficients changed and restored");
    }
    if (g.chance(1, 3)) same(g, std::string("history: ") + opName(op), runOp(*b.n.map, op, f, s, way, &ok, ow), base, 0, "repeated after " + std::to_string(t + 1) + " other calls");
  }
  same(g, std::string("history: ") + opName(op), runOp(*b.n.map, op, f, s, way, &ok, ow), base, 0, "repeated after " + std::to_string(steps) + " other calls");
}
PBT_PROPERTY(functions, 700) {
  int din = g.range(1, 4), dout = g.range(1, 3), N = g.range(0, 5); std::shared_ptr<PFB> f; Cfg cfg; bool many = g.chance(1, 40); if (many) { N = g.range(200, 5000); g.label("many columns"); }
  if (g.chance(1, 8)) { din = dout = 1; int n = g.range(1, 9); static thread_local std::vector<Kokkos::View<double*, HS>> keep; keep.assign({Kokkos::View<double*, HS>("c", n), Kokkos::View<double*, HS>("w", n)}); for (int i = 0; i < n; ++i) { keep[0](i) = g.real(-3, 3); keep[1](i) = g.real(-3, 3); } f = std::make_shared<mpart::Sigmoid1d<HS, mpart::Logistic>>(mpart::StridedVector<const double, HS>(keep[0]), mpart::StridedVector<const double, HS>(keep[1])); VecX c = drawVec(g, n); f->SetCoeffs(Eigen::Ref<VecX>(c)); g.note() << "sum of " << n << " sigmoids"; }
  else if (g.chance(1, 4)) { if (din < dout) std::swap(din, dout); Mat A(dout, din); for (int i = 0; i < A.size(); ++i) A.data()[i] = g.real(-1, 1); VecX b = drawVec(g, dout); f = std::make_shared<mpart::AffineFunction<HS>>(view(g, A), view(b)); g.note() << "affine function"; }
  else { auto o = drawOpts(g, cfg); auto ms = drawMSet(g, din, orderFor(g, din, false)); f = mpart::MapFactory::CreateExpansion<HS>(dout, ms.fixed, o); VecX c = drawVec(g, f->numCoeffs); f->SetCoeffs(Eigen::Ref<VecX>(c)); g.note() << "expansion " << din << "->" << dout << " " << optDesc(o) << ms.desc; }
  g.nontrivial();
  Mat x = many ? manyPts(g, din, N, 2) : drawPts(g, din, N, 2), s = many ? manyPts(g, dout, N, 2) : drawPts(g, dout, N, 2);
  auto run = [&](int op, Mat const& xx, Mat const& ss, int way) -> Mat {
    if (way == 0) return op == 0 ? Mat(f->Evaluate(xx)) : op == 1 ? Mat(f->Gradient(xx, ss)) : Mat(f->CoeffGrad(xx, ss));
    Buf bx(xx, way), bs(ss, way); auto vx = bx.cview(), vs = bs.cview(); Mat r = op == 0 ? toMat(f->Evaluate(vx)) : op == 1 ? toMat(f->Gradient(vx, vs)) : toMat(f->CoeffGrad(vx, vs));
    g.check(bx.intact() && bs.intact(), "inputs", "inputs changed"); return r;
  };
  for (int op = 0; op < 3; ++op) {
    if (op == 2 && f->numCoeffs == 0) continue;
    Mat base = run(op, x, s, 0); g.check(base.rows() == (op == 0 ? dout : op == 1 ? din : int(f->numCoeffs)) && base.cols() == N, "shape", "wrong shape");
    for (int w = 1; w < 5; ++w) same(g, "function layout", run(op, x, s, w), base, 1e-13, std::string("op ") + std::to_string(op) + " via " + wayName(w));
    for (int q = 0; q < std::min(N, 8); ++q) if (int j = many ? int(g.below(N)) : q; j < N) same(g, "function alone", run(op, x.col(j), s.col(j), int(g.below(5))), base.col(j), 1e-13, std::string("op ") + std::to_string(op) + " column " + std::to_string(j));
  }
}
PBT_PROPERTY(array_library_arguments, 500) {
  // Eigen blocks and strided maps of larger matrices, column-major and row-major
  Built b = draw(g); if (nontrivialMap(b.n)) g.nontrivial(); int N = g.range(1, 4), d = b.n.din; Mat x = drawPts(g, d, N, 2), s = drawPts(g, b.n.dout, N, 2);
  Eigen::MatrixXd big = Eigen::MatrixXd::Constant(d + 3, N + 3, 5e6); big.block(1, 2, d, N) = x; Mat bigR = Mat::Constant(d + 3, 2 * N + 3, 5e6); bigR.block(2, 1, d, N) = x;
  Mat base = b.n.map->Evaluate(x), gb = b.n.map->Gradient(x, s);
  same(g, "Eigen block", b.n.map->Evaluate(big.block(1, 2, d, N)), base, 1e-11, "column-major block");
  same(g, "Eigen block", b.n.map->Evaluate(bigR.block(2, 1, d, N)), base, 1e-11, "row-major block");
  same(g, "Eigen block", b.n.map->Gradient(bigR.block(2, 1, d, N), s), gb, 1e-11, "row-major block");
  Eigen::MatrixXd xc = x, sc = s; same(g, "Eigen block", b.n.map->Gradient(xc, sc), gb, 1e-11, "column-major matrices");
  Eigen::VectorXd ldv = b.n.map->LogDeterminant(bigR.block(2, 1, d, N)); for (int j = 0; j < N; ++j) g.close("Eigen block", ldv(j), b.n.map->LogDeterminant(Mat(x.col(j)))(0), 1e-11 * (1 + std::fabs(ldv(j))), "LogDeterminant");
  g.check((big.block(1, 2, d, N).array() == x.array()).all() && (bigR.block(2, 1, d, N).array() == x.array()).all(), "inputs", "block changed");
}
PBT_PROPERTY(many_columns, 40) {
  // large batches made of a few distinct points: every column equals the result of its point
  Cfg cfg; cfg.exact = false; cfg.ccOnly = true; cfg.cheap = true; cfg.box = 2; cfg.K = 1; cfg.contOnly = g.coin(); cfg.ccMin = 12; cfg.allowExp = false;
  Built b = build(g, cfg, 1, 3, 1); bool cont = contDeep(b.n); if (nontrivialMap(b.n)) g.nontrivial();
  int k = g.pick<int>({1, 3, 7, 11}), N = g.pick<int>({100, 255, 513, 1025, 2049, 3000, 4099}) + int(g.below(5)); g.label(N > 1000 ? "over 1000 columns" : "100-1000 columns");
  Mat base = drawPts(g, b.n.din, k, 2); std::vector<int> p; int step = g.pick<int>({1, 2}); for (int j = 0; j < N; ++j) p.push_back((j * step + j / 64) % k);
  Mat x = cols(base, p);
  for (int op : OPS) {
    if (!offered(b.n, op, cont)) continue;
    Mat s = second(g, b.n, op, base), f = first(b.n, op, base, g.coin()); bool ok; int way = int(g.below(NWAYS));
    Mat few = runOp(*b.n.map, op, f, s, way, &ok), all = runOp(*b.n.map, op, cols(f, p), cols(s, p), way, &ok);
    g.check(ok, "inputs", std::string(opName(op)) + " changed its inputs or wrote outside its result");
    g.check(all.cols() == N, "shape", "wrong number of columns");
    same(g, std::string("many: ") + opName(op), all, cols(few, p), 1e-11, std::to_string(N) + " columns via " + wayName(way));
  }
}
