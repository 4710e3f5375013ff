// C11: triangular maps act block by block.
#include "inv.hpp"
using namespace mg;

static const std::vector<int> OPS{EVAL, GRAD, CGRAD, LDET, LDCG, LDIG};
static bool contDeep(Node const& n) { bool c = true; n.visit([&](Node const& k) { if (k.kind == "component" && !k.opts.contDeriv) c = false; }); return c; }
static bool nontrivialMap(Node const& n) { bool t = false; n.visit([&](Node const& k) { if (k.kind == "component" || k.kind == "affine") t = true; }); return t; }
static void equal(G& g, std::string const& tag, Mat const& got, Mat const& want, double rel, std::string const& ctx) {
  g.check(got.rows() == want.rows() && got.cols() == want.cols(), tag, ctx + " shapes differ: " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + " vs " + std::to_string(want.rows()) + "x" + std::to_string(want.cols()));
  for (int i = 0; i < got.rows(); ++i) for (int j = 0; j < got.cols(); ++j) g.close(tag, got(i, j), want(i, j), rel * (1 + std::fabs(want(i, j))), ctx + " entry (" + std::to_string(i) + "," + std::to_string(j) + ")");
}
static Built tri(G& g, Cfg const& cfg, int maxOut = 4) {
  Built b; int dout = g.range(1, maxOut), din = dout + (g.coin() ? 0 : g.range(0, 2));
  b.n = g.chance(1, 5) ? genFactory(g, cfg, din, dout) : g.chance(1, 8) && din == dout && din > 1 ? genSingle(g, cfg, din) : genCustom(g, cfg, din, dout, 2);
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c);
  b.n.visit([&](Node const& k) { g.label(k.kind); });
  if (din > dout) g.label("conditioning inputs");
  g.note() << b.n.desc << " coeffs " << str(b.c);
  if (b.n.kids.size() > 1 && nontrivialMap(b.n)) g.nontrivial();
  return b;
}
static Cfg cheapCfg(G& g) { Cfg c; c.exact = false; c.box = 2; c.K = g.pick<double>({1, 2}); c.cheap = g.coin(); c.contOnly = g.coin(); return c; }
/// the expected result of an operation from the blocks alone
static Mat fromBlocks(Node& n, VecX const& c, int op, Mat const& x, Mat const& s) {
  int N = int(x.cols()), row = 0, off = 0;
  Mat r = Mat::Zero(op == EVAL ? n.dout : op == LDET ? 1 : op == CGRAD || op == LDCG ? n.nc : n.din, N);
  for (auto& k : n.kids) {
    if (k.nc) { VecX w = c.segment(off, k.nc); k.map->SetCoeffs(Eigen::Ref<VecX>(w)); }
    if (!(k.nc == 0 && (op == CGRAD || op == LDCG))) {
      Mat kr = runOp(*k.map, op, x.topRows(k.din), s.middleRows(row, k.dout));
      if (op == EVAL) r.middleRows(row, k.dout) = kr;
      else if (op == LDET) r += kr;
      else if (op == CGRAD || op == LDCG) r.middleRows(off, k.nc) = kr;
      else r.topRows(k.din) += kr;
    }
    row += k.dout; off += k.nc;
  }
  return r;
}
PBT_PROPERTY(blocks, 1500) {
  Cfg cfg = cheapCfg(g); Built b = tri(g, cfg); int N = g.range(1, 3);
  Mat x = drawPts(g, b.n.din, N, 2), s = drawPts(g, b.n.dout, N, 2);
  bool cont = contDeep(b.n); std::vector<Mat> got(NOPS); std::vector<int> way(NOPS), ops;
  for (int op : OPS) { if (!cont && (op == LDIG || (op == LDCG && b.n.count("composed") > 0))) continue; if ((op == CGRAD || op == LDCG) && b.n.nc == 0) continue; ops.push_back(op); way[op] = int(g.below(NWAYS)); got[op] = runOpIn(g, *b.n.map, op, x, s, way[op], nullptr, int(g.below(4))); }
  for (int op : ops) equal(g, opName(op), got[op], fromBlocks(b.n, b.c, op, x, s), 1e-12, std::string("whole map vs blocks, via ") + wayName(way[op]));
}
PBT_PROPERTY(later_inputs_do_not_matter, 500) {
  Cfg cfg = cheapCfg(g); Built b = tri(g, cfg); int N = g.range(1, 2);
  Mat x = drawPts(g, b.n.din, N, 2); Mat y = b.n.map->Evaluate(x);
  int i = int(g.below(b.n.kids.size())); int from = b.n.kids[i].din, row = 0; for (int k = 0; k <= i; ++k) row += b.n.kids[k].dout;
  Mat x2 = x; for (int r = from; r < b.n.din; ++r) for (int j = 0; j < N; ++j) x2(r, j) = g.real(-2, 2);
  Mat y2 = b.n.map->Evaluate(x2);
  equal(g, "independence", y2.topRows(row), y.topRows(row), 0, "outputs of blocks 0.." + std::to_string(i) + " after changing inputs " + std::to_string(from) + "..");
  // gradients of those outputs do not reach later inputs, nor later coefficients
  Mat s = Mat::Zero(b.n.dout, N); for (int r = 0; r < row; ++r) for (int j = 0; j < N; ++j) s(r, j) = g.real(-2, 2);
  Mat gr = b.n.map->Gradient(x, s);
  for (int r = from; r < b.n.din; ++r) for (int j = 0; j < N; ++j) g.close("independence", gr(r, j), 0, 0, "gradient of early outputs with respect to input " + std::to_string(r));
}
PBT_PROPERTY(coefficient_slices, 700) {
  Cfg cfg = cheapCfg(g); cfg.affine = cfg.identity = g.chance(1, 4); Built b = tri(g, cfg); int N = g.range(1, 2);
  if (b.n.nc == 0) g.discard("no coefficients");
  Mat x = drawPts(g, b.n.din, N, 2); Mat y = b.n.map->Evaluate(x); Mat ld0 = runOp(*b.n.map, LDET, x, x);
  std::vector<int> with; for (size_t i = 0; i < b.n.kids.size(); ++i) if (b.n.kids[i].nc) with.push_back(int(i));
  int i = g.pick<int>(with), off = 0, row = 0; for (int k = 0; k < i; ++k) { off += b.n.kids[k].nc; row += b.n.kids[k].dout; }
  Node& k = b.n.kids[i];
  std::vector<double> nc; drawCoeffs(g, k, nc); VecX c = b.c; for (int q = 0; q < k.nc; ++q) c(off + q) = nc[q] * 0.7 + 0.05;
  int how = int(g.below(3));
  if (how == 0) { VecX w = c; b.n.map->SetCoeffs(Eigen::Ref<VecX>(w)); }
  else if (how == 1) { auto v = b.n.map->Coeffs(); for (int q = 0; q < k.nc; ++q) v(off + q) = c(off + q); }
  else { VecX w = c.segment(off, k.nc); auto v = k.map->Coeffs(); for (int q = 0; q < k.nc; ++q) v(q) = w(q); }   // (the block's own view)
  Mat y2 = b.n.map->Evaluate(x);
  for (int r = 0; r < b.n.dout; ++r) if (r < row || r >= row + k.dout) for (int j = 0; j < N; ++j) g.close("slices", y2(r, j), y(r, j), 0, "output " + std::to_string(r) + " after changing the coefficients of block " + std::to_string(i));
  VecX w = c.segment(off, k.nc); k.map->SetCoeffs(Eigen::Ref<VecX>(w));
  equal(g, "slices", y2.middleRows(row, k.dout), k.map->Evaluate(Mat(x.topRows(k.din))), 1e-12, "block " + std::to_string(i) + " after changing its slice");
}
PBT_PROPERTY(structure, 400) {
  Cfg cfg = cheapCfg(g); Built b = tri(g, cfg); auto t = std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(b.n.map);
  g.check(int(t->inputDim) == b.n.din && int(t->outputDim) == b.n.dout && int(t->numCoeffs) == b.n.nc, "dimensions", "dimensions or coefficient count differ from the sum of the blocks");
  if (b.n.desc.substr(0, 6) != "Create" && b.n.desc.substr(0, 6) != "single")
    for (size_t i = 0; i < b.n.kids.size(); ++i) g.check(t->GetComponent(i) == b.n.kids[i].map, "GetComponent", "component " + std::to_string(i) + " is not the block the map was built from");
  int at = b.n.din - b.n.dout, nc = 0;
  for (size_t i = 0; i < b.n.kids.size(); ++i) { auto c = t->GetComponent(i); at += c->outputDim; nc += c->numCoeffs; g.check(int(c->inputDim) == at && int(c->numCoeffs) == b.n.kids[i].nc, "GetComponent", "component " + std::to_string(i) + " has the wrong dimensions"); }
  g.check(nc == b.n.nc, "GetComponent", "coefficients do not add up");
  bool threw = false; try { t->GetComponent(unsigned(b.n.kids.size() + g.below(3))); } catch (std::exception&) { threw = true; }
  g.check(threw, "GetComponent", "no exception for a block that does not exist");
  // what the component computes is its own block
  Mat x = drawPts(g, b.n.din, 2, 2); Mat y = b.n.map->Evaluate(x); int row = 0;
  for (size_t i = 0; i < b.n.kids.size(); ++i) { auto c = t->GetComponent(i); equal(g, "GetComponent", c->Evaluate(Mat(x.topRows(c->inputDim))), y.middleRows(row, c->outputDim), 1e-12, "component " + std::to_string(i)); row += c->outputDim; }
}
PBT_PROPERTY(inverse_in_place, 700) {
  Cfg cfg = cheapCfg(g); cfg.allowExp = false; cfg.K = 1; cfg.ccMin = 12; Built b = tri(g, cfg, 3); int N = g.range(1, 3), extra = b.n.din - b.n.dout;
  auto t = std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(b.n.map);
  Mat x = drawPts(g, b.n.din, N, 2); for (int j = 0; j < N; ++j) if (!(b.n.minDiag(col(x, j), b.lc.data()) > 1e-3L)) g.discard("nearly flat");
  Mat r = b.n.map->Evaluate(x);
  Mat z = x; for (int i = extra; i < b.n.din; ++i) for (int j = 0; j < N; ++j) z(i, j) = g.real(-2, 2);  // initial guesses
  Buf bz(z, int(g.range(1, 4))), br(r, int(g.range(1, 4))); t->InverseInplace(bz.view(), br.cview());
  g.check(br.intact() && bz.padIntact(), "writes", "InverseInplace changed memory it should not");
  Mat out = toMat(bz.view());
  for (int i = 0; i < extra; ++i) for (int j = 0; j < N; ++j) g.close("InverseInplace", out(i, j), x(i, j), 0, "conditioning input changed");
  double qt = 0; b.n.visit([&](Node const& k) { if (k.kind == "component" && k.adaptive) qt = std::max(qt, k.opts.quadAbsTol + k.opts.quadRelTol); });
  Mat y = b.n.map->Evaluate(out);
  Mat full = runOpIn(g, *b.n.map, INV, z, r, int(g.below(NWAYS)));
  for (int j = 0; j < N; ++j) {
    LV p = col(out, j); double tol = double(3 * resTol(b.n, p, b.lc.data())) + 400 * qt * (1 + r.col(j).cwiseAbs().maxCoeff()) * double(1 + lip(b.n, p, b.lc.data(), true));
    for (int i = 0; i < b.n.dout; ++i) g.close("InverseInplace", y(i, j), r(i, j), tol, "T(result) row " + std::to_string(i));
    for (int i = 0; i < b.n.dout; ++i) g.close("InverseInplace = Inverse", full(i, j), out(extra + i, j), 1e-12 * (1 + std::fabs(out(extra + i, j))), "same guess, row " + std::to_string(i));
  }
}
PBT_PROPERTY(factory, 500) {
  // CreateTriangular is the triangular map of total-order components with the same options
  Cfg cfg; cfg.exact = false; cfg.contOnly = g.coin(); mpart::MapOptions o = drawOpts(g, cfg);
  int dout = g.range(1, 4), din = dout + g.range(0, 2), p = g.range(0, din > 3 ? 2 : 3), N = 2;
  auto m = mpart::MapFactory::CreateTriangular<HS>(din, dout, p, o);
  std::vector<std::shared_ptr<CMB>> cs; for (int i = 0; i < dout; ++i) cs.push_back(mpart::MapFactory::CreateComponent<HS>(mpart::FixedMultiIndexSet<HS>(din - dout + i + 1, p), o));
  auto q = std::make_shared<mpart::TriangularMap<HS>>(cs);
  g.note() << "CreateTriangular(" << din << "," << dout << "," << p << " " << optDesc(o) << ")"; g.nontrivial();
  g.check(m->numCoeffs == q->numCoeffs && m->inputDim == q->inputDim && m->outputDim == q->outputDim, "factory", "sizes differ");
  // fresh factory maps have usable coefficients, all zero
  g.check(m->CheckCoefficients(), "factory", "no coefficients");
  { auto c = m->Coeffs(); for (size_t i = 0; i < c.size(); ++i) g.close("factory", c(i), 0, 0, "initial coefficient"); }
  VecX c = drawVec(g, m->numCoeffs, -0.3, 0.3), c2 = c; m->SetCoeffs(Eigen::Ref<VecX>(c)); q->SetCoeffs(Eigen::Ref<VecX>(c2));
  Mat x = drawPts(g, din, N, 2), s = drawPts(g, dout, N, 2);
  for (int op : OPS) { if (op == LDIG && !o.contDeriv) continue; equal(g, "factory", runOp(*m, op, x, s), runOp(*q, op, x, s), 1e-13, opName(op)); }
}
PBT_PROPERTY(single_entry, 500) {
  Cfg cfg = cheapCfg(g); int d = g.range(2, 5), a = g.range(1, d), N = g.range(1, 3);
  Node k = genComponent(g, cfg, a); bool pre = g.coin(); VecX c;
  if (pre) c = setCoeffs(g, k); else zeroCoeffs(k);
  auto m = mpart::MapFactory::CreateSingleEntryMap<HS>(d, a, k.map);
  if (!pre) { std::vector<double> v; drawCoeffs(g, k, v); c = Eigen::Map<VecX>(v.data(), v.size()); VecX w = c; m->SetCoeffs(Eigen::Ref<VecX>(w)); }
  g.note() << "single entry " << d << " active " << a << " " << k.desc << " coeffs " << str(c) << (pre ? " set before" : " set after"); g.nontrivial();
  g.check(int(m->inputDim) == d && int(m->outputDim) == d && int(m->numCoeffs) == k.nc, "single entry", "dimensions");
  Mat x = drawPts(g, d, N, 2), s = drawPts(g, d, N, 2); Mat xa = x.topRows(a);
  Mat want = x; want.row(a - 1) = k.map->Evaluate(xa);
  equal(g, "single entry", runOp(*m, EVAL, x, s, int(g.below(NWAYS))), want, 1e-13, "Evaluate");
  equal(g, "single entry", runOp(*m, LDET, x, s, int(g.below(NWAYS))), runOp(*k.map, LDET, xa, xa), 1e-13, "LogDeterminant");
  Mat gr = s; gr.row(a - 1).setZero(); gr.topRows(a) += runOp(*k.map, GRAD, xa, s.row(a - 1));
  equal(g, "single entry", runOpIn(g, *m, GRAD, x, s, int(g.below(NWAYS))), gr, 1e-13, "Gradient");
  equal(g, "single entry", runOpIn(g, *m, CGRAD, x, s, int(g.below(NWAYS))), runOp(*k.map, CGRAD, xa, s.row(a - 1)), 1e-13, "CoeffGrad");
}
/// many small blocks: affine, identity and components with a few terms, in up to some forty dimensions
static Built manyBlocks(G& g) {
  Built b; Node& n = b.n; n.kind = "triangular"; int B = g.range(5, 24), extra = g.coin() ? 0 : g.range(1, 3), at = extra; std::vector<std::shared_ptr<CMB>> ms; n.desc = "triangular[";
  Cfg c; c.exact = false; c.ccOnly = c.cheap = c.contOnly = true; c.allowExp = false; c.K = 1; c.box = 2; c.ccMin = 12; c.big = g.range(2, 8);
  for (int i = 0; i < B; ++i) {
    int m = g.chance(1, 2) ? 0 : g.range(1, 3); bool id = m && g.chance(1, 4);
    Node k = m == 0 ? genComponent(g, c, at + 1) : id ? genIdentity(at + m, m) : genAffine(g, c, at + m, m);
    at += k.dout; n.nc += k.nc; n.desc += k.desc + "; "; ms.push_back(k.map); n.kids.push_back(k);
  }
  n.din = at; n.dout = at - extra; bool mv = g.coin(); if (mv) for (auto& k : n.kids) zeroCoeffs(k);
  n.map = std::make_shared<mpart::TriangularMap<HS>>(ms, mv); n.desc += mv ? "]mv" : "]";
  b.c = setCoeffs(g, n); b.lc = lv(b.c); g.note() << n.desc << " coeffs " << str(b.c); g.label(B > 12 ? "more than 12 blocks" : "up to 12 blocks"); return b;
}
PBT_PROPERTY(many_blocks, 60) {
  Built b = manyBlocks(g); int N = g.range(1, 2), extra = b.n.din - b.n.dout; g.nontrivial();
  Mat x = drawPts(g, b.n.din, N, 2), s = drawPts(g, b.n.dout, N, 2);
  for (int op : OPS) { if ((op == CGRAD || op == LDCG) && b.n.nc == 0) continue; int way = int(g.below(NWAYS)); Mat r = runOpIn(g, *b.n.map, op, x, s, way, nullptr, int(g.below(4))); equal(g, opName(op), r, fromBlocks(b.n, b.c, op, x, s), 1e-11, std::string("whole map vs blocks, via ") + wayName(way)); }
  auto t = std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(b.n.map); int i = int(g.below(b.n.kids.size())); g.check(t->GetComponent(i) == b.n.kids[i].map, "GetComponent", "component " + std::to_string(i));
  // the inverse solves every block for its own outputs
  Mat r = b.n.map->Evaluate(x), x1 = x.topRows(extra), z = b.n.map->Inverse(x1, r); Mat full = x; full.bottomRows(b.n.dout) = z; Mat y = b.n.map->Evaluate(full);
  for (int j = 0; j < N; ++j) { LV p = col(full, j); if (!(b.n.minDiag(p, b.lc.data()) > 1e-3L)) continue; double tol = double(3 * resTol(b.n, p, b.lc.data())); for (int i = 0; i < b.n.dout; ++i) g.close("Inverse", y(i, j), r(i, j), tol, "T(Inverse(r)) row " + std::to_string(i)); }
}
PBT_PROPERTY(existing_coefficients, 300) {
  // a map built with moveCoeffs takes over the coefficients its blocks have
  Cfg cfg = cheapCfg(g); Built b = tri(g, cfg); if (b.n.nc == 0) g.discard("no coefficients");
  std::vector<std::shared_ptr<CMB>> ms; int off = 0; std::vector<Kokkos::View<double*, HS>> own;
  for (auto& k : b.n.kids) { if (k.nc) { Kokkos::View<double*, HS> v("own", k.nc); for (int q = 0; q < k.nc; ++q) v(q) = b.c(off + q); own.push_back(v); k.map->WrapCoeffs(v); } off += k.nc; ms.push_back(k.map); }
  auto m = std::make_shared<mpart::TriangularMap<HS>>(ms, true); g.check(m->CheckCoefficients(), "moveCoeffs", "no coefficients");
  auto v = m->Coeffs(); g.check(int(v.size()) == b.n.nc, "moveCoeffs", "wrong number of coefficients"); for (int q = 0; q < b.n.nc; ++q) g.close("moveCoeffs", v(q), b.c(q), 0, "coefficient " + std::to_string(q));
  Mat x = drawPts(g, b.n.din, 2, 2); Mat y = m->Evaluate(x); equal(g, "moveCoeffs", y, fromBlocks(b.n, b.c, EVAL, x, x), 1e-12, "Evaluate after taking over the coefficients");
}
