// C13: affine maps and functions, the identity and summarized maps compute exactly what they are defined as.
#include "deriv.hpp"
using namespace mg;
typedef Eigen::Matrix<ld, -1, -1> LM;

static Mat drawA(G& g, int r, int c) {
  Mat A(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c - r; ++j) A(i, j) = g.real(-2, 2);
  Mat S(r, r);
  switch (g.below(5)) {
    case 0: S = drawSquare(g, r); break;
    case 1: { // a scaled permutation: every pivot is off the diagonal somewhere
      std::vector<int> p(r); for (int i = 0; i < r; ++i) p[i] = i; for (int i = r - 1; i > 0; --i) std::swap(p[i], p[g.below(i + 1)]);
      S.setZero(); for (int i = 0; i < r; ++i) S(i, p[i]) = (g.coin() ? 1 : -1) * g.real(0.5, 3); g.label("permutation"); break; }
    case 2: { S = drawSquare(g, r); for (int i = 0; i < r; ++i) S.row(i) *= std::pow(10.0, g.range(-4, 4)); g.label("badly scaled rows"); break; }
    case 3: { S.setZero(); for (int i = 0; i < r; ++i) { for (int j = 0; j < i; ++j) S(i, j) = g.real(-1, 1); S(i, i) = (g.coin() ? 1 : -1) * g.real(0.5, 2); } if (g.coin()) S.transposeInPlace(); g.label("triangular"); break; }
    default: S = drawSquare(g, r); if (r > 1) S(0, 0) = 0; { Eigen::JacobiSVD<Eigen::MatrixXd> s(S); if (s.singularValues()(r - 1) < 0.02) S = Mat::Identity(r, r); }
  }
  A.rightCols(r) = S; return A;
}
/// how the matrix reaches the constructor: several layouts, the vectors strided too
struct Arg { Kokkos::View<double*, HS> mem; mpart::StridedVector<double, HS> v; };
static mpart::StridedMatrix<double, HS> matArg(G& g, Mat const& A, std::vector<Buf>& keep) { keep.push_back(Buf(A, int(g.range(1, 4)))); return keep.back().view(); }
static mpart::StridedVector<double, HS> vecArg(G& g, VecX const& b, Arg& a) {
  int st = g.coin() ? 1 : g.range(2, 3); a.mem = Kokkos::View<double*, HS>("b", std::max<long>(1, b.size() * st)); for (size_t i = 0; i < a.mem.size(); ++i) a.mem(i) = 4e9; for (int i = 0; i < b.size(); ++i) a.mem(i * st) = b(i);
  Kokkos::LayoutStride l(b.size(), st); a.v = mpart::StridedVector<double, HS>(a.mem.data(), l); return a.v;
}
static LM apply(Mat const& A, VecX const& b, bool hasA, bool hasB, Mat const& x, LM& mag) {
  LM y = hasA ? LM(A.cast<ld>() * x.cast<ld>()) : LM(x.cast<ld>()); mag = hasA ? LM(A.cwiseAbs().cast<ld>() * x.cwiseAbs().cast<ld>()) : LM(x.cwiseAbs().cast<ld>());
  if (hasB) for (int j = 0; j < y.cols(); ++j) { y.col(j) += b.cast<ld>(); mag.col(j) += b.cwiseAbs().cast<ld>(); }
  return y;
}
PBT_PROPERTY(affine_map, 2500) {
  int dout = g.range(1, g.chance(1, 4) ? 9 : 4), w = int(g.below(3)), din = w == 0 ? dout : dout + (g.coin() ? 0 : g.range(0, g.chance(1, 4) ? 9 : 3)), N = g.chance(1, 6) ? g.range(5, 20) : g.range(1, 4);
  if (g.chance(1, 60)) { dout = g.range(10, 40); din = w == 0 ? dout : dout + g.range(0, 12); g.label("ten or more dimensions"); }
  bool hasA = w != 0, hasB = w != 1;
  Mat A = hasA ? drawA(g, dout, din) : Mat(), A0 = A; VecX b = drawVec(g, dout, -3, 3); std::vector<Buf> keep; Arg ab;
  std::shared_ptr<CMB> m;
  if (w == 0) m = std::make_shared<mpart::AffineMap<HS>>(vecArg(g, b, ab)); else if (w == 1) m = std::make_shared<mpart::AffineMap<HS>>(matArg(g, A, keep)); else { auto a = matArg(g, A, keep); m = std::make_shared<mpart::AffineMap<HS>>(a, vecArg(g, b, ab)); }
  std::ostringstream d; d.precision(17); d << "affine " << din << "->" << dout << (hasA ? " A=[" : "[") ; if (hasA) d << A; d << "] b=" << str(hasB ? b : VecX()); g.note() << d.str();
  g.nontrivial(); if (din > dout) g.label("conditioning inputs");
  for (auto& k : keep) g.check(k.intact(), "argument", "the constructor changed the matrix");
  g.check(int(m->inputDim) == din && int(m->outputDim) == dout && m->numCoeffs == 0, "dimensions", "wrong dimensions");
  Mat x = drawPts(g, din, N, g.pick<double>({2, 100})), s = drawPts(g, dout, N, 2); LM mag;
  LM y = apply(A0, b, hasA, hasB, x, mag);
  int rounds = g.range(1, 2);  // (results may not depend on what was called before)
  for (int t = 0; t < rounds; ++t) {
    std::vector<int> ops{EVAL, LDET, INV, GRAD, LDIG}; for (int i = 4; i > 0; --i) std::swap(ops[i], ops[g.below(i + 1)]);
    for (int op : ops) {
      int way = int(g.below(NWAYS)), ow = int(g.below(4)); bool ok; std::string via = std::string(" via ") + wayName(way);
      if (op == EVAL) { Mat r = runOpIn(g, *m, EVAL, x, s, way, &ok, ow); for (int i = 0; i < dout; ++i) for (int j = 0; j < N; ++j) g.close("Evaluate", r(i, j), double(y(i, j)), 1e-14 * (din + 2) * double(mag(i, j)), "row " + std::to_string(i) + via); }
      else if (op == LDET) {
        Mat r = runOpIn(g, *m, LDET, x, s, way, &ok, ow); ld want = 0, tol = 1e-15L;
        if (hasA) { LM S = A0.rightCols(dout).cast<ld>(); Eigen::PartialPivLU<LM> lu(S); want = 0; for (int i = 0; i < dout; ++i) want += std::log(std::fabs(lu.matrixLU()(i, i))); // conditioning of the log-determinant
          LM Si = S.inverse(); LM Lu = LM::Identity(dout, dout), Uu = lu.matrixLU().triangularView<Eigen::Upper>(); Lu.triangularView<Eigen::StrictlyLower>() = lu.matrixLU(); LM be = lu.permutationP().transpose() * LM(Lu.cwiseAbs() * Uu.cwiseAbs());  // backward error of elimination with row exchanges
          tol = 1e-14L * dout * (1 + (Si.cwiseAbs() * be).trace() * dout) + 1e-14L * std::fabs(want); if (!(tol < 1e-6L)) g.discard("ill-conditioned"); }
        for (int j = 0; j < N; ++j) g.close("LogDeterminant", r(0, j), double(want), double(tol), via);
      } else if (op == GRAD) {
        Mat r = runOpIn(g, *m, GRAD, x, s, way, &ok, ow); LM w2 = hasA ? LM(A0.transpose().cast<ld>() * s.cast<ld>()) : LM(s.cast<ld>());
        LM mg2 = hasA ? LM(A0.cwiseAbs().transpose().cast<ld>() * s.cwiseAbs().cast<ld>()) : LM(s.cwiseAbs().cast<ld>());
        g.check(r.rows() == din, "Gradient", "shape"); for (int i = 0; i < din; ++i) for (int j = 0; j < N; ++j) g.close("Gradient", r(i, j), double(w2(i, j)), 1e-14 * (dout + 1) * double(mg2(i, j)), "row " + std::to_string(i) + via);
      } else if (op == LDIG) {
        Mat r = runOpIn(g, *m, LDIG, x, s, way, &ok, ow); g.check(r.rows() == din && r.cols() == N, "LogDeterminantInputGrad", "shape"); for (int i = 0; i < r.size(); ++i) g.close("LogDeterminantInputGrad", r.data()[i], 0, 0, via);
      } else {
        Mat x1 = g.coin() ? x : Mat(x.topRows(din - dout)); Mat rr(dout, N); for (int i = 0; i < dout; ++i) for (int j = 0; j < N; ++j) rr(i, j) = double(y(i, j)) + (g.coin() ? 0 : g.real(-1, 1));
        Mat z = runOpIn(g, *m, INV, x1, rr, way, &ok, ow); g.check(z.rows() == dout && z.cols() == N, "Inverse", "shape" + via);
        Mat full = x; full.bottomRows(dout) = z; LM mg2; LM back = apply(A0, b, hasA, hasB, full, mg2);
        // backward stable solve: the residual is small relative to the magnitudes
        for (int j = 0; j < N; ++j) { ld nA = hasA ? A0.cwiseAbs().rowwise().sum().maxCoeff() : 1; ld sc = nA * full.col(j).cwiseAbs().maxCoeff() + std::fabs(rr.col(j).cwiseAbs().maxCoeff()) + (hasB ? b.cwiseAbs().maxCoeff() : 0); for (int i = 0; i < dout; ++i) g.close("Inverse", double(back(i, j)), rr(i, j), double(1e-13L * dout * (1 + sc)), "residual of row " + std::to_string(i) + via); }
      }
    }
  }
}
PBT_PROPERTY(affine_function, 1200) {
  bool wide = g.chance(1, 30); int dout = wide ? g.range(5, 30) : g.range(1, 4), w = int(g.below(3)), din = w == 0 ? dout : dout + g.range(0, wide ? 20 : 4), N = g.chance(1, 8) ? g.range(5, 30) : g.range(1, 4);
  bool hasA = w != 0, hasB = w != 1; Mat A(dout, din); for (int i = 0; i < A.size(); ++i) A.data()[i] = g.chance(1, 6) ? 0 : g.real(-3, 3); VecX b = drawVec(g, dout, -3, 3);
  if (!hasA) A = Mat(); std::vector<Buf> keep; Arg ab; std::shared_ptr<PFB> m;
  if (w == 0) m = std::make_shared<mpart::AffineFunction<HS>>(vecArg(g, b, ab)); else if (w == 1) m = std::make_shared<mpart::AffineFunction<HS>>(matArg(g, A, keep)); else { auto a = matArg(g, A, keep); m = std::make_shared<mpart::AffineFunction<HS>>(a, vecArg(g, b, ab)); }
  std::ostringstream d; d.precision(17); d << "affine function " << din << "->" << dout << " [" << A << "] b=" << str(hasB ? b : VecX()); g.note() << d.str(); g.nontrivial();
  g.check(int(m->inputDim) == din && int(m->outputDim) == dout && m->numCoeffs == 0, "dimensions", "wrong dimensions");
  Mat x = drawPts(g, din, N, g.pick<double>({2, 100})), s = drawPts(g, dout, N, 2); LM mag; LM y = apply(A, b, hasA, hasB, x, mag);
  Buf bx(x, int(g.range(0, 4))), bs(s, int(g.range(0, 4))), by(Mat::Constant(dout, N, 9e3), int(g.range(1, 4))), bg(Mat::Constant(din, N, -8e4), int(g.range(1, 4)));
  bool impl = g.coin(); Mat r, gr;
  if (impl) { auto o = by.view(); auto q = bg.view(); m->EvaluateImpl(bx.cview(), o); m->GradientImpl(bx.cview(), bs.cview(), q); r = toMat(o); gr = toMat(q); g.check(by.padIntact() && bg.padIntact(), "writes", "wrote outside the result"); }
  else if (g.coin()) { r = m->Evaluate(x); gr = m->Gradient(x, s); } else { auto vx = bx.cview(); auto vs = bs.cview(); r = toMat(m->Evaluate(vx)); gr = toMat(m->Gradient(vx, vs)); }
  g.check(bx.intact() && bs.intact(), "writes", "inputs changed");
  LM w2 = hasA ? LM(A.transpose().cast<ld>() * s.cast<ld>()) : LM(s.cast<ld>()), m2 = hasA ? LM(A.cwiseAbs().transpose().cast<ld>() * s.cwiseAbs().cast<ld>()) : LM(s.cwiseAbs().cast<ld>());
  for (int i = 0; i < dout; ++i) for (int j = 0; j < N; ++j) g.close("Evaluate", r(i, j), double(y(i, j)), 1e-14 * (din + 2) * double(mag(i, j)), "row " + std::to_string(i));
  g.check(gr.rows() == din && gr.cols() == N, "Gradient", "shape");
  for (int i = 0; i < din; ++i) for (int j = 0; j < N; ++j) g.close("Gradient", gr(i, j), double(w2(i, j)), 1e-14 * (dout + 1) * double(m2(i, j)), "row " + std::to_string(i));
}
PBT_PROPERTY(identity_map, 800) {
  bool wide = g.chance(1, 6); int dout = wide ? g.range(6, 40) : g.range(1, 5), din = dout + (wide && g.coin() ? g.range(4, 30) : g.range(0, 3)), N = wide && g.coin() ? g.range(5, 30) : g.range(1, 4), extra = din - dout; mpart::IdentityMap<HS> m(din, dout); g.note() << "identity " << din << "->" << dout; g.nontrivial();
  Mat x = drawPts(g, din, N, g.pick<double>({2, 1e9})), s = drawPts(g, dout, N, 3);
  int way = int(g.below(NWAYS)), ow = int(g.below(4));
  auto same = [&](Mat const& a, Mat const& b, const char* t) { g.check(a.rows() == b.rows() && a.cols() == b.cols(), t, "shape"); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) g.close(t, a(i, j), b(i, j), 0, std::string("via ") + wayName(way)); };
  same(runOpIn(g, m, EVAL, x, s, way, nullptr, ow), x.bottomRows(dout), "Evaluate");
  same(runOpIn(g, m, LDET, x, s, way, nullptr, ow), Mat::Zero(1, N), "LogDeterminant");
  Mat gr = Mat::Zero(din, N); gr.bottomRows(dout) = s; same(runOpIn(g, m, GRAD, x, s, way, nullptr, ow), gr, "Gradient");
  same(runOpIn(g, m, LDIG, x, s, way, nullptr, ow), Mat::Zero(din, N), "LogDeterminantInputGrad");
  same(runOpIn(g, m, INV, g.coin() ? x : Mat(x.topRows(extra)), s, way, nullptr, ow), s, "Inverse");
}
PBT_PROPERTY(summarized_map, 1500) {
  Cfg cfg; cfg.exact = false; cfg.contOnly = g.chance(3, 4); cfg.box = 2; cfg.allowExp = false;
  Built b; b.n = genSummarized(g, cfg, g.range(2, 5)); b.c = setCoeffs(g, b.n); b.lc = lv(b.c);
  g.note() << b.n.desc << " coeffs " << str(b.c); g.nontrivial();
  Node& n = b.n; int N = g.range(1, 3), nin = n.din - 1, ns = n.kids[0].din - 1;
  Mat x = drawPts(g, n.din, N, 2), s = drawPts(g, 1, N, 2);
  int way = int(g.below(NWAYS)), ow = int(g.below(4)); bool cont = n.kids[0].opts.contDeriv;
  std::vector<Mat> got(NOPS); for (int op : {EVAL, LDET, GRAD, CGRAD, LDCG, LDIG}) { if (op == LDIG && !cont) continue; got[op] = runOpIn(g, *n.map, op, x, s, way, nullptr, ow); }
  // the component at [summary; last input], with the summary from the reference and its Jacobian from the summary itself
  Mat z(ns + 1, N); for (int j = 0; j < N; ++j) { LV p = col(x, j); LV q = n.refSummary(LV(p.begin(), p.end() - 1)); for (int i = 0; i < ns; ++i) z(i, j) = double(q[i]); z(ns, j) = x(nin, j); }
  auto& k = *n.kids[0].map; { VecX w = b.c; k.SetCoeffs(Eigen::Ref<VecX>(w)); }
  auto equal = [&](const char* t, Mat const& a, Mat const& c) { g.check(a.rows() == c.rows() && a.cols() == c.cols(), t, "shape"); double sc = 1 + maxAbs(c); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) g.close(t, a(i, j), c(i, j), 1e-9 * sc, std::string("row ") + std::to_string(i) + " via " + wayName(way)); };
  equal("Evaluate", got[EVAL], runOp(k, EVAL, z, s)); equal("LogDeterminant", got[LDET], runOp(k, LDET, z, s)); equal("CoeffGrad", got[CGRAD], runOp(k, CGRAD, z, s)); equal("LogDeterminantCoeffGrad", got[LDCG], runOp(k, LDCG, z, s));
  for (int op : {GRAD, LDIG}) {
    if (op == LDIG && !cont) continue;
    Mat gz = runOp(k, op, z, s), want(n.din, N); want.row(nin) = gz.row(ns);
    Mat xin = x.topRows(nin), sz = gz.topRows(ns);
    // Jacobian-transpose of the summary by differences of its reference
    for (int j = 0; j < N; ++j) for (int i = 0; i < nin; ++i) {
      LV p = col(xin, j), a = p, c = p; ld h = 1e-5L; bool kink = false; ld v[2];
      for (int t = 0; t < 2; ++t) { ld hh = t ? h / 7 : h; a[i] = p[i] + hh; c[i] = p[i] - hh; LV A = n.refSummary(a), C = n.refSummary(c); ld sum = 0; for (int q = 0; q < ns; ++q) sum += (A[q] - C[q]) / (2 * hh) * sz(q, j); v[t] = sum; }
      kink = std::fabs(v[0] - v[1]) > 1e-7L * (1 + std::fabs(v[1])); want(i, j) = kink ? double(got[op](i, j)) : double(v[1]);
      if (kink) g.label("kink of the summary, entry skipped");
    }
    double sc = 1 + maxAbs(want); g.check(got[op].rows() == want.rows() && got[op].cols() == N, opName(op), "shape");
    for (int i = 0; i < n.din; ++i) for (int j = 0; j < N; ++j) g.close(opName(op), got[op](i, j), want(i, j), 1e-6 * sc, "chain rule, row " + std::to_string(i) + " via " + wayName(way));
  }
}
