// Calling every operation of a map through its different public entry points.
#pragma once
#include "buf.hpp"
#include "mapgen.hpp"
namespace mg {
enum Op { EVAL, GRAD, CGRAD, LDET, LDCG, LDIG, INV, NOPS };
inline const char* opName(int o) { static const char* n[] = {"Evaluate", "Gradient", "CoeffGrad", "LogDeterminant", "LogDeterminantCoeffGrad", "LogDeterminantInputGrad", "Inverse"}; return n[o]; }
template <class V> inline Mat viaViews(CMB& m, int op, V const& x, V const& s) {
  switch (op) {
    case EVAL: return toMat(m.Evaluate(x));
    case GRAD: return toMat(m.Gradient(x, s));
    case CGRAD: return toMat(m.CoeffGrad(x, s));
    case LDET: return toRow(m.LogDeterminant(x));
    case LDCG: return toMat(m.LogDeterminantCoeffGrad(x));
    case LDIG: return toMat(m.LogDeterminantInputGrad(x));
    default: return toMat(m.Inverse(x, s));
  }
}
inline long outRows(CMB& m, int op) { switch (op) { case EVAL: case INV: return m.outputDim; case GRAD: case LDIG: return m.inputDim; case LDET: return 1; default: return m.numCoeffs; } }
/// runs an operation; s holds sensitivities, or the outputs to invert. Results of vectors are returned as one row.
/// bufOk reports whether inputs (and the padding of preallocated results) were left untouched.
inline Mat runOp(CMB& m, int op, Mat const& x, Mat const& s, int way = EIGEN, bool* bufOk = nullptr, int outWay = LEFT, double dirt = 3.5e5) {
  if (bufOk) *bufOk = true;
  if (way == EIGEN) {
    Mat x0 = x, s0 = s, r;
    switch (op) {
      case EVAL: r = m.Evaluate(x0); break;
      case GRAD: r = m.Gradient(x0, s0); break;
      case CGRAD: r = m.CoeffGrad(x0, s0); break;
      case LDET: r = m.LogDeterminant(x0).transpose(); break;
      case LDCG: r = m.LogDeterminantCoeffGrad(x0); break;
      case LDIG: r = m.LogDeterminantInputGrad(x0); break;
      default: r = m.Inverse(x0, s0);
    }
    if (bufOk) *bufOk = (x0.array() == x.array()).all() && (s0.array() == s.array()).all();
    return r;
  }
  if (way == LEFT) {
    Kokkos::View<double**, Kokkos::LayoutLeft, HS> a("x", x.rows(), x.cols()), b("s", s.rows(), s.cols());
    for (long i = 0; i < x.rows(); ++i) for (long j = 0; j < x.cols(); ++j) a(i, j) = x(i, j);
    for (long i = 0; i < s.rows(); ++i) for (long j = 0; j < s.cols(); ++j) b(i, j) = s(i, j);
    Mat r = viaViews(m, op, a, b);
    if (bufOk) { for (long i = 0; i < x.rows(); ++i) for (long j = 0; j < x.cols(); ++j) if (a(i, j) != x(i, j)) *bufOk = false; for (long i = 0; i < s.rows(); ++i) for (long j = 0; j < s.cols(); ++j) if (b(i, j) != s(i, j)) *bufOk = false; }
    return r;
  }
  if (way == RIGHT) {
    Kokkos::View<double**, Kokkos::LayoutRight, HS> a("x", x.rows(), x.cols()), b("s", s.rows(), s.cols());
    for (long i = 0; i < x.rows(); ++i) for (long j = 0; j < x.cols(); ++j) a(i, j) = x(i, j);
    for (long i = 0; i < s.rows(); ++i) for (long j = 0; j < s.cols(); ++j) b(i, j) = s(i, j);
    Mat r = viaViews(m, op, a, b);
    if (bufOk) { for (long i = 0; i < x.rows(); ++i) for (long j = 0; j < x.cols(); ++j) if (a(i, j) != x(i, j)) *bufOk = false; for (long i = 0; i < s.rows(); ++i) for (long j = 0; j < s.cols(); ++j) if (b(i, j) != s(i, j)) *bufOk = false; }
    return r;
  }
  Buf bx(x, way == IMPL ? PADDED : way), bs(s, way == IMPL ? STEP : way);
  Mat r;
  if (way != IMPL) {
    auto vx = bx.cview(), vs = bs.cview();
    r = viaViews(m, op, vx, vs);
  } else {
    Mat d = Mat::Constant(outRows(m, op), x.cols(), dirt);
    Buf out(d, outWay);
    auto o = out.view(); auto vx = bx.cview(), vs = bs.cview();
    switch (op) {
      case EVAL: m.EvaluateImpl(vx, o); break;
      case GRAD: m.GradientImpl(vx, vs, o); break;
      case CGRAD: m.CoeffGradImpl(vx, vs, o); break;
      case LDCG: m.LogDeterminantCoeffGradImpl(vx, o); break;
      case LDIG: m.LogDeterminantInputGradImpl(vx, o); break;
      case INV: m.InverseImpl(vx, vs, o); break;
      default: {
        Kokkos::LayoutStride l(x.cols(), std::max<long>(out.s1, 1));
        mpart::StridedVector<double, HS> ov(out.mem.data() + out.off, l);
        m.LogDeterminantImpl(vx, ov);
      }
    }
    r = toMat(o);
    if (bufOk && !out.padIntact()) *bufOk = false;
  }
  if (bufOk && !(bx.intact() && bs.intact())) *bufOk = false;
  return r;
}
/// runOp, now and then within a large batch: the columns are repeated until there are many, and one repetition is returned
inline Mat runOpIn(G& g, CMB& m, int op, Mat const& x, Mat const& s, int way = EIGEN, bool* bufOk = nullptr, int outWay = LEFT, double dirt = 3.5e5) {
  long n = std::max(x.cols(), s.cols());
  if (n == 0 || !g.chance(1, 50)) return runOp(m, op, x, s, way, bufOk, outWay, dirt);
  long want = g.pick<long>({9, 17, 33, 70, 130, 300, 600, 1100}), T = (want + n - 1) / n, t = g.coin() ? T - 1 : long(g.below(T));
  g.label("inside a large batch"); g.note() << " [repetition " << t << " of " << T << "]";
  Mat r = runOp(m, op, x.replicate(1, T), s.replicate(1, T), way, bufOk, outWay, dirt);
  if (r.cols() != n * T) return r;  // (the caller complains about the shape)
  return r.middleCols(t * n, n);
}
}  // namespace mg
