// C25: linear algebra helpers against long double arithmetic.
#include "mp.hpp"
#include "buf.hpp"
#include "MParT/Utilities/LinearAlgebra.h"
using namespace mpart;
using pbt::G;
using mg::Buf; using mg::HS; using mg::Mat; using mg::toMat;
typedef long double ld;
typedef Eigen::Matrix<ld, Eigen::Dynamic, Eigen::Dynamic> LMat;
typedef Kokkos::View<double**, Kokkos::LayoutLeft, HS> LV;
static const double EPS = 2.220446049250313e-16;

namespace {
Mat drawMat(G& g, long r, long c) {
  Mat m(r, c); int kind = int(g.below(5)); double sc = g.pick<double>({1, 1, 1, 1e-8, 1e6});
  for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) m(i, j) = kind == 0 ? double(g.range(-3, 3)) : kind == 1 && g.coin() ? 0.0 : sc * g.real(-2, 2);
  return m;
}
std::string shape(Mat const& m) { return std::to_string(m.rows()) + "x" + std::to_string(m.cols()); }
std::string dump(Mat const& m) { std::ostringstream s; s.precision(17); s << "[" << m << "]"; return s.str(); }
int way(G& g) { return g.pick<int>({mg::LEFT, mg::RIGHT, mg::PADDED, mg::STEP}); }
const char* wn(int w) { return mg::wayName(w); }
/// C = alpha op(A) op(B) + beta C with elementwise error bound
void reference(double alpha, Mat const& A, Mat const& B, double beta, Mat const& C, LMat& R, Mat& T) {
  LMat a = A.cast<ld>(), b = B.cast<ld>(); R = LMat(ld(alpha) * (a * b)); LMat m = std::fabs(alpha) * (a.cwiseAbs() * b.cwiseAbs());
  if (beta != 0) { R += ld(beta) * C.cast<ld>(); m += std::fabs(beta) * C.cast<ld>().cwiseAbs(); }
  T = (m * ld((4 + A.cols()) * 2 * EPS)).cast<double>();
}
void cmp(G& g, std::string const& tag, Mat const& got, LMat const& R, Mat const& T, std::string const& ctx) {
  g.check(got.rows() == R.rows() && got.cols() == R.cols(), tag + ".shape", ctx + " got " + shape(got));
  for (long i = 0; i < R.rows(); ++i) for (long j = 0; j < R.cols(); ++j) g.close(tag, got(i, j), double(R(i, j)), T(i, j) + 1e-290, ctx + " (" + std::to_string(i) + "," + std::to_string(j) + ")");
}
template <class L> Kokkos::View<double**, L, HS> owned(Mat const& m) { Kokkos::View<double**, L, HS> v("m", m.rows(), m.cols()); for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) v(i, j) = m(i, j); return v; }
long dim(G& g) { return g.chance(1, 20) ? 0 : g.chance(1, 15) ? (g.chance(1, 12) ? g.range(60, 140) : g.range(20, 45)) : g.range(1, 7); }
}

PBT_PROPERTY(product, 900) {
  long n = dim(g), k = dim(g), m = dim(g); bool ta = g.coin(), tb = g.coin();
  Mat A = drawMat(g, ta ? k : n, ta ? n : k), B = drawMat(g, tb ? m : k, tb ? k : m), C = drawMat(g, n, m);
  double alpha = g.pick<double>({1, -1, 0.5, 0, -2.25, 3e5}), beta = g.pick<double>({0, 1, -1, 0.25, -3, 1e-6});
  int wa = way(g), wb = way(g), wc = way(g);
  if (beta == 0 && n * m && g.coin()) C(g.below(n), g.below(m)) = g.pick<double>({std::nan(""), INFINITY, 1e308});
  g.note() << "A " << shape(A) << (ta ? "^T " : " ") << wn(wa) << " B " << shape(B) << (tb ? "^T " : " ") << wn(wb) << " C " << wn(wc) << " alpha " << alpha << " beta " << beta << "\n";
  if (n * k * m > 1) g.nontrivial();
  Mat opA = ta ? Mat(A.transpose()) : A, opB = tb ? Mat(B.transpose()) : B; LMat R; Mat T; reference(alpha, opA, opB, beta, C, R, T);
  Buf ba(A, wa), bb(B, wb), bc(C, wc);
  TransposeObject<HS> oa(ba.cview(), ta), ob(bb.cview(), tb);
  int variant = int(g.below(3));
  if (variant == 1) { oa = ta ? transpose(ba.cview()) : TransposeObject<HS>(ba.cview()); ob = tb ? transpose(transpose(transpose(bb.cview()))) : transpose(transpose(bb.cview())); }
  g.check(oa.rows() == opA.rows() && oa.cols() == opA.cols() && ob.rows() == opB.rows() && ob.cols() == opB.cols(), "transpose.shape", "");
  StridedMatrix<double, HS> cv = bc.view();
  if (!ta && !tb && variant == 2) dgemm<HS>(alpha, ba.cview(), bb.cview(), beta, cv); else dgemm<HS>(alpha, oa, ob, beta, cv);
  cmp(g, "dgemm", toMat(cv), R, T, "dgemm"); g.check(bc.padIntact(), "dgemm.outside", "memory around C was written"); g.check(ba.intact() && bb.intact(), "dgemm.inputs", "A or B changed");
  // operator*
  reference(1, opA, opB, 0, C, R, T);
  if (ta && tb) cmp(g, "A^T*B^T", toMat(transpose(ba.cview()) * transpose(bb.cview())), R, T, "");
  else if (ta) cmp(g, "A^T*B", toMat(transpose(ba.cview()) * bb.cview()), R, T, "");
  else if (tb) cmp(g, "A*B^T", toMat(ba.cview() * transpose(bb.cview())), R, T, "");
  else cmp(g, "A*B", toMat(ba.cview() * bb.cview()), R, T, "");
  auto la = owned<Kokkos::LayoutLeft>(A); auto rb = owned<Kokkos::LayoutRight>(B); auto ra = owned<Kokkos::LayoutRight>(A); auto lb = owned<Kokkos::LayoutLeft>(B);
  if (!ta && !tb) { cmp(g, "A*B", toMat(la * rb), R, T, "left*right"); cmp(g, "A*B", toMat(ra * lb), R, T, "right*left"); }
  else if (ta && !tb) cmp(g, "A^T*B", toMat(transpose(la) * rb), R, T, "left*right"); else if (!ta) cmp(g, "A*B^T", toMat(ra * transpose(lb)), R, T, "right*left");
  g.check(ba.intact() && bb.intact(), "product.inputs", "A or B changed");
}

PBT_PROPERTY(addition, 600) {
  long n = dim(g), m = dim(g); Mat A = drawMat(g, n, m), B = drawMat(g, n, m); if (n * m > 1) g.nontrivial(); int wa = way(g), wb = way(g); g.note() << shape(A) << " " << wn(wa) << " " << wn(wb) << "\n";
  Mat R = A + B; Mat Z = Mat::Zero(n, m);
  { Buf a(A, wa), b(B, wb); AddInPlace(a.view(), b.cview()); cmp(g, "AddInPlace", toMat(a.view()), R.cast<ld>(), Z, "strided"); g.check(a.padIntact() && b.intact(), "AddInPlace.outside", ""); }
  { Buf a(A, wa), b(B, wb); auto av = a.view(); auto bv = b.view(); av += bv; cmp(g, "+=", toMat(av), R.cast<ld>(), Z, "strided"); g.check(a.padIntact() && b.intact(), "+=.outside", ""); }
  { Kokkos::View<double**, HS> a = owned<Kokkos::LayoutRight>(A); auto b = owned<Kokkos::LayoutLeft>(B); auto c = a + b; cmp(g, "+", toMat(c), R.cast<ld>(), Z, "right+left"); g.check(toMat(a) == A && toMat(b) == B, "+.inputs", ""); a += b; cmp(g, "+=", toMat(a), R.cast<ld>(), Z, "right+left"); g.check(toMat(b) == B, "+=.inputs", ""); }
  { auto a = owned<Kokkos::LayoutRight>(A); auto b = owned<Kokkos::LayoutLeft>(B); AddInPlace(a, Kokkos::View<const double**, Kokkos::LayoutLeft, HS>(b)); cmp(g, "AddInPlace", toMat(a), R.cast<ld>(), Z, "right,left"); }
  // vectors, contiguous and strided (rows and columns of the buffers)
  if (n && m) {
    long i = g.below(n), j = g.below(m); Buf a(A, wa), b(B, wb);
    { auto r = Kokkos::subview(a.view(), i, Kokkos::ALL()); auto s = Kokkos::subview(b.cview(), i, Kokkos::ALL()); StridedVector<double, HS> rv = r; StridedVector<const double, HS> sv = s; AddInPlace(rv, sv); Mat W = A; W.row(i) += B.row(i); cmp(g, "AddInPlace.row", toMat(a.view()), W.cast<ld>(), Z, ""); g.check(a.padIntact() && b.intact(), "AddInPlace.row.outside", ""); }
    Kokkos::View<double*, HS> x("x", n), y("y", n); for (long k = 0; k < n; ++k) { x(k) = A(k, j); y(k) = B(k, j); }
    auto z = x + y; for (long k = 0; k < n; ++k) { g.close("vector+", z(k), A(k, j) + B(k, j), 0); g.check(x(k) == A(k, j) && y(k) == B(k, j), "vector+.inputs", ""); }
    Kokkos::View<const double*, HS> cx = x, cy = y; auto z2 = cx + cy; for (long k = 0; k < n; ++k) g.close("const vector+", z2(k), A(k, j) + B(k, j), 0);
    x += y; for (long k = 0; k < n; ++k) g.close("vector+=", x(k), A(k, j) + B(k, j), 0);
  }
}

PBT_PROPERTY(reductions, 400) {
  long n = std::max<long>(1, dim(g)), m = std::max<long>(1, dim(g)); Mat A = drawMat(g, n, m); double al = g.pick<double>({1, -0.5, 2.25, -1.0 / 3}); int wa = way(g); g.note() << shape(A) << " " << wn(wa) << " alpha " << al << "\n"; if (n * m > 1) g.nontrivial();
  Buf a(A, wa); std::vector<double> s(std::max(n, m) + 1, -3.5);
  auto chk = [&](const char* tag, long len, std::function<ld(long)> f, std::function<ld(long)> mag) { for (long i = 0; i < len; ++i) g.close(tag, s[i], double(f(i)), double(mag(i)) * EPS * 4 * (n + m) + 1e-290); g.check(s[len] == -3.5, std::string(tag) + ".outside", ""); std::fill(s.begin(), s.end(), -3.5); };
  LMat L = A.cast<ld>(); ld al_ = al;
  { ReduceDim<ReduceDimMap::sum, HS> r(a.view(), al); Kokkos::parallel_reduce(m, r, s.data()); chk("sum over columns", n, [&](long i) { return al_ * L.row(i).sum(); }, [&](long i) { return std::fabs(al_) * L.row(i).cwiseAbs().sum(); }); }
  { ReduceDim<ReduceDimMap::norm, HS> r(a.view(), al); Kokkos::parallel_reduce(m, r, s.data()); chk("norm over columns", n, [&](long i) { return al_ * L.row(i).squaredNorm(); }, [&](long i) { return std::fabs(al_) * L.row(i).squaredNorm(); }); }
  { ReduceDim<ReduceDimMap::sum, HS, 0> r(a.view(), al); Kokkos::parallel_reduce(n, r, s.data()); chk("sum over rows", m, [&](long i) { return al_ * L.col(i).sum(); }, [&](long i) { return std::fabs(al_) * L.col(i).cwiseAbs().sum(); }); }
  { ReduceDim<ReduceDimMap::norm, HS, 0> r(a.view(), al); Kokkos::parallel_reduce(n, r, s.data()); chk("norm over rows", m, [&](long i) { return al_ * L.col(i).squaredNorm(); }, [&](long i) { return std::fabs(al_) * L.col(i).squaredNorm(); }); }
  g.check(a.intact(), "reduce.inputs", "");
}

namespace {
/// square, comfortably nonsingular
Mat drawSquare(G& g, long n, std::string& kind) {
  Mat A(n, n);
  switch (g.below(6)) {
    case 0: kind = "general"; for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) A(i, j) = g.real(-2, 2); break;
    case 1: { kind = "permutation"; std::vector<long> p(n); for (long i = 0; i < n; ++i) p[i] = i; for (long i = n; i > 1; --i) std::swap(p[i - 1], p[g.below(i)]); A.setZero(); for (long i = 0; i < n; ++i) A(i, p[i]) = g.coin() ? 1 : -2; break; }
    case 2: kind = "upper"; A.setZero(); for (long i = 0; i < n; ++i) { for (long j = i; j < n; ++j) A(i, j) = g.real(-1, 1); A(i, i) = (g.coin() ? 1 : -1) * g.real(0.5, 2); } break;
    case 3: kind = "row scaled"; for (long i = 0; i < n; ++i) { double s = std::pow(10.0, g.range(-6, 6)); for (long j = 0; j < n; ++j) A(i, j) = s * g.real(-2, 2); } break;
    case 4: kind = "integers"; for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) A(i, j) = g.range(-3, 3); break;
    default: kind = "zero leading pivot"; for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) A(i, j) = i == j && n > 1 ? 0.0 : g.real(-2, 2); break;
  }
  return A;
}
ld refDet(LMat A, LMat& inv, bool& ok) {
  Eigen::FullPivLU<LMat> lu(A); ok = lu.isInvertible(); if (ok) inv = lu.inverse(); return lu.determinant();
}
/// a LayoutLeft view with room below every column
LV leftPadded(Mat const& m, LV& whole) { whole = LV("w", m.rows() + 2, m.cols()); Kokkos::deep_copy(whole, -7.25e7); LV v = Kokkos::subview(whole, std::make_pair(1l, 1l + m.rows()), Kokkos::ALL()); for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) v(i, j) = m(i, j); return v; }
bool aroundIntact(LV const& w) { for (size_t j = 0; j < w.extent(1); ++j) if (w(0, j) != -7.25e7 || w(w.extent(0) - 1, j) != -7.25e7) return false; return true; }
}

PBT_PROPERTY(lu, 700) {
  long n = g.chance(1, 20) ? g.range(12, 30) : g.range(1, 6), m = g.range(1, 5); std::string kind; Mat A = drawSquare(g, n, kind); LMat inv; bool ok; ld det = refDet(A.cast<ld>(), inv, ok); if (!ok) g.discard("singular");
  ld cond = (inv.cwiseAbs() * A.cast<ld>().cwiseAbs()).rowwise().sum().maxCoeff(), nc = inv.cwiseAbs().rowwise().sum().maxCoeff() * A.cast<ld>().cwiseAbs().rowwise().sum().maxCoeff(); (void)cond;
  if (nc > 1e12) g.discard("ill conditioned");
  Mat B = drawMat(g, n, m); g.note() << kind << " " << dump(A) << " rhs " << dump(B) << "\n"; if (n > 1) g.nontrivial();
  bool padA = g.coin(), padB = g.coin(); LV wa, wb; LV a = padA ? leftPadded(A, wa) : owned<Kokkos::LayoutLeft>(A);
  Kokkos::View<const double**, Kokkos::LayoutLeft, HS> ca = a; PartialPivLU<HS> lu; if (g.coin()) lu = PartialPivLU<HS>(ca); else { if (g.coin()) { LV other = owned<Kokkos::LayoutLeft>(Mat(Mat::Identity(3, 3) * 2)); lu.compute(other); } lu.compute(ca); }
  g.check(toMat(a) == A && (!padA || aroundIntact(wa)), "lu.inputs", "A changed");
  g.close("lu.det", lu.determinant(), double(det), double(std::fabs(det) * nc) * EPS * 64 * n, kind);
  auto residual = [&](Mat const& X, std::string const& tag) { LMat r = A.cast<ld>() * X.cast<ld>() - B.cast<ld>(); for (long j = 0; j < m; ++j) { ld s = 0; for (long i = 0; i < n; ++i) s = std::max(s, A.row(i).cwiseAbs().cast<ld>().dot(X.col(j).cwiseAbs().cast<ld>())); s = std::max(s, ld(B.col(j).cwiseAbs().maxCoeff()));
      ld na = A.cwiseAbs().rowwise().sum().maxCoeff() * X.col(j).cwiseAbs().maxCoeff(); for (long i = 0; i < n; ++i) g.close(tag, double(r(i, j)), 0, double(std::max(s, na)) * EPS * 64 * n * n + 1e-290, kind); } };
  int wx = way(g); Buf bb(B, wx); auto x = lu.solve(bb.cview()); g.check(bb.intact(), "solve.inputs", ""); residual(toMat(x), "lu.solve");
  LV b = padB ? leftPadded(B, wb) : owned<Kokkos::LayoutLeft>(B); lu.solveInPlace(b); residual(toMat(b), "lu.solveInPlace"); g.check(!padB || aroundIntact(wb), "solveInPlace.outside", "");
  for (long i = 0; i < n; ++i) for (long j = 0; j < m; ++j) g.check(b(i, j) == x(i, j), "lu.agree", "solve and solveInPlace differ");
  // changing A afterwards does not reach the factorisation
  Kokkos::deep_copy(a, 1.0); auto x2 = lu.solve(bb.cview()); g.check(toMat(x2) == toMat(x), "lu.snapshot", "");
}

PBT_PROPERTY(cholesky, 600) {
  long n = g.chance(1, 20) ? g.range(12, 30) : g.range(1, 6), m = g.range(1, 5); Mat L = Mat::Zero(n, n); int kind = int(g.below(3));
  for (long i = 0; i < n; ++i) { for (long j = 0; j < i; ++j) L(i, j) = kind == 0 ? 0 : g.real(-1, 1); L(i, i) = kind == 2 ? std::pow(10.0, g.range(-3, 3)) : g.real(0.3, 2); }
  Mat A = L * L.transpose(); A = (0.5 * (A + A.transpose())).eval(); Mat B = drawMat(g, n, m); g.note() << dump(A) << " rhs " << dump(B) << "\n"; if (n > 1) g.nontrivial();
  LMat inv; bool ok; ld det = refDet(A.cast<ld>(), inv, ok); ld nc = ok ? inv.cwiseAbs().rowwise().sum().maxCoeff() * A.cast<ld>().cwiseAbs().rowwise().sum().maxCoeff() : ld(1e30); if (!(nc < 1e12L)) g.discard("ill conditioned");
  Eigen::LLT<LMat> ref(A.cast<ld>()); if (ref.info() != Eigen::Success) g.discard("not positive definite"); LMat RL = ref.matrixL();
  bool padA = g.coin(), padB = g.coin(); LV wa, wb; LV a = padA ? leftPadded(A, wa) : owned<Kokkos::LayoutLeft>(A);
  Kokkos::View<const double**, Kokkos::LayoutLeft, HS> ca = a; Cholesky<HS> ch; if (g.coin()) ch = Cholesky<HS>(ca); else ch.compute(ca);
  g.check(toMat(a) == A && (!padA || aroundIntact(wa)), "chol.inputs", "A changed"); Kokkos::deep_copy(a, 1.0);
  g.close("chol.det", ch.determinant(), double(det), double(std::fabs(det) * nc) * EPS * 64 * n);
  auto residual = [&](Mat const& X, std::string const& tag) { LMat r = A.cast<ld>() * X.cast<ld>() - B.cast<ld>(); for (long j = 0; j < m; ++j) { ld s = std::max<ld>(A.cwiseAbs().rowwise().sum().maxCoeff() * X.col(j).cwiseAbs().maxCoeff(), B.col(j).cwiseAbs().maxCoeff()); for (long i = 0; i < n; ++i) g.close(tag, double(r(i, j)), 0, double(s) * EPS * 64 * n * n + 1e-290); } };
  Buf bb(B, way(g)); residual(toMat(ch.solve(bb.cview())), "chol.solve"); g.check(bb.intact(), "chol.solve.inputs", "");
  LV b = padB ? leftPadded(B, wb) : owned<Kokkos::LayoutLeft>(B); ch.solveInPlace(b); residual(toMat(b), "chol.solveInPlace"); g.check(!padB || aroundIntact(wb), "chol.solveInPlace.outside", "");
  // forward error of L is bounded by the condition number
  double tl = double(nc) * EPS * 32 * n;
  LV c = padB ? leftPadded(B, wb) : owned<Kokkos::LayoutLeft>(B); ch.solveInPlaceL(c); LMat S = RL.triangularView<Eigen::Lower>().solve(B.cast<ld>());
  for (long j = 0; j < m; ++j) for (long i = 0; i < n; ++i) g.close("chol.solveInPlaceL", c(i, j), double(S(i, j)), tl * double(S.col(j).cwiseAbs().maxCoeff()) * 8 + 1e-290);
  LV d = padB ? leftPadded(B, wb) : owned<Kokkos::LayoutLeft>(B); Mat P = toMat(ch.multiplyL(d)); LMat W = RL * B.cast<ld>(); g.check(toMat(d) == B, "chol.multiplyL.inputs", ""); g.check(P.rows() == n && P.cols() == m, "chol.multiplyL.shape", "");
  for (long j = 0; j < m; ++j) for (long i = 0; i < n; ++i) g.close("chol.multiplyL", P(i, j), double(W(i, j)), tl * double(RL.cwiseAbs().maxCoeff()) * n * B.col(j).cwiseAbs().maxCoeff() + 1e-290);
}
