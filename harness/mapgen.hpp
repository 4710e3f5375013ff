// Random map generator: recursive construction through MParT's public constructors and factory, together with a
// long double reference of the same map built from the mathematical definition.
#pragma once
#include "mp.hpp"
#include "refmap.hpp"
#include "MParT/AffineFunction.h"
#include "MParT/AffineMap.h"
#include "MParT/ComposedMap.h"
#include "MParT/ConditionalMapBase.h"
#include "MParT/IdentityMap.h"
#include "MParT/MapFactory.h"
#include "MParT/MapOptions.h"
#include "MParT/MultiIndices/FixedMultiIndexSet.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
#include "MParT/SummarizedMap.h"
#include "MParT/TriangularMap.h"
#include "MParT/Utilities/ArrayConversions.h"
#include <Eigen/Dense>

namespace mg {
using pbt::G;
using ref::ld;
typedef Kokkos::HostSpace HS;
typedef mpart::ConditionalMapBase<HS> CMB;
typedef mpart::ParameterizedFunctionBase<HS> PFB;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> Mat;
typedef Eigen::VectorXd VecX;
typedef ref::Vec LV;

struct Cfg {
  bool allowExp = true;
  bool contOnly = false;     // only components with contDeriv (needed for LogDeterminantInputGrad)
  bool exact = true;         // Evaluate and its derivatives follow the reference to high accuracy
  bool grad = false;         // derivatives of Evaluate are accurate too (fine adaptive rules, none across kinks)
  bool cheap = false;        // prefer low orders
  bool ccOnly = false;       // only fixed quadrature rules (which never fail, whatever the coefficients)
  bool affine = true, identity = true, composed = true, summarized = true, single = true, factory = true, custom = true, component = true;
  bool serializable = false; // only kinds with serialization support
  int lin = 0;               // 0: any, 1: never, 2: always (both sides)
  int ccMin = 3;             // fewest points of a Clenshaw-Curtis rule
  double box = 3;            // inputs are drawn from [-box,box]
  double K = 3;              // bound on |d_d f| over the box
  int maxBlocks = 4;
  int big = 0;               // components with about this many terms in many dimensions
};

struct Node {
  std::string kind;
  std::shared_ptr<CMB> map;
  std::shared_ptr<PFB> summary;
  std::vector<Node> kids;       // blocks, layers or [component]
  Mat A; VecX b; bool hasA = false, hasB = false;
  ref::Comp comp; ref::Expansion exp; std::vector<double> expCoeffs; // summary expansion
  mpart::MapOptions opts;
  std::string fixedKind;
  int din = 0, dout = 0, nc = 0;
  std::string desc;
  bool adaptive = false;
  double box = 3, K = 3;
  int maxChecks = -1;

  template <class F> void visit(F const& f) const { f(*this); for (auto& k : kids) k.visit(f); }
  bool anyAdaptive() const { bool a = false; visit([&](Node const& n) { a |= n.adaptive; }); return a; }
  int count(std::string const& k) const { int a = 0; visit([&](Node const& n) { a += n.kind == k; }); return a; }
  int depth() const { int m = 0; for (auto& k : kids) m = std::max(m, k.depth()); return m + 1; }

  LV refSummary(LV const& x) const {
    if (kind == "summarized" && hasA) { LV y(A.rows(), 0); for (int i = 0; i < A.rows(); ++i) { for (int j = 0; j < A.cols(); ++j) y[i] += ld(A(i, j)) * x[j]; if (hasB) y[i] += b(i); } return y; }
    if (kind == "summarized" && hasB && !hasA) { LV y(b.size()); for (int i = 0; i < b.size(); ++i) y[i] = x[i] + ld(b(i)); return y; }
    LV c(expCoeffs.begin(), expCoeffs.end());
    return exp.eval(x, c.data());
  }
  /// reference evaluation; c points at this node's coefficients
  LV refEval(LV const& x, ld const* c) const {
    if (kind == "component") return LV{comp.eval(x, c).v};
    if (kind == "triangular") {
      LV y; int off = 0;
      for (auto& k : kids) { LV sub(x.begin(), x.begin() + k.din); LV yy = k.refEval(sub, c + off); y.insert(y.end(), yy.begin(), yy.end()); off += k.nc; }
      return y;
    }
    if (kind == "composed") { LV y = x; int off = 0; for (auto& k : kids) { y = k.refEval(y, c + off); off += k.nc; } return y; }
    if (kind == "identity") return LV(x.end() - dout, x.end());
    if (kind == "affine") {
      LV y(dout, 0);
      for (int i = 0; i < dout; ++i) { if (hasA) for (int j = 0; j < din; ++j) y[i] += ld(A(i, j)) * x[j]; else y[i] = x[i]; if (hasB) y[i] += b(i); }
      return y;
    }
    if (kind == "summarized") {
      LV lead(x.begin(), x.end() - 1); LV s = refSummary(lead); s.push_back(x.back());
      return kids[0].refEval(s, c);
    }
    return {};
  }
  ld refLogDet(LV const& x, ld const* c) const {
    if (kind == "component") return std::log(comp.diag(x, c));
    if (kind == "triangular") { ld s = 0; int off = 0; for (auto& k : kids) { s += k.refLogDet(LV(x.begin(), x.begin() + k.din), c + off); off += k.nc; } return s; }
    if (kind == "composed") { LV y = x; ld s = 0; int off = 0; for (auto& k : kids) { s += k.refLogDet(y, c + off); y = k.refEval(y, c + off); off += k.nc; } return s; }
    if (kind == "identity") return 0;
    if (kind == "affine") { if (!hasA) return 0; Eigen::Matrix<ld, -1, -1> B = A.rightCols(dout).cast<ld>(); return std::log(std::fabs(B.determinant())); }
    if (kind == "summarized") { LV lead(x.begin(), x.end() - 1); LV s = refSummary(lead); s.push_back(x.back()); return kids[0].refLogDet(s, c); }
    return 0;
  }
  /// smallest diagonal derivative over all components involved at x
  ld minDiag(LV const& x, ld const* c) const {
    if (kind == "component") return comp.diag(x, c);
    if (kind == "triangular") { ld s = 1e30L; int off = 0; for (auto& k : kids) { s = std::min(s, k.minDiag(LV(x.begin(), x.begin() + k.din), c + off)); off += k.nc; } return s; }
    if (kind == "composed") { LV y = x; ld s = 1e30L; int off = 0; for (auto& k : kids) { s = std::min(s, k.minDiag(y, c + off)); y = k.refEval(y, c + off); off += k.nc; } return s; }
    if (kind == "summarized") { LV lead(x.begin(), x.end() - 1); LV s = refSummary(lead); s.push_back(x.back()); return kids[0].minDiag(s, c); }
    return 1;
  }
};

inline LV col(Mat const& m, int j) { LV v(m.rows()); for (int i = 0; i < m.rows(); ++i) v[i] = m(i, j); return v; }
inline LV lv(VecX const& c) { return LV(c.data(), c.data() + c.size()); }

inline std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
inline std::string str(LV const& v) { std::string s = "["; for (auto x : v) s += num(double(x)) + " "; return s + "]"; }
inline std::string str(VecX const& v) { return str(lv(v)); }

// ---------------------------------------------------------------- multi-index sets
struct MSetSpec { mpart::FixedMultiIndexSet<HS> fixed; ref::MSet idx; std::string desc; bool wide() const { for (auto& q : idx) for (auto v : q) if (v > 9) return true; return false; } };
inline mpart::FixedMultiIndexSet<HS> fixedDense(int dim, ref::MSet const& m) {
  Kokkos::View<unsigned int*, HS> o("orders", m.size() * dim);
  for (size_t i = 0; i < m.size(); ++i) for (int j = 0; j < dim; ++j) o(i * dim + j) = m[i][j];
  return mpart::FixedMultiIndexSet<HS>(dim, o);
}
inline mpart::FixedMultiIndexSet<HS> fixedCompressed(int dim, ref::MSet const& m) {
  std::vector<unsigned> st{0}, dd, oo;
  for (auto& q : m) { for (int j = 0; j < dim; ++j) if (q[j]) { dd.push_back(j); oo.push_back(q[j]); } st.push_back(dd.size()); }
  Kokkos::View<unsigned int*, HS> s("s", st.size()), d("d", dd.size()), o("o", oo.size());
  for (size_t i = 0; i < st.size(); ++i) s(i) = st[i];
  for (size_t i = 0; i < dd.size(); ++i) { d(i) = dd[i]; o(i) = oo[i]; }
  return mpart::FixedMultiIndexSet<HS>(dim, s, d, o);
}
inline ref::MSet drawIdx(G& g, int dim, int maxOrd, int n) {
  ref::MSet m; std::set<std::vector<unsigned>> seen;
  for (int i = 0; i < n; ++i) {
    std::vector<unsigned> q(dim, 0);
    if (i > 0 || g.coin()) for (auto& v : q) v = g.chance(1, 2) ? unsigned(g.below(maxOrd + 1)) : 0;
    if (seen.insert(q).second) m.push_back(q);
  }
  return m;
}
inline MSetSpec drawMSet(G& g, int dim, int maxOrd, int more = 0) {
  MSetSpec s; std::ostringstream d;
  int kind = int(g.below(5));
  if (kind == 0) {
    int p = g.range(0, maxOrd); s.fixed = mpart::FixedMultiIndexSet<HS>(dim, p); d << "total(" << dim << "," << p << ")";
  } else if (kind == 1) {
    int p = g.range(0, maxOrd); auto ms = mpart::MultiIndexSet::CreateTotalOrder(dim, p); bool c = g.coin(); s.fixed = ms.Fix(c); d << "totalset(" << dim << "," << p << (c ? ",compressed)" : ",dense)");
  } else {
    int n = g.range(1, 7); if (g.chance(1, 10)) n = g.range(8, 16);
    auto m = drawIdx(g, dim, maxOrd + more, n);
    if (kind == 2) { s.fixed = fixedDense(dim, m); d << "dense"; }
    else if (kind == 3) { s.fixed = fixedCompressed(dim, m); d << "compressed"; }
    else { Eigen::MatrixXi q(m.size(), dim); for (size_t i = 0; i < m.size(); ++i) for (int j = 0; j < dim; ++j) q(i, j) = m[i][j]; bool c = g.coin(); s.fixed = mpart::MultiIndexSet(q).Fix(c); d << "set.Fix(" << c << ")"; }
  }
  for (unsigned i = 0; i < s.fixed.Size(); ++i) s.idx.push_back(s.fixed.IndexToMulti(i));
  d << "{"; for (auto& q : s.idx) { d << "("; for (size_t k = 0; k < q.size(); ++k) d << (k && s.wide() ? "," : "") << q[k]; d << ")"; } d << "}";
  s.desc = d.str();
  return s;
}

/// many sparse terms in many dimensions (the bulk comes from one drawn number)
inline MSetSpec drawBigMSet(G& g, int dim, int T, int maxOrd = 4) {
  MSetSpec s; uint64_t r = g.below(1u << 30) * 2 + 1; int kind = int(g.below(5));
  auto rnd = [&](unsigned n) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return unsigned((r >> 11) % n); };
  ref::MSet m; std::set<std::vector<unsigned>> seen;
  for (int i = 0; i < 3 * T && int(m.size()) < T; ++i) {
    std::vector<unsigned> q(dim, 0); int nz = int(rnd(4)); for (int k = 0; k < nz; ++k) q[rnd(3) == 0 ? dim - 1 : rnd(dim)] = rnd(maxOrd + 1);
    if (seen.insert(q).second) m.push_back(q);
  }
  if (kind == 2 || kind == 3) if (size_t(dim) * m.size() > 2500) kind -= 2;  // the growable set keeps the neighbours of every term
  std::ostringstream d; d << "big(" << dim << "," << m.size() << (kind == 0 ? " dense)" : kind == 1 ? " compressed)" : kind == 2 ? " set.Fix(0))" : kind == 3 ? " set.Fix(1))" : " total)");
  if (kind == 0) s.fixed = fixedDense(dim, m);
  else if (kind == 1) s.fixed = fixedCompressed(dim, m);
  else if (kind < 4) { mpart::MultiIndexSet q(dim); for (auto& v : m) q += mpart::MultiIndex(v); s.fixed = q.Fix(kind == 3); }
  else s.fixed = mpart::FixedMultiIndexSet<HS>(dim, dim > 12 ? 1 : 2);
  for (unsigned i = 0; i < s.fixed.Size(); ++i) s.idx.push_back(s.fixed.IndexToMulti(i));
  s.desc = d.str(); return s;
}

// ---------------------------------------------------------------- options
inline mpart::MapOptions drawOpts(G& g, Cfg const& cfg) {
  mpart::MapOptions o;
  o.basisType = g.pick<mpart::BasisTypes>({mpart::BasisTypes::ProbabilistHermite, mpart::BasisTypes::PhysicistHermite, mpart::BasisTypes::HermiteFunctions});
  switch (cfg.lin == 1 ? 0 : cfg.lin == 2 ? 3 : g.below(6)) {
    case 0: case 1: case 2: break;
    case 3: o.basisLB = g.real(-2.5, -0.2); o.basisUB = g.real(0.2, 2.5); break;
    case 4: if (g.coin()) o.basisLB = g.real(-2.5, -0.2); else o.basisUB = g.real(0.2, 2.5); break;
    default: { double c = g.real(-1.5, 1.5), w = g.real(0.2, 2.0); o.basisLB = c - w; o.basisUB = c + w; }
  }
  o.basisNorm = !g.chance(1, 3);
  o.posFuncType = cfg.allowExp && g.coin() ? mpart::PosFuncTypes::Exp : mpart::PosFuncTypes::SoftPlus;
  o.quadType = g.pick<mpart::QuadTypes>({mpart::QuadTypes::ClenshawCurtis, mpart::QuadTypes::AdaptiveSimpson, mpart::QuadTypes::AdaptiveClenshawCurtis});
  o.contDeriv = cfg.contOnly ? true : !g.chance(2, 5);
  o.quadMaxSub = 31;
  o.quadMinSub = g.range(1, 3);
  if (o.quadType == mpart::QuadTypes::ClenshawCurtis) {
    if (cfg.exact && cfg.contOnly) { o.quadType = mpart::QuadTypes::AdaptiveSimpson; }
    else { o.quadPts = g.range(cfg.ccMin, 20); if (cfg.exact) o.contDeriv = false; }
  }
  if (o.quadType == mpart::QuadTypes::AdaptiveClenshawCurtis) o.quadPts = g.range(5, 20);
  bool isLin = !(std::isinf(o.basisLB) && std::isinf(o.basisUB));
  if (cfg.exact && o.quadType != mpart::QuadTypes::ClenshawCurtis && isLin) o.contDeriv = true;  // (the discrete derivative would integrate a jump)
  if (cfg.grad && o.quadType != mpart::QuadTypes::ClenshawCurtis) {
    if (isLin) { o.quadType = mpart::QuadTypes::ClenshawCurtis; o.quadPts = g.range(3, 20); }
    else if (o.quadType == mpart::QuadTypes::AdaptiveSimpson) o.quadMinSub = g.range(6, 7);
    else { o.quadMinSub = g.range(3, 4); o.quadPts = g.range(9, 20); }
  }
  double tol = cfg.exact || cfg.grad ? 1e-11 : g.pick<double>({1e-6, 1e-8, 1e-10});
  o.quadAbsTol = tol; o.quadRelTol = tol;
  if (cfg.ccOnly) { o.quadType = mpart::QuadTypes::ClenshawCurtis; o.quadPts = g.range(5, 12); }
  if (g.coin()) o.nugget = std::pow(10.0, -g.range(1, 4)) * (0.5 + g.unit());
  return o;
}
inline ref::Opts refOpts(mpart::MapOptions const& o) {
  ref::Opts r;
  r.fam = o.basisType == mpart::BasisTypes::ProbabilistHermite ? ref::PROB : o.basisType == mpart::BasisTypes::PhysicistHermite ? ref::PHYS : ref::HFUN;
  r.norm = o.basisNorm; r.lb = o.basisLB; r.ub = o.basisUB; r.lin = !(std::isinf(o.basisLB) && std::isinf(o.basisUB));
  r.expo = o.posFuncType == mpart::PosFuncTypes::Exp; r.nugget = o.nugget; r.contDeriv = o.contDeriv;
  r.cc = o.quadType == mpart::QuadTypes::ClenshawCurtis ? int(o.quadPts) : 0;
  return r;
}
inline std::string optDesc(mpart::MapOptions const& o) {
  std::ostringstream s; s.precision(6);
  s << (o.basisType == mpart::BasisTypes::ProbabilistHermite ? "Prob" : o.basisType == mpart::BasisTypes::PhysicistHermite ? "Phys" : "HF") << (o.basisNorm ? "" : "-unnorm");
  if (!(std::isinf(o.basisLB) && std::isinf(o.basisUB))) s << "[" << o.basisLB << "," << o.basisUB << "]";
  s << (o.posFuncType == mpart::PosFuncTypes::Exp ? " exp" : " softplus") << (o.quadType == mpart::QuadTypes::ClenshawCurtis ? " CC" : o.quadType == mpart::QuadTypes::AdaptiveSimpson ? " AS" : " ACC") << o.quadPts
    << (o.contDeriv ? " cont" : " disc") << " nugget=" << o.nugget;
  return s.str();
}
inline int orderFor(G&, int dim, bool cheap) { int p = dim == 1 ? 6 : dim == 2 ? 4 : dim == 3 ? 3 : 2; return cheap ? std::min(p, 2) : p; }

// ---------------------------------------------------------------- nodes
inline Node genComponent(G& g, Cfg const& cfg, int dim) {
  Node n; n.kind = "component"; n.din = dim; n.dout = 1; n.box = cfg.box; n.K = cfg.K;
  n.opts = drawOpts(g, cfg);
  // high orders where the basis stays moderate
  bool hf = n.opts.basisType == mpart::BasisTypes::HermiteFunctions, lin = !std::isinf(n.opts.basisLB) && !std::isinf(n.opts.basisUB);
  int more = (hf || (lin && n.opts.basisNorm && n.opts.posFuncType != mpart::PosFuncTypes::Exp)) && !cfg.cheap && g.chance(1, 5) ? g.range(1, dim == 1 ? 8 : 5) : 0;
  MSetSpec ms = cfg.big ? drawBigMSet(g, dim, cfg.big, 3) : drawMSet(g, dim, orderFor(g, dim, cfg.cheap), more);
  n.map = mpart::MapFactory::CreateComponent<HS>(ms.fixed, n.opts);
  n.comp.o = refOpts(n.opts); n.comp.m = ms.idx; n.comp.dim = dim; n.nc = int(ms.idx.size());
  n.adaptive = n.opts.quadType != mpart::QuadTypes::ClenshawCurtis;
  n.desc = "component(" + std::to_string(dim) + " " + optDesc(n.opts) + " " + ms.desc + ")";
  return n;
}
inline Mat drawSquare(G& g, int n) {
  for (int t = 0; t < 20; ++t) {
    Mat A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = g.real(-1, 1) + (i == j ? (g.chance(1, 3) ? -1.2 : 1.2) : 0);
    if (n == 0) return A;
    Eigen::JacobiSVD<Eigen::MatrixXd> s(A); if (s.singularValues()(n - 1) > 0.15) return A;
  }
  return Mat::Identity(n, n);
}
/// strided views of arrays handed to constructors (layout chosen at random)
inline mpart::StridedMatrix<double, HS> view(G& g, Mat const& A) {
  if (g.coin()) { Kokkos::View<double**, Kokkos::LayoutRight, HS> v("A", A.rows(), A.cols()); for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) v(i, j) = A(i, j); return v; }
  Kokkos::View<double**, Kokkos::LayoutLeft, HS> v("A", A.rows(), A.cols()); for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) v(i, j) = A(i, j); return v;
}
inline mpart::StridedVector<double, HS> view(VecX const& b) { Kokkos::View<double*, HS> v("b", b.size()); for (int i = 0; i < b.size(); ++i) v(i) = b(i); return v; }
inline VecX drawVec(G& g, int n, double lo = -1, double hi = 1) { VecX v(n); for (int i = 0; i < n; ++i) v(i) = g.real(lo, hi); return v; }

inline Node genAffine(G& g, Cfg const&, int din, int dout) {
  Node n; n.kind = "affine"; n.din = din; n.dout = dout; n.nc = 0;
  int w = din == dout ? int(g.below(3)) : 1 + int(g.below(2));
  n.hasA = w != 0; n.hasB = w != 1;
  if (n.hasA) { n.A.resize(dout, din); for (int i = 0; i < dout; ++i) for (int j = 0; j < din - dout; ++j) n.A(i, j) = g.real(-1, 1); n.A.rightCols(dout) = drawSquare(g, dout); }
  if (n.hasB) n.b = drawVec(g, dout, -2, 2);
  if (w == 0) n.map = std::make_shared<mpart::AffineMap<HS>>(view(n.b));
  else if (w == 1) n.map = std::make_shared<mpart::AffineMap<HS>>(view(g, n.A));
  else n.map = std::make_shared<mpart::AffineMap<HS>>(view(g, n.A), view(n.b));
  n.desc = std::string("affine(") + std::to_string(din) + "->" + std::to_string(dout) + (n.hasA ? " A" : "") + (n.hasB ? " b" : "") + ")";
  return n;
}
inline Node genIdentity(int din, int dout) {
  Node n; n.kind = "identity"; n.din = din; n.dout = dout; n.map = std::make_shared<mpart::IdentityMap<HS>>(din, dout);
  n.desc = "identity(" + std::to_string(din) + "->" + std::to_string(dout) + ")";
  return n;
}
/// lets moveCoeffs take over: every map needs coefficients first
inline void zeroCoeffs(Node& k) {
  if (k.nc == 0 || k.map->CheckCoefficients()) return;
  Kokkos::View<double*, HS> z("z", k.nc); Kokkos::View<const double*, HS> cz(z); k.map->SetCoeffs(cz);
}

Node genMap(G& g, Cfg const& cfg, int din, int dout, int depth);

inline Node genFactory(G& g, Cfg const& cfg, int din, int dout) {
  Node n; n.kind = "triangular"; n.din = din; n.dout = dout; n.box = cfg.box; n.K = cfg.K;
  int p = g.range(cfg.cheap ? 1 : 0, din <= 2 ? 3 : 2);
  n.opts = drawOpts(g, cfg);
  n.map = mpart::MapFactory::CreateTriangular<HS>(din, dout, p, n.opts);
  auto tri = std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(n.map);
  for (int i = 0; i < dout; ++i) {
    Node k; k.kind = "component"; k.din = din - dout + i + 1; k.dout = 1; k.box = cfg.box; k.K = cfg.K; k.opts = n.opts; k.comp.o = refOpts(n.opts); k.comp.dim = k.din;
    mpart::FixedMultiIndexSet<HS> f(k.din, p); for (unsigned q = 0; q < f.Size(); ++q) k.comp.m.push_back(f.IndexToMulti(q));
    k.nc = int(f.Size()); k.adaptive = n.opts.quadType != mpart::QuadTypes::ClenshawCurtis; k.map = tri->GetComponent(i);
    n.nc += k.nc; n.kids.push_back(k);
  }
  n.desc = "CreateTriangular(" + std::to_string(din) + "," + std::to_string(dout) + "," + std::to_string(p) + " " + optDesc(n.opts) + ")";
  return n;
}
inline Node genCustom(G& g, Cfg const& cfg, int din, int dout, int depth) {
  Node n; n.kind = "triangular"; n.din = din; n.dout = dout;
  int left = dout, at = din - dout; std::vector<std::shared_ptr<CMB>> ms;
  n.desc = "triangular[";
  while (left > 0) {
    int m = int(n.kids.size()) == cfg.maxBlocks - 1 ? left : 1 + int(g.below(left));
    if (left == dout && m == dout && dout > 1 && g.coin()) m = 1;
    Node k = genMap(g, cfg, at + m, m, depth - 1);
    at += m; left -= m; n.nc += k.nc; n.desc += k.desc + "; "; ms.push_back(k.map); n.kids.push_back(k);
  }
  bool mv = g.coin();
  if (mv) for (auto& k : n.kids) zeroCoeffs(k);
  n.map = std::make_shared<mpart::TriangularMap<HS>>(ms, mv);
  n.desc += mv ? "]mv" : "]";
  return n;
}
inline Node genComposed(G& g, Cfg cfg, int d, int depth) {
  Node n; n.kind = "composed"; n.din = n.dout = d;
  int L = g.chance(1, 3) ? g.range(4, 9) : g.range(1, 3); std::vector<std::shared_ptr<CMB>> ms; n.desc = "composed(";
  cfg.allowExp = false; cfg.K = L > 3 ? 0.7 : 1.2; cfg.cheap = true;
  for (int i = 0; i < L; ++i) {
    Cfg c = cfg; c.box = cfg.box + 2 * i; if (L > 3 && g.chance(1, 2)) { c.component = c.factory = c.custom = c.summarized = c.single = c.composed = false; c.affine = c.identity = true; if (cfg.serializable) c.affine = true; }
    Node k = genMap(g, c, d, d, L > 3 ? 0 : depth - 1);
    n.nc += k.nc; n.desc += k.desc + " | "; ms.push_back(k.map); n.kids.push_back(k);
  }
  n.maxChecks = g.range(-1, L + 1);
  bool mv = g.coin();
  if (mv) for (auto& k : n.kids) zeroCoeffs(k);
  n.map = std::make_shared<mpart::ComposedMap<HS>>(ms, mv, n.maxChecks);
  n.desc += "checks=" + std::to_string(n.maxChecks) + (mv ? ")mv" : ")");
  return n;
}
inline Node genSingle(G& g, Cfg const& cfg, int d) {
  int a = g.range(1, d);
  Node k = genComponent(g, cfg, a); zeroCoeffs(k);
  Node n; n.kind = "triangular"; n.din = n.dout = d; n.nc = k.nc;
  n.map = mpart::MapFactory::CreateSingleEntryMap<HS>(d, a, k.map);
  if (a > 1) n.kids.push_back(genIdentity(a - 1, a - 1));
  n.kids.push_back(k);
  if (a < d || a == 1) n.kids.push_back(genIdentity(d, d - a));
  n.desc = "single(" + std::to_string(d) + "," + std::to_string(a) + " " + k.desc + ")";
  return n;
}
inline Node genSummarized(G& g, Cfg const& cfg, int din) {
  Node n; n.kind = "summarized"; n.din = din; n.dout = 1;
  int nin = din - 1, m = g.range(1, 3);
  int w = int(g.below(3));
  if (w == 0) { // affine summary
    int v = int(g.below(3)); if (v == 0) m = nin; m = std::min(m, nin);  // (affine functions need rows <= columns)
    n.hasA = v != 0; n.hasB = v != 1;
    if (n.hasA) { n.A.resize(m, nin); for (int i = 0; i < m; ++i) for (int j = 0; j < nin; ++j) n.A(i, j) = g.real(-1, 1); }
    if (n.hasB) n.b = drawVec(g, m);
    if (v == 0) n.summary = std::make_shared<mpart::AffineFunction<HS>>(view(n.b));
    else if (v == 1) n.summary = std::make_shared<mpart::AffineFunction<HS>>(view(g, n.A));
    else n.summary = std::make_shared<mpart::AffineFunction<HS>>(view(g, n.A), view(n.b));
    n.desc = "summarized(affine " + std::to_string(nin) + "->" + std::to_string(m) + ", ";
  } else {
    mpart::MapOptions o = drawOpts(g, cfg); MSetSpec ms = drawMSet(g, nin, 2);
    n.summary = mpart::MapFactory::CreateExpansion<HS>(m, ms.fixed, o);
    n.exp.o = refOpts(o); n.exp.m = ms.idx; n.exp.dim = nin; n.exp.out = m;
    for (size_t i = 0; i < m * ms.idx.size(); ++i) n.expCoeffs.push_back(g.real(-0.7, 0.7) / double(ms.idx.size()));
    Kokkos::View<double*, HS> c("c", n.expCoeffs.size()); for (size_t i = 0; i < n.expCoeffs.size(); ++i) c(i) = n.expCoeffs[i];
    Kokkos::View<const double*, HS> cc(c); n.summary->SetCoeffs(cc);
    n.desc = "summarized(expansion " + std::to_string(nin) + "->" + std::to_string(m) + " " + ms.desc + ", ";
  }
  Cfg c2 = cfg; c2.allowExp = false; c2.cheap = true; c2.K = std::min(cfg.K, 1.5); c2.box = cfg.box * 2;
  Node k = genComponent(g, c2, m + 1);
  n.map = std::make_shared<mpart::SummarizedMap<HS>>(n.summary, k.map);
  n.nc = k.nc; n.desc += k.desc + ")"; n.kids.push_back(k);
  return n;
}
inline Node genMap(G& g, Cfg const& cfg, int din, int dout, int depth) {
  std::vector<int> ks;
  if (dout == 1 && cfg.component) { ks.push_back(0); ks.push_back(0); ks.push_back(0); }
  if (cfg.factory) { ks.push_back(1); if (dout > 1) ks.push_back(1); }
  if (cfg.custom && depth > 0) { ks.push_back(2); if (dout > 1) { ks.push_back(2); ks.push_back(2); } }
  if (cfg.affine && !cfg.serializable) ks.push_back(3);
  if (cfg.identity && !cfg.serializable) ks.push_back(4);
  if (cfg.composed && depth > 0 && din == dout && !cfg.serializable) { ks.push_back(5); ks.push_back(5); }
  if (cfg.single && din == dout && din >= 2 && !cfg.serializable) ks.push_back(6);
  if (cfg.summarized && dout == 1 && din >= 2 && !cfg.serializable) ks.push_back(7);
  switch (ks.empty() ? 3 : g.pick<int>(ks)) {
    case 0: return genComponent(g, cfg, din);
    case 1: return genFactory(g, cfg, din, dout);
    case 2: return genCustom(g, cfg, din, dout, depth);
    case 3: return genAffine(g, cfg, din, dout);
    case 4: return genIdentity(din, dout);
    case 5: return genComposed(g, cfg, din, depth);
    case 6: return genSingle(g, cfg, din);
    default: return genSummarized(g, cfg, din);
  }
}

// ---------------------------------------------------------------- coefficients and points
/// appends coefficients for node n, scaled so that |d_d f| <= K over the box
inline void drawCoeffs(G& g, Node const& n, std::vector<double>& out) {
  if (n.kind == "component") {
    auto& m = n.comp.m; int d = n.comp.dim;
    std::vector<double> c(m.size()); ld B = 0, B0 = 0;
    int style = int(g.below(4));
    for (size_t i = 0; i < m.size(); ++i) {
      c[i] = style == 0 ? 0.0 : style == 1 && g.coin() ? 0.0 : g.real(-1, 1);
      auto mx = [&](int k, bool der) { ld v = 0; for (double t : {-n.box, -0.5, 0.5, n.box}) { ref::V3 e = ref::b1(n.comp.o, k, t); v = std::max<ld>(v, der ? e.md : e.mv); } return v; };
      ld lead = 1; for (int j = 0; j + 1 < d; ++j) lead *= mx(m[i][j], false);
      ref::V3 e2 = ref::b1(n.comp.o, m[i][d - 1], 0.5L);
      B += std::fabs(c[i]) * lead * mx(m[i][d - 1], true);
      B0 += std::fabs(c[i]) * lead * e2.mv;
    }
    double s = B > n.K ? double(n.K / B) : 1.0, s0 = B0 > 5 * n.K ? double(5 * n.K / B0) : 1.0;
    double k = style == 3 ? 0.3 : 1.0;
    for (size_t i = 0; i < m.size(); ++i) out.push_back(c[i] * k * (m[i][d - 1] > 0 ? std::min(s, s0) : s0));
    return;
  }
  for (auto& k : n.kids) drawCoeffs(g, k, out);
}
inline VecX setCoeffs(G& g, Node const& n) {
  std::vector<double> c; drawCoeffs(g, n, c);
  VecX v = Eigen::Map<VecX>(c.data(), c.size());
  if (n.nc > 0) { VecX w = v; n.map->SetCoeffs(Eigen::Ref<VecX>(w)); }
  return v;
}
inline Mat drawPts(G& g, int d, int n, double box) {
  Mat x(d, n);
  for (int j = 0; j < n; ++j) for (int i = 0; i < d; ++i) x(i, j) = g.chance(1, 12) ? g.pick<double>({0.0, 1.0, -1.0}) : g.real(-box, box);
  return x;
}
/// hundreds or thousands of points from one drawn seed (a few choices only, so that shrinking stays quick)
inline Mat manyPts(G& g, int d, int n, double box) {
  uint64_t r = g.below(1u << 30) * 2 + 1; Mat x(d, n);
  for (int j = 0; j < n; ++j) for (int i = 0; i < d; ++i) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; x(i, j) = box * (double(int64_t(r >> 12)) / double(1LL << 51) - 1); }
  return x;
}
/// a top-level map of random shape with its coefficients set
struct Built { Node n; VecX c; LV lc; };
/// the configuration for, and a component with, tens to hundreds of terms in 5 to 30 dimensions
inline Cfg bigCfg(G& g, int most = 250) { Cfg c; c.exact = false; c.ccOnly = true; c.allowExp = false; c.box = 2; c.K = g.pick<double>({1, 2}); c.big = g.chance(1, 3) ? g.range(200, std::max(200, most)) : g.range(20, 100); return c; }
inline VecX setCoeffs(G& g, Node const& n);
inline Built bigComponent(G& g, Cfg const& cfg) {
  Built b; b.n = genComponent(g, cfg, g.chance(1, 4) ? g.range(13, 30) : g.range(5, 12)); b.c = setCoeffs(g, b.n); b.lc = lv(b.c);
  g.label(b.n.nc > 255 ? "more than 255 terms" : "up to 255 terms"); g.note() << b.n.desc << " " << b.n.nc << " coefficients"; return b;
}
inline Built build(G& g, Cfg const& cfg, int depth = 2, int maxOut = 3, int maxExtra = 2) {
  Built b;
  int dout = g.range(1, maxOut), din = dout + (g.coin() ? 0 : g.range(0, maxExtra)); Cfg c2 = cfg;
  if (maxOut >= 3 && g.chance(1, 12)) { dout = g.range(1, 7); din = dout + (g.coin() ? 0 : g.range(1, 6)); c2.cheap = true; c2.maxBlocks = 8; g.label("many dimensions"); }
  b.n = genMap(g, c2, din, dout, depth);
  b.c = setCoeffs(g, b.n); b.lc = lv(b.c);
  b.n.visit([&](Node const& k) { g.label(k.kind); if (k.kind == "component") g.label(std::string("component ") + (k.comp.o.fam == ref::PROB ? "prob" : k.comp.o.fam == ref::PHYS ? "phys" : "hermitefn") + (k.comp.o.lin ? " lin" : "") + (k.comp.o.expo ? " exp" : " softplus") + (k.comp.o.cc ? " CC" : k.opts.quadType == mpart::QuadTypes::AdaptiveSimpson ? " AS" : " ACC")); });
  if (din > dout) g.label("conditioning inputs");
  g.note() << b.n.desc << " coeffs " << str(b.c);
  return b;
}
inline double maxAbs(Mat const& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }
}  // namespace mg
