// C17: serialization round trips. Oracle: the object before saving (bitwise where the same code runs on the same numbers).
#include "inv.hpp"
#include "MParT/Utilities/Serialization.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/Quadrature.h"
#include <cereal/types/memory.hpp>
#include <cereal/types/vector.hpp>
#include <sstream>
using namespace mg;
template <class... T> static std::string save(T const&... t) { std::stringstream s; { cereal::BinaryOutputArchive a(s); a(t...); } return s.str(); }
template <class... T> static void load(std::string const& b, T&... t) { std::stringstream s(b); cereal::BinaryInputArchive a(s); a(t...); }
static std::string saveMap(PFB const& m) { std::stringstream s; m.Save(s); return s.str(); }
static std::shared_ptr<PFB> loadMap(std::string const& b) { std::stringstream s(b); return PFB::Load(s); }
static bool same(Mat const& a, Mat const& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (long i = 0; i < a.size(); ++i) if (!(a.data()[i] == b.data()[i]) && !(std::isnan(a.data()[i]) && std::isnan(b.data()[i]))) return false; return true; }
static bool contDeep(Node const& n) { bool c = true; n.visit([&](Node const& k) { if (k.kind == "component" && !k.opts.contDeriv) c = false; }); return c; }
/// loads the first k bytes: must throw; what == the throwing thing
template <class F> static void truncated(G& g, std::string const& full, F doLoad, const char* what) {
  if (full.empty()) return;
  size_t k = g.coin() ? g.below(full.size()) : full.size() - 1 - g.below(std::min<size_t>(full.size(), 24));
  bool threw = false; try { doLoad(full.substr(0, k)); } catch (std::exception const&) { threw = true; }
  g.check(threw, "truncated", std::string(what) + ": reading " + std::to_string(k) + " of " + std::to_string(full.size()) + " bytes did not raise an error");
}
static Cfg serCfg(G& g) { Cfg c; c.exact = false; c.box = 2; c.K = g.pick<double>({1, 2}); c.cheap = g.coin(); c.contOnly = g.coin(); c.serializable = true; return c; }
static void compareMaps(G& g, Node const& n, CMB& a, CMB& b, const char* when) {
  int N = g.range(1, 3); Mat x = drawPts(g, n.din, N, 2), s = drawPts(g, n.dout, N, 2); bool cont = contDeep(n);
  for (int op : {EVAL, GRAD, CGRAD, LDET, LDCG, LDIG}) {
    if (!cont && op == LDIG) continue;
    if ((op == CGRAD || op == LDCG) && n.nc == 0) continue;
    g.check(same(runOp(a, op, x, s), runOp(b, op, x, s)), opName(op), std::string(when) + ": " + opName(op) + " differs between the map and its copy");
  }
  Mat y = runOp(a, EVAL, x, s), x1 = x.topRows(n.din - n.dout);
  g.check(same(runOp(a, INV, x1, y), runOp(b, INV, x1, y)), "Inverse", std::string(when) + ": Inverse differs between the map and its copy");
}
static void walk(G& g, CMB& a, CMB& b) {  // same block structure and coefficient views
  g.check(a.inputDim == b.inputDim && a.outputDim == b.outputDim && a.numCoeffs == b.numCoeffs, "dimensions", "dimensions differ");
  g.check(a.CheckCoefficients() == b.CheckCoefficients(), "coefficients set", "CheckCoefficients is " + std::to_string(a.CheckCoefficients()) + " for the map and " + std::to_string(b.CheckCoefficients()) + " for its copy");
  if (a.CheckCoefficients() && a.numCoeffs) { auto u = a.Coeffs(), v = b.Coeffs(); bool eq = u.extent(0) == v.extent(0); for (size_t i = 0; eq && i < u.extent(0); ++i) eq = u(i) == v(i); g.check(eq, "coefficients", "coefficients differ"); g.check(u.data() != v.data(), "independent", "the copy shares memory with the original"); }
  auto* ta = dynamic_cast<mpart::TriangularMap<HS>*>(&a); auto* tb = dynamic_cast<mpart::TriangularMap<HS>*>(&b);
  g.check(!ta == !tb, "type", "type differs");
  if (ta) { unsigned at = 0; for (unsigned i = 0, at2 = 0; at2 < a.outputDim; ++i) { auto p = ta->GetComponent(i), q = tb->GetComponent(i); walk(g, *p, *q); if (b.CheckCoefficients() && b.numCoeffs && q->numCoeffs) g.check(q->Coeffs().data() == b.Coeffs().data() + at, "slices", "the coefficients of a reloaded block are not a slice of the reloaded map's"); at += q->numCoeffs; at2 += p->outputDim; } }
}
PBT_PROPERTY(maps, 500) {
  Cfg cfg = serCfg(g); Node n; VecX c; int dout = g.range(1, 3), din = dout + (g.coin() ? 0 : g.range(0, 2));
  n = genMap(g, cfg, din, dout, 2);
  int cs = int(g.below(4));  // 0: never set by us (some kinds start without coefficients, factory maps with zeros)
  if (cs) c = setCoeffs(g, n);
  if (cs == 3 && n.nc) {  // coefficients that live in a larger array of the caller's
    static thread_local std::vector<Kokkos::View<double*, HS>> keep; keep.clear(); keep.emplace_back("big", n.nc + 7); auto v = Kokkos::subview(keep[0], std::make_pair(3, 3 + n.nc)); for (int i = 0; i < n.nc; ++i) v(i) = c(i); Kokkos::View<double*, HS> w(v); n.map->WrapCoeffs(w);
  }
  n.visit([&](Node const& k) { g.label(k.kind); });
  g.note() << n.desc << " coeffs mode " << cs << " " << str(c);
  if (n.nc > 0) g.nontrivial();
  std::string bytes = saveMap(*n.map);
  auto p = loadMap(bytes); auto m = std::dynamic_pointer_cast<CMB>(p);
  g.check(bool(m), "type", "the loaded object is not a conditional map");
  walk(g, *n.map, *m);
  bool set = n.map->CheckCoefficients() || n.nc == 0;
  if (set) compareMaps(g, n, *n.map, *m, "after loading");
  else { Mat x = drawPts(g, n.din, 1, 2); bool t1 = false, t2 = false; try { n.map->Evaluate(x); } catch (std::exception const&) { t1 = true; } try { m->Evaluate(x); } catch (std::exception const&) { t2 = true; } g.check(t1 == t2, "unset coefficients", "evaluating without coefficients behaves differently after loading"); }
  g.check(saveMap(*n.map) == bytes, "saving twice", "saving the map again gives other bytes");
  // the copy is independent, and fully usable: new coefficients act on it alone
  if (n.nc) {
    std::vector<double> nc; drawCoeffs(g, n, nc); for (auto& v : nc) v *= -0.8; VecX w = Eigen::Map<VecX>(nc.data(), nc.size());
    Mat x = drawPts(g, n.din, 2, 2), y0; if (set) y0 = n.map->Evaluate(x);
    m->SetCoeffs(Eigen::Ref<VecX>(w)); Mat y1 = m->Evaluate(x);
    if (set) g.check(same(n.map->Evaluate(x), y0), "independent", "setting coefficients of the copy changed the original");
    n.map->SetCoeffs(Eigen::Ref<VecX>(w));
    g.check(same(n.map->Evaluate(x), y1), "new coefficients", "map and copy differ after both got the same new coefficients");
    compareMaps(g, n, *n.map, *m, "with new coefficients");
  }
  truncated(g, bytes, [](std::string const& s) { loadMap(s); }, "map");
}
// components with tens to hundreds of terms in up to thirty dimensions
PBT_PROPERTY(many_terms, 25) {
  Cfg cfg = bigCfg(g, 600); Built b = bigComponent(g, cfg); Node& n = b.n; g.nontrivial();
  std::string bytes = saveMap(*n.map); auto m = std::dynamic_pointer_cast<CMB>(loadMap(bytes)); g.check(bool(m), "type", "the loaded object is not a conditional map");
  walk(g, *n.map, *m); compareMaps(g, n, *n.map, *m, "after loading"); g.check(saveMap(*m) == bytes, "saving twice", "saving the copy gives other bytes");
}
// coefficient vectors saved next to the dimensions and loaded into a fresh map of the same kind (as the bindings do it)
PBT_PROPERTY(coefficient_archive, 300) {
  Cfg cfg = serCfg(g); cfg.serializable = false; Built b = build(g, cfg, 1);
  if (b.n.nc == 0) g.discard("no coefficients");
  g.nontrivial();
  auto cv = b.n.map->Coeffs();
  std::string bytes = save(b.n.map->inputDim, b.n.map->outputDim, b.n.map->numCoeffs, cv);
  unsigned i, o, n; Kokkos::View<double*, HS> v; load(bytes, i, o, n, v);
  g.check(i == b.n.map->inputDim && o == b.n.map->outputDim && n == b.n.map->numCoeffs && v.extent(0) == n, "dimensions", "");
  Mat x = drawPts(g, b.n.din, 2, 2); Mat y = b.n.map->Evaluate(x);
  VecX junk = VecX::Constant(b.n.nc, 0.01); b.n.map->SetCoeffs(Eigen::Ref<VecX>(junk));
  Kokkos::View<const double*, HS> c(v); b.n.map->SetCoeffs(c);
  g.check(same(b.n.map->Evaluate(x), y), "coefficients", "evaluating with reloaded coefficients gives other values");
  truncated(g, bytes, [](std::string const& s) { unsigned i, o, n; Kokkos::View<double*, HS> v; load(s, i, o, n, v); }, "coefficients");
}
// kinds of map that cannot be saved say so
PBT_PROPERTY(unsupported, 150) {
  Cfg cfg; cfg.exact = false; cfg.cheap = true; Node n;
  switch (g.below(5)) { case 0: n = genAffine(g, cfg, 2, 2); break; case 1: n = genIdentity(2, 1); break; case 2: n = genComposed(g, cfg, 2, 1); break; case 3: n = genSummarized(g, cfg, 3); break; default: n = genSingle(g, cfg, 3); }
  VecX c = setCoeffs(g, n); g.note() << n.desc; g.nontrivial();
  Mat x = drawPts(g, n.din, 2, 1.5), y = n.map->Evaluate(x);
  std::string bytes; bool threw = false; try { bytes = saveMap(*n.map); } catch (std::exception const&) { threw = true; }
  if (!threw) { auto m = std::dynamic_pointer_cast<CMB>(loadMap(bytes)); g.check(m && same(m->Evaluate(x), y), "silently wrong", "saving " + n.kind + " neither failed nor gave back an equal map"); }
  g.check(same(n.map->Evaluate(x), y), "unchanged", "saving changed the map");
}
// ---------------------------------------------------------------- options
static mpart::MapOptions anyOpts(G& g) {
  mpart::MapOptions o;
  o.basisType = g.pick<mpart::BasisTypes>({mpart::BasisTypes::ProbabilistHermite, mpart::BasisTypes::PhysicistHermite, mpart::BasisTypes::HermiteFunctions});
  o.posFuncType = g.pick<mpart::PosFuncTypes>({mpart::PosFuncTypes::Exp, mpart::PosFuncTypes::SoftPlus});
  o.quadType = g.pick<mpart::QuadTypes>({mpart::QuadTypes::ClenshawCurtis, mpart::QuadTypes::AdaptiveSimpson, mpart::QuadTypes::AdaptiveClenshawCurtis});
  auto num = [&](double inf) { return g.chance(1, 3) ? inf : g.chance(1, 3) ? g.real(-1e-8, 1e-8) : g.real(-50, 50); };
  o.basisLB = num(-HUGE_VAL); o.basisUB = num(HUGE_VAL); o.quadAbsTol = std::fabs(num(0)); o.quadRelTol = std::fabs(num(0)); o.nugget = std::fabs(num(0));
  o.quadMaxSub = g.coin() ? g.below(64) : unsigned(g.below(1ull << 32)); o.quadMinSub = g.coin() ? g.below(8) : unsigned(g.below(1ull << 32)); o.quadPts = g.coin() ? g.below(64) : unsigned(g.below(1ull << 32));
  o.contDeriv = g.coin(); o.basisNorm = g.coin();
  return o;
}
static bool fieldsEqual(mpart::MapOptions const& a, mpart::MapOptions const& b) {
  return a.basisType == b.basisType && a.basisLB == b.basisLB && a.basisUB == b.basisUB && a.posFuncType == b.posFuncType && a.quadType == b.quadType && a.quadAbsTol == b.quadAbsTol && a.quadRelTol == b.quadRelTol && a.quadMaxSub == b.quadMaxSub && a.quadMinSub == b.quadMinSub && a.quadPts == b.quadPts && a.contDeriv == b.contDeriv && a.basisNorm == b.basisNorm && a.nugget == b.nugget;
}
PBT_PROPERTY(options, 1500) {
  mpart::MapOptions o = anyOpts(g), p = anyOpts(g);
  g.note() << o.String(); g.nontrivial();
  std::string bytes = save(o); mpart::MapOptions r = p; load(bytes, r);
  g.check(fieldsEqual(o, r), "options", "a field changed: " + r.String());
  g.check(o == r && r == o, "operator==", "reloaded options do not compare equal");
  g.check((o == p) == fieldsEqual(o, p), "operator==", "comparison disagrees with the fields of " + p.String());
  // changing any one field makes them different
  mpart::MapOptions q = o;
  switch (g.below(13)) {
    case 0: q.basisType = q.basisType == mpart::BasisTypes::HermiteFunctions ? mpart::BasisTypes::ProbabilistHermite : mpart::BasisTypes::HermiteFunctions; break;
    case 1: q.basisLB = std::isinf(q.basisLB) ? 0 : std::nextafter(q.basisLB, 1e9); break;
    case 2: q.basisUB = std::isinf(q.basisUB) ? 0 : std::nextafter(q.basisUB, 1e9); break;
    case 3: q.posFuncType = q.posFuncType == mpart::PosFuncTypes::Exp ? mpart::PosFuncTypes::SoftPlus : mpart::PosFuncTypes::Exp; break;
    case 4: q.quadType = q.quadType == mpart::QuadTypes::ClenshawCurtis ? mpart::QuadTypes::AdaptiveSimpson : mpart::QuadTypes::ClenshawCurtis; break;
    case 5: q.quadAbsTol = std::nextafter(q.quadAbsTol, 1e9); break;
    case 6: q.quadRelTol = std::nextafter(q.quadRelTol, 1e9); break;
    case 7: q.quadMaxSub ^= 1u << g.below(32); break;
    case 8: q.quadMinSub ^= 1u << g.below(32); break;
    case 9: q.quadPts ^= 1u << g.below(32); break;
    case 10: q.contDeriv = !q.contDeriv; break;
    case 11: q.basisNorm = !q.basisNorm; break;
    default: q.nugget = std::nextafter(q.nugget, 1e9);
  }
  g.check(!(o == q), "operator==", "options that differ in one field compare equal");
  mpart::MapOptions r2; load(save(q), r2); g.check(!(r2 == o) && r2 == q, "options", "a changed field was lost");
  truncated(g, bytes, [](std::string const& s) { mpart::MapOptions r; load(s, r); }, "options");
}
// ---------------------------------------------------------------- multi-index sets
PBT_PROPERTY(index_sets, 600) {
  int dim = g.range(1, 4); MSetSpec s = drawMSet(g, dim, 4); g.note() << s.desc; if (s.idx.size() > 1) g.nontrivial();
  std::string bytes = save(s.fixed);
  mpart::FixedMultiIndexSet<HS> r(g.range(1, 3), unsigned(g.range(0, 2))); load(bytes, r);
  g.check(r.Size() == s.fixed.Size() && r.Length() == s.fixed.Length(), "size", "");
  for (unsigned i = 0; i < s.idx.size(); ++i) { g.check(r.IndexToMulti(i) == s.idx[i], "IndexToMulti", "term " + std::to_string(i)); g.check(r.MultiToIndex(s.idx[i]) == int(i), "MultiToIndex", "term " + std::to_string(i)); }
  std::vector<unsigned> q(dim); for (auto& v : q) v = g.below(6); g.check(r.MultiToIndex(q) == s.fixed.MultiToIndex(q), "MultiToIndex", "of an arbitrary index");
  auto a = s.fixed.MaxDegrees(), b = r.MaxDegrees(); bool eq = a.extent(0) == b.extent(0); for (size_t i = 0; eq && i < a.extent(0); ++i) eq = a(i) == b(i); g.check(eq, "MaxDegrees", "");
  g.check(save(r) == bytes, "stable bytes", "saving the loaded set gives other bytes");
  // it serves as well as the original
  mpart::MapOptions o; auto c1 = mpart::MapFactory::CreateComponent<HS>(s.fixed, o), c2 = mpart::MapFactory::CreateComponent<HS>(r, o);
  VecX c = drawVec(g, int(s.idx.size()), -0.3, 0.3), c0 = c; c1->SetCoeffs(Eigen::Ref<VecX>(c)); c2->SetCoeffs(Eigen::Ref<VecX>(c0)); Mat x = drawPts(g, dim, 2, 1.5);
  g.check(same(c1->Evaluate(x), c2->Evaluate(x)), "component", "a component on the loaded set evaluates differently");
  truncated(g, bytes, [](std::string const& t) { mpart::FixedMultiIndexSet<HS> r(1, 1u); load(t, r); }, "index set");
}
// ---------------------------------------------------------------- arrays
template <class T> static T val(G& g) { return T(g.real(-1e3, 1e3)); }
template <> unsigned val<unsigned>(G& g) { return unsigned(g.below(1ull << 32)); }
template <class T> static void vecCase(G& g) {
  long n = g.chance(1, 6) ? 0 : g.range(1, 40), pad = g.coin() ? 0 : g.range(1, 5); Kokkos::View<T*, HS> big("big", n + 2 * pad); for (long i = 0; i < n + 2 * pad; ++i) big(i) = val<T>(g);
  Kokkos::View<T*, HS> v = Kokkos::subview(big, std::make_pair(pad, pad + n)); g.note() << "vector " << n << " pad " << pad; if (n) g.nontrivial();
  std::string bytes = save(v); Kokkos::View<T*, HS> r("r", g.below(4)); load(bytes, r);
  g.check(long(r.extent(0)) == n, "vector", "length"); for (long i = 0; i < n; ++i) g.check(r(i) == v(i), "vector", "entry " + std::to_string(i));
  truncated(g, bytes, [](std::string const& t) { Kokkos::View<T*, HS> r; load(t, r); }, "vector");
}
template <class T, class L> static void matCase(G& g) {
  long m = g.chance(1, 8) ? 0 : g.range(1, 8), n = g.chance(1, 8) ? 0 : g.range(1, 8);
  Kokkos::View<T**, L, HS> v("v", m, n); for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) v(i, j) = val<T>(g);
  g.note() << "matrix " << m << "x" << n; if (m * n > 1) g.nontrivial();
  std::string bytes = save(v); Kokkos::View<T**, L, HS> r("r", 2, 1); load(bytes, r);
  g.check(long(r.extent(0)) == m && long(r.extent(1)) == n, "matrix", "shape"); for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) g.check(r(i, j) == v(i, j), "matrix", "entry");
  truncated(g, bytes, [](std::string const& t) { Kokkos::View<T**, L, HS> r; load(t, r); }, "matrix");
}
// a block of a larger array keeps its type but not its contiguity
template <class T, class L> static void blockCase(G& g) {
  long m = g.range(1, 6), n = g.range(1, 6), a = g.range(0, 3), b = g.range(0, 3), p = g.range(0, 3), q = g.range(0, 3);
  Kokkos::View<T**, L, HS> big("big", m + a + p, n + b + q); for (size_t i = 0; i < big.extent(0); ++i) for (size_t j = 0; j < big.extent(1); ++j) big(i, j) = val<T>(g);
  bool left = std::is_same<L, Kokkos::LayoutLeft>::value;
  Kokkos::View<T**, L, HS> v;
  if (left) v = Kokkos::subview(big, std::make_pair(a, a + m), std::make_pair(b, b + n)); else v = Kokkos::subview(big, std::make_pair(a, a + m), std::make_pair(b, b + n));
  g.note() << "block " << m << "x" << n << " of " << big.extent(0) << "x" << big.extent(1); if (m * n > 1) g.nontrivial();
  std::string bytes = save(v); Kokkos::View<T**, L, HS> r; load(bytes, r);
  g.check(long(r.extent(0)) == m && long(r.extent(1)) == n, "block", "shape"); for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) g.check(r(i, j) == v(i, j), "block", "entry (" + std::to_string(i) + "," + std::to_string(j) + ") of a block of a larger array");
}
PBT_PROPERTY(arrays, 900) {
  switch (g.below(7)) {
    case 0: vecCase<double>(g); break; case 1: vecCase<unsigned>(g); break; case 2: vecCase<int>(g); break;
    case 3: matCase<double, Kokkos::LayoutLeft>(g); break; case 4: matCase<double, Kokkos::LayoutRight>(g); break;
    case 5: blockCase<double, Kokkos::LayoutLeft>(g); break; default: blockCase<double, Kokkos::LayoutRight>(g);
  }
}
// ---------------------------------------------------------------- bases, workers, rules
template <class B> static void basisCase(G& g, B const& b, B other) {
  load(save(b), other);
  for (int t = 0; t < 3; ++t) { int k = g.range(0, 8); double x = g.real(-4, 4); g.check(b.Evaluate(k, x) == other.Evaluate(k, x) && b.Derivative(k, x) == other.Derivative(k, x) && b.SecondDerivative(k, x) == other.SecondDerivative(k, x), "basis", "order " + std::to_string(k) + " at " + num(x)); }
  g.nontrivial(); truncated(g, save(b), [&](std::string const& s) { B r = other; load(s, r); }, "basis");
}
template <class W> static void workerCase(G& g, W const& w, W other, MSetSpec const& s) {
  load(save(w), other);
  g.check(w.NumCoeffs() == other.NumCoeffs() && w.CacheSize() == other.CacheSize() && w.InputSize() == other.InputSize(), "worker", "sizes");
  std::vector<double> c1(w.CacheSize(), 0), c2(w.CacheSize(), 0); int d = w.InputSize(); Kokkos::View<double*, HS> pt("pt", d), co("c", s.idx.size());
  for (int i = 0; i < d; ++i) pt(i) = g.real(-2, 2); for (size_t i = 0; i < s.idx.size(); ++i) co(i) = g.real(-1, 1);
  w.FillCache1(c1.data(), pt, mpart::DerivativeFlags::None); w.FillCache2(c1.data(), pt, pt(d - 1), mpart::DerivativeFlags::None);
  other.FillCache1(c2.data(), pt, mpart::DerivativeFlags::None); other.FillCache2(c2.data(), pt, pt(d - 1), mpart::DerivativeFlags::None);
  g.check(w.Evaluate(c1.data(), co) == other.Evaluate(c2.data(), co), "worker", "Evaluate differs after loading");
  g.nontrivial();
}
PBT_PROPERTY(parts, 800) {
  using namespace mpart; bool n1 = g.coin(), n2 = g.coin(); double lb = g.real(-3, 0), ub = g.real(0, 3), lb2 = g.real(-3, 0), ub2 = g.real(0, 3);
  int which = g.below(10); g.note() << "part " << which << " " << n1 << n2 << " [" << lb << "," << ub << "]"; g.label("part " + std::to_string(which));
  MSetSpec s; if (which >= 5 && which <= 7) { s = drawMSet(g, g.range(1, 3), 3); g.note() << s.desc; }
  switch (which) {
    case 0: basisCase(g, ProbabilistHermite(n1), ProbabilistHermite(n2)); break;
    case 1: basisCase(g, PhysicistHermite(n1), PhysicistHermite(n2)); break;
    case 2: basisCase(g, HermiteFunction(), HermiteFunction()); break;
    case 3: basisCase(g, LinearizedBasis<ProbabilistHermite>(ProbabilistHermite(n1), lb, ub), LinearizedBasis<ProbabilistHermite>(ProbabilistHermite(n2), lb2, ub2)); break;
    case 4: basisCase(g, LinearizedBasis<HermiteFunction>(HermiteFunction(), lb, ub), LinearizedBasis<HermiteFunction>(HermiteFunction(), lb2, ub2)); break;
    case 5: { typedef MultivariateExpansionWorker<ProbabilistHermite, HS> W; workerCase(g, W(s.fixed, ProbabilistHermite(n1)), W(FixedMultiIndexSet<HS>(1, 1u), ProbabilistHermite(n2)), s); break; }
    case 6: { typedef MultivariateExpansionWorker<LinearizedBasis<PhysicistHermite>, HS> W; typedef LinearizedBasis<PhysicistHermite> B; workerCase(g, W(s.fixed, B(PhysicistHermite(n1), lb, ub)), W(FixedMultiIndexSet<HS>(2, 1u), B(PhysicistHermite(n2), lb2, ub2)), s); break; }
    case 7: { typedef MultivariateExpansionWorker<HermiteFunction, HS> W; workerCase(g, W(s.fixed, HermiteFunction()), W(FixedMultiIndexSet<HS>(3, 0u), HermiteFunction()), s); break; }
    default: {
      double w = g.real(0.5, 6), a = g.real(-3, 0), b = g.real(0, 3); int dim = g.range(1, 3); auto f = [&](double x, double* v) { for (int i = 0; i < dim; ++i) v[i] = std::sin(w * x + i) + i; };
      unsigned ms = g.range(3, 20), mn = g.range(0, 2), pts = g.range(1, 12), lev = g.range(1, 3); double at = std::pow(10.0, g.range(-9, -2)), rt = std::pow(10.0, g.range(-9, -2)); auto et = QuadError::Type(g.below(4)); int kind = g.below(3); bool internal = g.coin();
      std::vector<double> work(4096, 0), r1(dim), r2(dim);
      auto go = [&](auto q, auto other) { std::string by = save(q); load(by, other); g.check(q.WorkspaceSize() == other.WorkspaceSize(), "quadrature", "workspace size"); if (internal) { q.Integrate(f, a, b, r1.data()); other.Integrate(f, a, b, r2.data()); } else { q.Integrate(work.data(), f, a, b, r1.data()); other.Integrate(work.data(), f, a, b, r2.data()); } truncated(g, by, [&](std::string const& t) { auto z = other; load(t, z); }, "quadrature"); };
      if (kind == 0) { typedef ClenshawCurtisQuadrature<HS> Q; if (internal) go(Q(pts, dim), Q(3, 1)); else go(Q(pts, dim, nullptr), Q(3, 1, nullptr)); }
      else if (kind == 1) { typedef AdaptiveSimpson<HS> Q; if (internal) go(Q(ms, dim, at, rt, et, mn), Q(4, 1, 1e-1, 1e-1, QuadError::First)); else go(Q(ms, dim, nullptr, at, rt, et, mn), Q(4, 1, nullptr, 1e-1, 1e-1, QuadError::First)); }
      else { typedef AdaptiveClenshawCurtis<HS> Q; if (internal) go(Q(lev, ms, dim, at, rt, et, mn), Q(1, 4, 1, 1e-1, 1e-1, QuadError::First)); else go(Q(lev, ms, dim, nullptr, at, rt, et, mn), Q(1, 4, 1, nullptr, 1e-1, 1e-1, QuadError::First)); }
      for (int i = 0; i < dim; ++i) g.check(r1[i] == r2[i], "quadrature", "integral differs after loading: " + num(r1[i]) + " vs " + num(r2[i]));
      g.nontrivial();
    }
  }
}
