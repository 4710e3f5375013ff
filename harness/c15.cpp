// C15: fixed multi-index sets in every representation, and MultiIndex as its vector of orders.
#include "mp.hpp"
#include "mset.hpp"
#include "MParT/MultiIndices/FixedMultiIndexSet.h"
using namespace mpart;
using pbt::G;
using ms::V; using ms::str;
typedef Kokkos::View<unsigned int*, Kokkos::HostSpace> UV;
typedef FixedMultiIndexSet<Kokkos::HostSpace> FS;

namespace {
std::vector<V> drawTerms(G& g, unsigned len) {
  std::set<V> seen; std::vector<V> t; int n = g.chance(1, 15) ? 0 : g.range(1, 14); unsigned hi = g.pick<unsigned>({2, 3, 6, 20, 300});
  for (int i = 0; i < n; ++i) { V v = ms::drawMulti(g, len, hi); if (seen.insert(v).second) t.push_back(v); }
  return t;
}
template <class F> void rejected(G& g, std::string const& tag, F f) { bool t = false; try { f(); } catch (std::exception const&) { t = true; } g.check(t, tag + ".notRejected", "no exception"); }

void verifyFixed(G& g, FS const& f, std::vector<V> const& t, unsigned len, std::string const& c, bool shuffled = false) {
  g.check(f.Size() == t.size(), "Size", c + " got " + std::to_string(f.Size()) + " want " + std::to_string(t.size()));
  g.check(f.Length() == len, "Length", c);
  V mx(len, 0); for (auto& v : t) for (unsigned d = 0; d < len; ++d) mx[d] = std::max(mx[d], v[d]);
  auto md = f.MaxDegrees(); g.check(md.extent(0) == len, "MaxDegrees.size", c);
  for (unsigned d = 0; d < len; ++d) g.check(md(d) == mx[d], "MaxDegrees", c + " dim " + std::to_string(d) + " got " + std::to_string(md(d)) + " want " + std::to_string(mx[d]));
  for (size_t i = 0; i < t.size(); ++i) {
    g.check(f.IndexToMulti(i) == t[i], "IndexToMulti", c + " " + std::to_string(i) + " got " + str(f.IndexToMulti(i)) + " want " + str(t[i]));
    g.check(f.MultiToIndex(t[i]) == int(i), "MultiToIndex", c + " " + str(t[i]) + " got " + std::to_string(f.MultiToIndex(t[i])));
    // structure: entries of the term, explicit zeros allowed only in the dense form
    g.check(f.nzStarts(i) <= f.nzStarts(i + 1) && f.nzStarts(i + 1) <= f.nzOrders.extent(0) && f.nzOrders.extent(0) == f.nzDims.extent(0), "nzStarts", c);
    V v(len, 0); unsigned prev = 0;
    for (unsigned j = f.nzStarts(i); j < f.nzStarts(i + 1); ++j) { g.check(f.nzDims(j) < len && v[f.nzDims(j)] == 0, "nzDims", c); g.check(shuffled || j == f.nzStarts(i) || f.nzDims(j) > prev, "nzDims.sorted", c); prev = f.nzDims(j); v[f.nzDims(j)] = f.nzOrders(j); }
    g.check(v == t[i], "nzOrders", c + " term " + std::to_string(i) + " " + str(v) + " want " + str(t[i]));
  }
  if (len) g.check(f.nzStarts.extent(0) == t.size() + 1 && f.nzStarts(t.size()) == f.nzOrders.extent(0), "nzStarts.end", c);
  std::set<V> in(t.begin(), t.end());
  for (int k = 0; k < 12; ++k) {
    V v; if (!t.empty() && g.chance(2, 3)) { v = g.pick(t); size_t d = g.below(len); switch (g.below(4)) { case 0: ++v[d]; break; case 1: if (v[d]) --v[d]; break; case 2: v[d] = 0; break; default: std::swap(v[d], v[g.below(len)]); } } else v = ms::drawMulti(g, len, 4);
    if (!in.count(v)) g.check(f.MultiToIndex(v) == -1, "MultiToIndex.absent", c + " " + str(v) + " got " + std::to_string(f.MultiToIndex(v)));
  }
  unsigned bad = unsigned(t.size()) + g.range(0, 3); rejected(g, "IndexToMulti.range", [&] { f.IndexToMulti(bad); });
}
}

PBT_PROPERTY(convert, 260) {
  unsigned len = g.pick<unsigned>({2, 1, 3, 4, 7, 12}); std::vector<V> t = drawTerms(g, len); g.note() << str(t) << "\n";
  if (t.size() > 1) g.nontrivial();
  MultiIndexSet s(len); for (auto& v : t) s += MultiIndex(v);
  for (bool comp : {true, false}) {
    FS f = s.Fix(comp); std::string c = comp ? "compressed" : "dense";
    verifyFixed(g, f, t, len, c);
    // back again, term by term
    MultiIndexSet b(len); for (unsigned i = 0; i < f.Size(); ++i) b += MultiIndex(f.IndexToMulti(i));
    g.check(b.Size() == s.Size(), "back.size", c); for (unsigned i = 0; i < s.Size(); ++i) g.check(b[i] == s[i], "back.order", c);
    FS dev = f.ToDevice<Kokkos::HostSpace>(); verifyFixed(g, dev, t, len, c + " ToDevice");
    FS again = b.Fix(!comp); verifyFixed(g, again, t, len, c + " and refixed");
    // a snapshot: growing the set afterwards does not reach the fixed form
    if (s.Size() < 20) { MultiIndexSet s2 = s; if (len <= 4) s2.ForciblyActivate(MultiIndex(V(len, 1))); s2 += MultiIndex(len, 7u); verifyFixed(g, f, t, len, c + " after growth"); }
    // printing lists the terms in order
    std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf()); try { f.Print(); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old);
    std::string txt = os.str(); size_t p = txt.find("Multis:"); g.check(p != std::string::npos, "Print", txt); std::istringstream in(txt.substr(p + 7));
    for (auto& v : t) for (unsigned x : v) { long q = -1; in >> q; g.check(q == long(x), "Print", txt); }
  }
}

PBT_PROPERTY(direct, 220) {
  unsigned len = g.pick<unsigned>({2, 1, 3, 4, 7, 12}); std::vector<V> t = drawTerms(g, len); g.note() << str(t) << "\n";
  if (t.size() > 1) g.nontrivial();
  UV ord("o", len * t.size()); for (size_t i = 0; i < t.size(); ++i) for (unsigned d = 0; d < len; ++d) ord(i * len + d) = t[i][d];
  verifyFixed(g, FS(len, ord), t, len, "dense from array");
  bool sh = g.coin(); std::vector<unsigned> dims, ords, st{0};
  for (auto& v : t) { std::vector<unsigned> ds; for (unsigned d = 0; d < len; ++d) if (v[d]) ds.push_back(d); if (sh) for (size_t i = ds.size(); i > 1; --i) std::swap(ds[i - 1], ds[g.below(i)]); for (unsigned d : ds) { dims.push_back(d); ords.push_back(v[d]); } st.push_back(dims.size()); }
  UV a("a", st.size()), b("b", dims.size()), c("c", ords.size()); for (size_t i = 0; i < st.size(); ++i) a(i) = st[i]; for (size_t i = 0; i < dims.size(); ++i) { b(i) = dims[i]; c(i) = ords[i]; }
  verifyFixed(g, FS(len, a, b, c), t, len, "compressed from arrays", sh);
}

PBT_PROPERTY(totalOrder, 60) {
  unsigned len = g.range(1, 6), p = g.range(0, len <= 2 ? 14 : len <= 4 ? 6 : 4); g.note() << "length " << len << " order " << p << "\n"; g.nontrivial();
  FS f(len, p); std::vector<V> t; std::set<V> got; for (unsigned i = 0; i < f.Size(); ++i) { t.push_back(f.IndexToMulti(i)); got.insert(t.back()); g.check(ms::sum(t.back()) <= p, "order", str(t.back())); }
  double want = 1; for (unsigned i = 1; i <= len; ++i) want = want * (p + i) / i;
  g.check(got.size() == t.size() && double(t.size()) == std::round(want), "count", "got " + std::to_string(t.size()) + " want " + std::to_string(want));
  verifyFixed(g, f, t, len, "total order");
  // the adaptive set's own construction gives the same terms in the same order
  MultiIndexSet s = MultiIndexSet::CreateTotalOrder(len, p); g.check(s.Size() == f.Size(), "sameAsSet", ""); for (unsigned i = 0; i < s.Size(); ++i) g.check(s[i].Vector() == t[i], "sameAsSet", str(t[i]));
}

PBT_PROPERTY(multiIndex, 700) {
  unsigned len = g.pick<unsigned>({2, 1, 3, 4, 6, 9}); V v = ms::drawMulti(g, len, g.pick<unsigned>({3, 1, 9, 100000})); MultiIndex m;
  g.nontrivial();
  switch (g.below(5)) {
    case 0: m = MultiIndex(v); break;
    case 1: m = MultiIndex(v.data(), len); break;
    case 2: { Eigen::RowVectorXi e(len); for (unsigned i = 0; i < len; ++i) e(i) = int(v[i]); m = MultiIndex(e); break; }
    case 3: { unsigned c = g.range(0, 4); v.assign(len, c); m = MultiIndex(len, c); break; }
    default: v = V{v[0], v[len - 1], v[len / 2]}; m = MultiIndex{v[0], v[1], v[2]}; len = 3; break;
  }
  auto same = [&](MultiIndex const& q, V const& w, std::string const& c) {
    g.check(q.Length() == w.size(), "Length", c); g.check(q.Vector() == w, "Vector", c + " got " + str(q.Vector()) + " want " + str(w));
    unsigned mx = 0; for (unsigned x : w) mx = std::max(mx, x);
    g.check(q.Sum() == ms::sum(w), "Sum", c + str(w)); g.check(q.Max() == mx, "Max", c + str(w)); g.check(q.NumNz() == ms::nnz(w), "NumNz", c + str(w));
    for (unsigned i = 0; i < w.size(); ++i) g.check(q.Get(i) == w[i], "Get", c + str(w));
    std::ostringstream e; for (size_t i = 0; i < w.size(); ++i) e << (i ? " " : "") << w[i];
    std::ostringstream o; o << q; g.check(q.String() == e.str() && o.str() == e.str(), "String", q.String() + " want " + e.str());
    unsigned bad = unsigned(w.size()) + g.range(0, 2); rejected(g, "Get", [&] { q.Get(bad); });
  };
  g.note() << str(v); same(m, v, "constructed ");
  int n = g.range(0, 8);
  for (int k = 0; k < n; ++k) {
    unsigned i = g.range(0, len - 1), x = g.chance(1, 3) ? 0 : g.range(0, 9); g.note() << " Set(" << i << "," << x << ")";
    MultiIndex before = m; bool had = v[i] > 0; bool r = m.Set(i, x); v[i] = x;
    g.check(r == had, "Set.returned", "index " + std::to_string(i) + " said " + std::to_string(r)); same(m, v, "after Set ");
    if (g.chance(1, 4)) { rejected(g, "Set", [&] { m.Set(len + g.range(0, 2), x); }); same(m, v, "after rejected Set "); }
    (void)before;
  }
  // comparisons with a related or unrelated one
  V w = v; int kind = int(g.below(5));
  if (kind == 0) { w = ms::drawMulti(g, len, 4); } else if (kind == 1 && len > 1) std::swap(w[g.below(len)], w[g.below(len)]);
  else if (kind == 2) { w.resize(g.range(1, int(len) + 2), 0); } else if (kind == 3 && len > 1) { size_t a = g.below(len), b = g.below(len); if (w[a] && a != b) { --w[a]; ++w[b]; } }
  g.note() << " vs " << str(w) << "\n";
  MultiIndex q(w); std::string c = str(v) + " vs " + str(w); bool lt = ms::less(v, w), gt = ms::less(w, v), eq = v == w;
  g.check((m == q) == eq && (q == m) == eq, "==", c); g.check((m != q) == !eq, "!=", c);
  g.check((m < q) == lt, "<", c); g.check((m > q) == gt, ">", c); g.check((m <= q) == !gt, "<=", c); g.check((m >= q) == !lt, ">=", c);
  if (v.size() > w.size()) rejected(g, "AnyBounded", [&] { m.AnyBounded(q); });
  else { bool b = false; for (size_t i = 0; i < v.size(); ++i) b |= v[i] >= w[i]; g.check(m.AnyBounded(q) == b, "AnyBounded", c); }
  MultiIndex cp = m; cp.Set(0, v[0] + 1); same(m, v, "after changing a copy ");
}
PBT_PROPERTY(large, 6) {
  // terms, dimensions and orders beyond what a byte or a short can hold
  unsigned len = g.pick<unsigned>({8, 20, 270}); int n = len > 100 ? g.range(5, 12) : len > 10 ? g.range(60, 120) : g.range(257, 300); unsigned hi = g.pick<unsigned>({3, 300, 70000, 3000000}); bool total = g.chance(1, 4);
  uint64_t r = g.below(1u << 30) * 2 + 1; auto rnd = [&](unsigned m) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return unsigned((r >> 11) % m); };
  g.nontrivial();
  if (total) { unsigned l = g.range(7, 10), p = l > 7 ? 2 : 3; g.note() << "total order " << p << " in " << l; FS f(l, p); std::vector<V> t; std::set<V> got; double want = 1; for (unsigned i = 1; i <= l; ++i) want = want * (p + i) / i;
    for (unsigned i = 0; i < f.Size(); ++i) { t.push_back(f.IndexToMulti(i)); got.insert(t.back()); g.check(ms::sum(t.back()) <= p, "order", str(t.back())); }
    g.check(got.size() == t.size() && double(t.size()) == std::round(want), "count", "got " + std::to_string(t.size())); verifyFixed(g, f, t, l, "total order"); return; }
  std::set<V> seen; std::vector<V> t; for (int i = 0; i < n; ++i) { V v(len, 0); int k = int(rnd(4)); for (int q = 0; q < k; ++q) v[rnd(len)] = rnd(hi + 1); if (seen.insert(v).second) t.push_back(v); }
  g.note() << t.size() << " terms of length " << len << " up to order " << hi;
  MultiIndexSet s(len); for (auto& v : t) s += MultiIndex(v);
  g.check(s.Size() == t.size(), "set.size", std::to_string(s.Size())); for (size_t i = 0; i < t.size(); ++i) { g.check(s[i].Vector() == t[i], "set.order", str(t[i])); g.check(s.MultiToIndex(MultiIndex(t[i])) == int(i), "set.MultiToIndex", str(t[i])); }
  bool comp = g.coin(); verifyFixed(g, s.Fix(comp), t, len, comp ? "compressed" : "dense");
}
