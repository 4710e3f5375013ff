// C14: histories of operations on MultiIndexSet against a plain mathematical model.
#include "mp.hpp"
#include "mset.hpp"
using namespace mpart;
using pbt::G;
using ms::V; using ms::Model; using ms::str;

namespace {
struct Obj { MultiIndexSet s; Model m; };
std::vector<V> vecs(std::vector<MultiIndex> const& a) { std::vector<V> o; for (auto& x : a) o.push_back(x.Vector()); return o; }
std::vector<V> sorted(std::vector<V> a) { std::sort(a.begin(), a.end()); return a; }

void same(G& g, std::string const& tag, std::vector<V> got, std::vector<V> want, std::string const& ctx) {
  got = sorted(got); want = sorted(want);
  g.check(got == want, tag, ctx + ": got " + str(got) + " want " + str(want));
}

void verify(G& g, Obj& o, std::string const& ctx, int probes) {
  MultiIndexSet& s = o.s; Model& m = o.m;
  g.check(s.Size() == m.act.size(), "size", ctx + ": Size " + std::to_string(s.Size()) + " want " + std::to_string(m.act.size()));
  g.check(s.Length() == m.len, "length", ctx);
  for (size_t i = 0; i < m.act.size(); ++i) {
    g.check(s.IndexToMulti(i).Vector() == m.act[i] && s.at(i).Vector() == m.act[i] && s[i].Vector() == m.act[i], "order", ctx + ": term " + std::to_string(i) + " is " + str(s.IndexToMulti(i).Vector()) + " want " + str(m.act[i]));
    g.check(s.MultiToIndex(MultiIndex(m.act[i])) == int(i), "MultiToIndex", ctx + ": " + str(m.act[i]));
    g.check(m.lim.ok(m.act[i]), "limiter", ctx + ": active term outside the limiter: " + str(m.act[i]));
  }
  g.check(s.MaxOrders() == m.maxOrders(), "MaxOrders", ctx + ": got " + str(s.MaxOrders()) + " want " + str(m.maxOrders()));
  // margins and frontiers
  std::set<V> margin; std::vector<V> reduced; std::vector<unsigned> fr, strict;
  for (size_t i = 0; i < m.act.size(); ++i) {
    bool grows = false, anyActive = false;
    for (auto& w : m.fwd(m.act[i])) { if (m.has(w)) anyActive = true; else { margin.insert(w); if (m.allBack(w)) grows = true; } }
    if (grows) { fr.push_back(i); if (!anyActive) strict.push_back(i); }
    g.check(s.IsExpandable(i) == grows, "IsExpandable", ctx + ": " + str(m.act[i]));
  }
  for (auto& w : margin) if (m.allBack(w)) reduced.push_back(w);
  V zero(m.len, 0);
  auto dropZero = [&](std::vector<V> a) { a.erase(std::remove(a.begin(), a.end(), zero), a.end()); return a; };  // whether an inactive (0,..,0) is listed depends on what was stored
  same(g, "Margin", vecs(s.Margin()), {margin.begin(), margin.end()}, ctx + " Margin");
  same(g, "ReducedMargin", dropZero(vecs(s.ReducedMargin())), reduced, ctx + " ReducedMargin");
  auto inOrder = [](std::vector<unsigned> a) { std::sort(a.begin(), a.end()); return a; };  // (sets: the order of the list is not promised)
  g.check(inOrder(s.Frontier()) == fr, "Frontier", ctx);
  g.check(inOrder(s.StrictFrontier()) == strict, "StrictFrontier", ctx);
  // neighbours of every (or a few) active terms
  size_t step = m.act.size() > 40 ? 7 : 1;
  for (size_t i = 0; i < m.act.size(); i += step) {
    V const& v = m.act[i]; std::string c = ctx + " of " + str(v);
    std::vector<V> fw; for (auto& w : m.fwd(v)) if (m.admissible(w)) fw.push_back(w);
    same(g, "AdmissibleForwardNeighbors", vecs(s.AdmissibleForwardNeighbors(i)), fw, c + " AdmissibleForwardNeighbors");
    unsigned na = 0; for (auto& w : m.fwd(v)) na += m.has(w);
    g.check(s.NumActiveForward(i) == na, "NumActiveForward", c);
    g.check(s.NumForward(i) == m.fwd(v).size(), "NumForward", c + ": got " + std::to_string(s.NumForward(i)) + " want " + std::to_string(m.fwd(v).size()));
    std::vector<unsigned> want; for (auto& w : m.back(v)) want.push_back(unsigned(m.idx(w)));
    for (int way = 0; way < 2; ++way) {
      std::vector<unsigned> got = way ? s.BackwardNeighbors(MultiIndex(v)) : s.BackwardNeighbors(unsigned(i));
      std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
      g.check(got == want, "BackwardNeighbors", c);
    }
  }
  // membership and admissibility of random multi-indices
  unsigned hi = 2; for (unsigned x : m.maxOrders()) hi = std::max(hi, x + 2);
  for (int k = 0; k < probes; ++k) {
    V v = (!m.act.empty() && g.coin()) ? ms::plus(g.pick(m.act), g.below(m.len)) : ms::drawMulti(g, m.len, hi);
    g.check(s.IsActive(MultiIndex(v)) == m.has(v), "IsActive", ctx + " " + str(v));
    if (!m.has(v)) g.check(s.MultiToIndex(MultiIndex(v)) == -1, "MultiToIndex", ctx + " absent " + str(v));
    if (v != zero || m.has(v)) g.check(s.IsAdmissible(MultiIndex(v)) == m.admissible(v), "IsAdmissible", ctx + " " + str(v) + " want " + std::to_string(m.admissible(v)));
  }
}

Obj drawObj(G& g, unsigned len, std::string const& nm) {
  ms::Limiter lim = g.coin() ? ms::none() : ms::drawLimiter(g, len);
  int cap = len >= 4 ? 2 : len == 3 ? 3 : 5;
  g.note() << nm << ": length " << len << " limiter " << lim.desc;
  switch (g.below(4)) {
    case 0: {
      if (g.chance(1, 3)) { g.note() << " empty, halving neighbourhood\n"; g.label("other neighbourhood"); Obj o{MultiIndexSet(len, lim.impl, std::make_shared<ms::Halving>()), Model(len, lim)}; o.m.halving = true; return o; }
      g.note() << " empty\n"; return Obj{MultiIndexSet(len, lim.impl), Model(len, lim)}; }
    case 1: case 2: {
      bool tens = g.coin(); unsigned p = g.range(0, cap - (tens && len > 2));
      g.note() << (tens ? " tensor " : " total order ") << p << "\n";
      Obj o{tens ? MultiIndexSet::CreateTensorProduct(len, p, lim.impl) : MultiIndexSet::CreateTotalOrder(len, p, lim.impl), Model(len, lim)};
      // the definition: all multi-indices in the box that satisfy the limiter; their order is the library's choice
      std::set<V> want; V v(len, 0);
      while (true) {
        if ((tens || ms::sum(v) <= p) && lim.ok(v)) want.insert(v);
        size_t i = 0; while (i < len && ++v[i] > p) v[i++] = 0;
        if (i == len) break;
      }
      std::set<V> got; for (unsigned i = 0; i < o.s.Size(); ++i) { V w = o.s.IndexToMulti(i).Vector(); got.insert(w); o.m.add(w); }
      g.check(got == want && o.s.Size() == want.size(), tens ? "CreateTensorProduct" : "CreateTotalOrder", nm + " got " + str(std::vector<V>(got.begin(), got.end())) + " want " + str(std::vector<V>(want.begin(), want.end())));
      return o; }
    default: {
      int n = g.range(1, 6); Eigen::MatrixXi mat(n, len); Model m(len, ms::none());
      for (int i = 0; i < n; ++i) { V v = ms::drawMulti(g, len, 4); for (unsigned j = 0; j < len; ++j) mat(i, j) = int(v[j]); m.add(v); }
      g.note() << " rows " << str(m.act) << " (no limiter)\n";
      return Obj{MultiIndexSet(mat), m}; }
  }
}
/// after a call that activates terms in an order the library chooses: returned indices are exactly the new positions
void adopt(G& g, Obj& o, std::set<V> const& want, std::vector<unsigned> const& ret, std::string const& ctx) {
  size_t n0 = o.m.act.size();
  g.check(o.s.Size() == n0 + want.size(), "grow.size", ctx + ": size " + std::to_string(o.s.Size()) + " want " + std::to_string(n0 + want.size()) + " adding " + str(std::vector<V>(want.begin(), want.end())));
  std::set<V> got; for (size_t i = n0; i < o.s.Size(); ++i) { V v = o.s.IndexToMulti(i).Vector(); got.insert(v); o.m.add(v); }
  g.check(got == want, "grow.terms", ctx + ": added " + str(std::vector<V>(got.begin(), got.end())) + " want " + str(std::vector<V>(want.begin(), want.end())));
  std::set<unsigned> r(ret.begin(), ret.end()), w; for (size_t i = n0; i < o.s.Size(); ++i) w.insert(i);
  g.check(r == w && ret.size() == w.size(), "grow.returned", ctx + ": returned indices are not those of the new terms");
}
template <class F> void rejected(G& g, std::string const& tag, std::string const& ctx, F f) {
  bool threw = false; try { f(); } catch (std::exception const&) { threw = true; }
  g.check(threw, tag + ".notRejected", ctx + " was not rejected");
}
const size_t CAP = 220;
}

PBT_PROPERTY(history, 420) {
  unsigned len = g.pick<unsigned>({2, 1, 3, 4, 2, 3, 5});
  std::vector<Obj> pool; pool.push_back(drawObj(g, len, "S0"));
  int steps = g.range(1, 14); bool grew = false;
  verify(g, pool[0], "start", 3);
  for (int t = 0; t < steps; ++t) {
    size_t oi = g.below(pool.size()); Obj& o = pool[oi];
    std::ostringstream cs; cs << "step " << t << " S" << oi << " "; int op = int(g.below(17)); size_t n = o.m.act.size();
    bool dc = o.m.downward(); bool keepsDc = false;
    unsigned hi = 2; for (unsigned x : o.m.maxOrders()) hi = std::max(hi, x + 2); hi = std::min(hi, 9u);
    if (n > CAP) op = 8;
    switch (op) {
      case 0: case 1: {  // append / AddActive
        V v = (n && g.coin()) ? ms::plus(g.pick(o.m.act), g.below(len)) : ms::drawMulti(g, len, hi);
        bool in = o.m.lim.ok(v);
        if (g.coin()) { cs << "AddActive" << str(v); g.note() << cs.str() << "\n"; int r = o.s.AddActive(MultiIndex(v)); if (in || o.m.has(v)) o.m.add(v); g.check(r == o.m.idx(v), "AddActive", cs.str() + " returned " + std::to_string(r)); }
        else { cs << "+=" << str(v); g.note() << cs.str() << "\n"; o.s += MultiIndex(v); if (in) o.m.add(v); }
        break; }
      case 2: {  // Activate
        V v; std::vector<V> red; for (auto& a : o.m.act) for (auto& w : o.m.growth(a)) red.push_back(w);
        if (!red.empty() && g.chance(3, 4)) v = g.pick(red); else v = ms::drawMulti(g, len, hi);
        if (v == V(len, 0) && !o.m.has(v)) break;
        cs << "Activate" << str(v); g.note() << cs.str() << "\n"; keepsDc = true;
        if (o.m.admissible(v)) { o.s.Activate(MultiIndex(v)); o.m.add(v); }
        else { g.label("rejected"); rejected(g, "Activate", cs.str(), [&] { o.s.Activate(MultiIndex(v)); }); }
        break; }
      case 3: case 4: {  // Expand(i)
        keepsDc = true;
        if (!n || g.chance(1, 12)) { unsigned bad = n + g.range(0, 3); cs << "Expand(" << bad << ")"; g.note() << cs.str() << "\n"; g.label("rejected"); rejected(g, "Expand", cs.str(), [&] { o.s.Expand(bad); }); break; }
        unsigned i = g.below(n); cs << "Expand(" << i << ")"; g.note() << cs.str() << "\n";
        auto w = o.m.growth(o.m.act[i]); std::set<V> want(w.begin(), w.end());
        auto ret = o.s.Expand(i); adopt(g, o, want, ret, cs.str()); grew |= !want.empty();
        break; }
      case 5: case 6: {  // Expand()
        keepsDc = true; cs << "Expand()"; g.note() << cs.str() << "\n";
        std::set<V> want; for (auto& a : o.m.act) for (auto& w : o.m.growth(a)) want.insert(w);
        auto ret = o.s.Expand(); adopt(g, o, want, ret, cs.str()); grew |= !want.empty();
        break; }
      case 7: {  // ForciblyExpand(i)
        keepsDc = true;
        if (!n || g.chance(1, 12)) { unsigned bad = n + g.range(0, 3); cs << "ForciblyExpand(" << bad << ")"; g.note() << cs.str() << "\n"; g.label("rejected"); rejected(g, "ForciblyExpand", cs.str(), [&] { o.s.ForciblyExpand(bad); }); break; }
        unsigned i = g.below(n); cs << "ForciblyExpand(" << i << ")"; g.note() << cs.str() << "\n";
        std::set<V> want; for (auto& w : o.m.fwd(o.m.act[i])) o.m.closure(w, want);
        auto ret = o.s.ForciblyExpand(i); adopt(g, o, want, ret, cs.str()); grew |= !want.empty();
        break; }
      case 8: {  // copy / restart
        if (pool.size() < 4 && (pool.size() < 2 || g.coin())) { cs << "copy"; g.note() << cs.str() << " -> S" << pool.size() << "\n"; Obj c = o; pool.push_back(c); }
        else { size_t j = g.below(pool.size()); cs << "= S" << j; g.note() << cs.str() << "\n"; o.s = pool[j].s; o.m = pool[j].m; }
        break; }
      case 9: case 10: {  // ForciblyActivate
        keepsDc = true; V v = ms::drawMulti(g, len, len >= 4 ? std::min(hi, 3u) : hi); cs << "ForciblyActivate" << str(v); g.note() << cs.str() << "\n";
        if (!o.m.lim.ok(v)) { g.label("rejected"); rejected(g, "ForciblyActivate", cs.str(), [&] { o.s.ForciblyActivate(MultiIndex(v)); }); break; }
        std::set<V> want; o.m.closure(v, want);
        auto ret = o.s.ForciblyActivate(MultiIndex(v)); adopt(g, o, want, ret, cs.str()); grew |= want.size() > 1;
        break; }
      case 11: case 12: {  // SetLimiter
        keepsDc = true; ms::Limiter l = ms::drawLimiter(g, len); cs << "SetLimiter " << l.desc; g.note() << cs.str() << "\n";
        bool ok = true; for (auto& a : o.m.act) ok &= l.ok(a);
        if (ok) { o.s.SetLimiter(l.impl); o.m.lim = l; g.label("limiter changed"); } else { g.label("rejected"); rejected(g, "SetLimiter", cs.str(), [&] { o.s.SetLimiter(l.impl); }); }
        break; }
      case 13: case 14: {  // union with another set
        if (pool.size() < 4 && g.coin()) pool.push_back(drawObj(g, len, "S" + std::to_string(pool.size())));
        size_t j = g.below(pool.size()); Obj& a = pool[oi]; Obj& b = pool[j]; int way = int(g.below(3));
        cs << (way == 0 ? "Union S" : way == 1 ? "+= S" : "= self + S") << j; g.note() << cs.str() << "\n";
        Model mb = b.m; unsigned added = 0;
        for (auto& v : mb.act) if (a.m.lim.ok(v) && !a.m.has(v)) ++added;
        std::set<V> want; for (auto& v : mb.act) if (a.m.lim.ok(v) && !a.m.has(v)) want.insert(v);
        MultiIndexSet rhs = b.s; std::vector<unsigned> ret; size_t n0 = a.m.act.size();
        if (way == 0) { unsigned r = a.s.Union(j == oi ? rhs : b.s); g.check(r == added, "Union.returned", cs.str() + " returned " + std::to_string(r) + " want " + std::to_string(added)); }
        else if (way == 1) a.s += rhs; else a.s = a.s + rhs;
        for (size_t i = n0; i < a.s.Size(); ++i) ret.push_back(i);
        adopt(g, a, want, ret, cs.str()); grew |= !want.empty();
        break; }
      case 15: {  // wrong length
        unsigned bl = g.coin() ? len + g.range(1, 2) : (len > 1 ? len - 1 : 3); g.label("rejected"); keepsDc = true;
        V v = ms::drawMulti(g, bl, 2); cs << "wrong length " << bl << " kind ";
        int k = int(g.below(4)); cs << k; g.note() << cs.str() << "\n";
        if (k == 0) rejected(g, "length.assign", cs.str(), [&] { MultiIndexSet x = MultiIndexSet::CreateTotalOrder(bl, 1); o.s = x; });
        else if (k == 1) rejected(g, "length.union", cs.str(), [&] { o.s.Union(MultiIndexSet::CreateTotalOrder(bl, 1)); });
        else if (k == 2) rejected(g, "length.add", cs.str(), [&] { o.s += MultiIndex(v); });
        else rejected(g, "length.addactive", cs.str(), [&] { o.s.AddActive(MultiIndex(v)); });
        break; }
      default: {  // queries that must not change anything
        V b(len); for (auto& x : b) x = g.range(0, 6); cs << "FilterBounded" << str(b); g.note() << cs.str() << "\n"; keepsDc = true;
        std::vector<bool> r = o.s.FilterBounded(MultiIndex(b)); g.check(r.size() == n, "FilterBounded.size", cs.str());
        for (size_t i = 0; i < n; ++i) { bool w = false; for (unsigned d = 0; d < len; ++d) w |= o.m.act[i][d] >= b[d]; g.check(r[i] == w, "FilterBounded", cs.str() + " at " + str(o.m.act[i])); }
        rejected(g, "IndexToMulti", cs.str(), [&] { o.s.IndexToMulti(n + 1); });
        V far(len, 40); rejected(g, "BackwardNeighbors", cs.str(), [&] { o.s.BackwardNeighbors(MultiIndex(far)); });
        std::ostringstream vis; o.s.Visualize(vis);
        if (len == 2) {  // the picture marks active terms with a, reduced-margin terms with r
          std::istringstream in(vis.str()); std::string line; V mo = o.m.maxOrders();
          for (int row = int(mo[1]) + 1; row >= 0 && std::getline(in, line); --row)
            for (unsigned c = 0; c <= mo[0] + 1; ++c) {
              V v{c, unsigned(row)}; size_t p = line.find('|') + 2 + 3 * c; char ch = p < line.size() ? line[p] : '?';
              bool isA = o.m.has(v), isR = !isA && o.m.admissible(v) && v != V(2, 0);
              if (v == V(2, 0) && !isA) continue;
              if (isA || isR || ch == 'a' || ch == 'r') g.check(ch == (isA ? 'a' : isR ? 'r' : ' '), "Visualize", cs.str() + " cell " + str(v) + " shows '" + ch + "'\n" + vis.str());
            }
        }
        break; }
    }
    for (size_t k = 0; k < pool.size(); ++k) if (k == oi || g.chance(1, 3)) verify(g, pool[k], (k == oi ? "after " : "other set S" + std::to_string(k) + " after ") + cs.str(), 4);
    if (dc && keepsDc && pool[oi].m.lim.closed) g.check(pool[oi].m.downward(), "downwardClosed", "after " + cs.str());
  }
  if (grew) g.nontrivial();
}

PBT_PROPERTY(limiters, 150) {
  unsigned len = g.range(1, 5); ms::Limiter l = ms::drawLimiter(g, len); g.note() << l.desc << "\n"; g.nontrivial();
  for (int k = 0; k < 25; ++k) { V v = ms::drawMulti(g, len, 8); bool r = l.impl(MultiIndex(v)); g.check(r == l.ok(v), "limiter", l.desc + " on " + str(v) + " says " + std::to_string(r)); }
  // arguments the limiter does not accept
  double bad = g.pick<double>({1.5, -0.25, 1.0000001, -1e-9}); std::vector<double> w(len, 0.5); w[g.below(len)] = bad;
  rejected(g, "Anisotropic.weight", "weight " + std::to_string(bad), [&] { MultiIndexLimiter::Anisotropic a(w, 0.5); });
  double be = g.pick<double>({0.0, 1.0, -0.5, 2.0}); rejected(g, "Anisotropic.epsilon", "epsilon " + std::to_string(be), [&] { MultiIndexLimiter::Anisotropic a(std::vector<double>(len, 0.5), be); });
}

PBT_PROPERTY(neighborhood, 150) {
  unsigned len = g.range(1, 5); V a = ms::drawMulti(g, len, 3), b = a; g.nontrivial();
  if (g.chance(5, 6)) { int k = g.range(0, 2); for (int i = 0; i < k; ++i) { size_t d = g.below(len); if (g.coin() || !b[d]) ++b[d]; else --b[d]; } } else b = ms::drawMulti(g, len, 3);
  g.note() << str(a) << " " << str(b) << "\n";
  DefaultNeighborhood nb; bool fw = false, bw = false;
  for (unsigned d = 0; d < len; ++d) { if (ms::plus(a, d) == b) fw = true; if (a[d] && ms::minus(a, d) == b) bw = true; }
  g.check(nb.IsForward(MultiIndex(a), MultiIndex(b)) == fw, "IsForward", str(a) + str(b));
  g.check(nb.IsBackward(MultiIndex(a), MultiIndex(b)) == bw, "IsBackward", str(a) + str(b));
  std::vector<V> f, k; for (unsigned d = 0; d < len; ++d) { f.push_back(ms::plus(a, d)); if (a[d]) k.push_back(ms::minus(a, d)); }
  same(g, "ForwardNeighbors", vecs(nb.ForwardNeighbors(MultiIndex(a))), f, str(a)); same(g, "BackwardNeighbors", vecs(nb.BackwardNeighbors(MultiIndex(a))), k, str(a));
}
