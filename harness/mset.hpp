// Plain mathematical model of multi-index sets: an ordered list of vectors plus a predicate.
#pragma once
#include <algorithm>
#include <map>
#include <set>
#include "pbt.hpp"
#include "MParT/MultiIndices/MultiIndexNeighborhood.h"
#include "MParT/MultiIndices/MultiIndex.h"
#include "MParT/MultiIndices/MultiIndexLimiter.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
namespace ms {
using V = std::vector<unsigned>;
typedef std::function<bool(V const&)> Pred;
inline std::string str(V const& v) { std::ostringstream s; s << "("; for (size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << v[i]; s << ")"; return s.str(); }
inline std::string str(std::vector<V> const& a) { std::string s; for (auto& v : a) s += str(v); return s; }
inline unsigned sum(V const& v) { unsigned s = 0; for (unsigned x : v) s += x; return s; }
inline unsigned nnz(V const& v) { unsigned s = 0; for (unsigned x : v) s += x > 0; return s; }
inline V plus(V v, size_t i) { ++v[i]; return v; }
inline V minus(V v, size_t i) { --v[i]; return v; }

struct Limiter { mpart::MultiIndexSet::LimiterType impl; Pred ok; std::string desc; bool closed; };  // closed: downward closed

inline Limiter none() { return {mpart::MultiIndexLimiter::None(), [](V const&) { return true; }, "None", true}; }
inline Limiter drawLimiter(pbt::G& g, unsigned len, int depth = 0) {
  namespace L = mpart::MultiIndexLimiter;
  switch (g.below(depth < 2 ? 11 : 7)) {
    case 0: return none();
    case 1: { unsigned p = g.range(0, 6); return {L::TotalOrder(p), [p](V const& v) { return sum(v) <= p; }, "TotalOrder" + std::to_string(p), true}; }
    case 2: {
      V m(len); for (auto& x : m) x = g.range(0, 5);
      if (g.coin()) { unsigned k = g.range(0, 5); m.assign(len, k); return {L::MaxDegree(k, len), [m](V const& v) { for (size_t i = 0; i < v.size(); ++i) if (v[i] > m[i]) return false; return true; }, "MaxDegree" + std::to_string(k), true}; }
      return {L::MaxDegree(m), [m](V const& v) { for (size_t i = 0; i < v.size(); ++i) if (v[i] > m[i]) return false; return true; }, "MaxDegree" + str(m), true}; }
    case 3: {
      unsigned lo = g.range(0, len), n = g.range(0, len - lo + (g.chance(1, 5) ? 3 : 0));
      return {L::Dimension(lo, n), [lo, n](V const& v) { for (size_t i = 0; i < v.size(); ++i) if ((i < lo || i >= lo + n) && v[i]) return false; return true; }, "Dimension" + std::to_string(lo) + "+" + std::to_string(n), true}; }
    case 4: {
      std::vector<double> w(len); for (auto& x : w) x = g.pick<double>({0.55, 0.95, 0.3, 0.7, 1.0, 0.0});
      double e = g.pick<double>({0.0713, 0.0137, 0.2113, 0.5077, 0.8311});
      std::ostringstream d; d << "Anisotropic(" << e << ";"; for (double x : w) d << x << " "; d << ")";
      return {L::Anisotropic(w, e), [w, e](V const& v) { long double p = 1; for (size_t i = 0; i < v.size(); ++i) for (unsigned k = 0; k < v[i]; ++k) p *= w[i]; return p > e; }, d.str(), true}; }
    case 5: { unsigned k = g.range(0, len); return {[k](mpart::MultiIndex const& m) { return m.NumNz() <= k; }, [k](V const& v) { return nnz(v) <= k; }, "interactions<=" + std::to_string(k), true}; }
    case 6: {  // arbitrary, not downward closed
      unsigned a = g.range(2, 4), b = g.range(0, 3);
      return {[a, b](mpart::MultiIndex const& m) { return m.Sum() % a != b % a || m.Sum() == 0; }, [a, b](V const& v) { return sum(v) % a != b % a || sum(v) == 0; }, "sum%" + std::to_string(a) + "!=" + std::to_string(b % a), false}; }
    default: break;
  }
  Limiter x = drawLimiter(g, len, depth + 1), y = drawLimiter(g, len, depth + 1);
  switch (g.below(4)) {
    case 0: case 1: return {L::And(x.impl, y.impl), [=](V const& v) { return x.ok(v) && y.ok(v); }, "And(" + x.desc + "," + y.desc + ")", x.closed && y.closed};
    case 2: return {L::Or(x.impl, y.impl), [=](V const& v) { return x.ok(v) || y.ok(v); }, "Or(" + x.desc + "," + y.desc + ")", x.closed && y.closed};
    default: return {L::Xor(x.impl, y.impl), [=](V const& v) { return x.ok(v) != y.ok(v); }, "Xor(" + x.desc + "," + y.desc + ")", false};
  }
}
inline V drawMulti(pbt::G& g, unsigned len, unsigned hi) {
  V v(len, 0);
  if (g.coin()) for (auto& x : v) x = g.below(hi + 1);
  else { unsigned k = g.range(0, 2); for (unsigned i = 0; i < k; ++i) v[g.below(len)] = g.below(hi + 1); }
  return v;
}
/// documented order: length, total order, maximum, lexicographic
inline bool less(V const& a, V const& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  if (sum(a) != sum(b)) return sum(a) < sum(b);
  unsigned ma = 0, mb = 0; for (unsigned x : a) ma = std::max(ma, x); for (unsigned x : b) mb = std::max(mb, x);
  if (ma != mb) return ma < mb;
  return a < b;
}

/// a neighbourhood other than the standard one: the order in one direction is halved going back and doubled (plus one) going forward
struct Halving : mpart::MultiIndexNeighborhood {
  static std::vector<V> fwd(V const& v) { std::vector<V> o; for (size_t i = 0; i < v.size(); ++i) { V w = v; if (v[i]) { w[i] = 2 * v[i]; o.push_back(w); } w[i] = 2 * v[i] + 1; o.push_back(w); } return o; }
  static V back(V v, size_t i) { v[i] /= 2; return v; }
  std::vector<mpart::MultiIndex> ForwardNeighbors(mpart::MultiIndex const& m) override { std::vector<mpart::MultiIndex> o; for (auto& w : fwd(m.Vector())) o.emplace_back(w); return o; }
  std::vector<mpart::MultiIndex> BackwardNeighbors(mpart::MultiIndex const& m) override { std::vector<mpart::MultiIndex> o; V v = m.Vector(); for (size_t i = 0; i < v.size(); ++i) if (v[i]) o.emplace_back(back(v, i)); return o; }
  bool IsForward(mpart::MultiIndex const& a, mpart::MultiIndex const& b) override { for (auto& w : fwd(a.Vector())) if (w == b.Vector()) return true; return false; }
  bool IsBackward(mpart::MultiIndex const& a, mpart::MultiIndex const& b) override { return IsForward(b, a); }
};
struct Model {
  unsigned len; Limiter lim; bool halving = false; std::vector<V> act; std::map<V, int> pos;
  Model(unsigned n, Limiter const& l) : len(n), lim(l) {}
  bool has(V const& v) const { return pos.count(v) > 0; }
  int idx(V const& v) const { auto it = pos.find(v); return it == pos.end() ? -1 : it->second; }
  void add(V const& v) { if (!has(v)) { pos[v] = int(act.size()); act.push_back(v); } }
  V prev(V const& v, size_t i) const { return halving ? Halving::back(v, i) : minus(v, i); }
  bool allBack(V const& v) const { for (size_t i = 0; i < v.size(); ++i) if (v[i] && !has(prev(v, i))) return false; return true; }
  bool anyBack(V const& v) const { for (size_t i = 0; i < v.size(); ++i) if (v[i] && has(prev(v, i))) return true; return false; }
  bool admissible(V const& v) const { return lim.ok(v) && (has(v) || allBack(v)); }
  std::vector<V> fwd(V const& v) const { std::vector<V> o; if (halving) { for (auto& w : Halving::fwd(v)) if (lim.ok(w)) o.push_back(w); return o; } for (size_t i = 0; i < v.size(); ++i) { V w = plus(v, i); if (lim.ok(w)) o.push_back(w); } return o; }
  std::vector<V> back(V const& v) const { std::vector<V> o; for (size_t i = 0; i < v.size(); ++i) if (v[i]) { V w = prev(v, i); if (lim.ok(w)) o.push_back(w); } return o; }
  /// inactive admissible forward neighbours of an active index
  std::vector<V> growth(V const& v) const { std::vector<V> o; for (auto& w : fwd(v)) if (!has(w) && allBack(w)) o.push_back(w); return o; }
  bool downward() const { for (auto& v : act) if (!allBack(v)) return false; return true; }
  V maxOrders() const { V m(len, 0); for (auto& v : act) for (unsigned i = 0; i < len; ++i) m[i] = std::max(m[i], v[i]); return m; }
  /// v and the inactive in-limiter terms reached from it through backward neighbours (stopping at active ones)
  void closure(V const& v, std::set<V>& out) const { if (has(v) || out.count(v)) return; out.insert(v); for (auto& w : back(v)) closure(w, out); }
};
}
