// Derivatives of Evaluate and LogDeterminant to compare with the library's. When the library's values agree with the
// reference at and around the point, the reference (long double) is differentiated; otherwise the library's own
// functions are, so that the verdict is always about the consistency of a derivative with the function it belongs to.
#pragma once
#include "ops.hpp"
namespace mg {
struct Der {
  G& g; Built& b; LV x; bool ref;
  long nOut(bool logdet) const { return logdet ? 1 : b.n.dout; }
  LV refF(bool logdet, LV const& p, LV const& c) const { return logdet ? LV{b.n.refLogDet(p, c.data())} : b.n.refEval(p, c.data()); }
  LV libF(bool logdet, LV const& p) const {
    Mat m(b.n.din, 1); for (int i = 0; i < b.n.din; ++i) m(i, 0) = double(p[i]);
    Mat r = runOp(*b.n.map, logdet ? LDET : EVAL, m, m);
    return LV(r.data(), r.data() + r.size());
  }
  void setC(LV const& c) { if (!b.n.nc) return; VecX w(c.size()); for (size_t i = 0; i < c.size(); ++i) w(i) = double(c[i]); b.n.map->SetCoeffs(Eigen::Ref<VecX>(w)); }
  Der(G& g_, Built& b_, LV const& x_, bool logdet) : g(g_), b(b_), x(x_), ref(true) {
    // agreement at the point and at two neighbours
    for (int k = 0; k < 3 && ref; ++k) {
      LV p = x; for (size_t i = 0; i < p.size(); ++i) p[i] = double(p[i] + (k == 0 ? 0.0 : k == 1 ? 0.0113 : -0.0071) * (1 + 0.3 * i));
      for (int w = 0; w <= int(logdet) && ref; ++w) {
        LV r = refF(w, p, b.lc), l = libF(w, p);
        for (size_t i = 0; i < r.size(); ++i) if (!(std::fabs(r[i] - l[i]) <= 1e-8L * (1 + std::fabs(r[i])))) ref = false;
      }
    }
    g.label(ref ? "derivative of the reference" : "derivative of the library's values");
  }
  /// derivative along input or coefficient idx; err is an estimate of its error
  void along(bool logdet, bool coeff, int idx, LV& val, LV& err) {
    // two extrapolated central differences of very different widths: they disagree visibly near a kink
    const ld hs[5] = {1, 0.5L, 0.25L, ref ? 0.01L : 0.125L, ref ? 0.005L : 0.0625L};
    ld h0 = ref ? 0.02L : 0.004L;
    LV base = coeff ? b.lc : x;
    if (coeff) h0 *= std::min<ld>(2, 0.5L + std::fabs(base[idx]));
    std::vector<LV> D(5), S(5);
    LV f0 = ref ? refF(logdet, x, b.lc) : libF(logdet, x);
    for (int i = 0; i < 5; ++i) {
      ld h = h0 * hs[i]; LV f[2];
      ld at[2] = {base[idx] + h, base[idx] - h};
      for (int s = 0; s < 2; ++s) {
        LV q = base; q[idx] = ref ? at[s] : (at[s] = double(at[s]));
        if (ref) f[s] = coeff ? refF(logdet, x, q) : refF(logdet, q, b.lc);
        else if (coeff) { setC(q); f[s] = libF(logdet, x); }
        else f[s] = libF(logdet, q);
      }
      D[i].resize(f[0].size()); S[i].resize(f[0].size());
      for (size_t k = 0; k < f[0].size(); ++k) S[i][k] = (f[0][k] - 2 * f0[k] + f[1][k]) / h;
      for (size_t k = 0; k < f[0].size(); ++k) D[i][k] = (f[0][k] - f[1][k]) / (at[0] - at[1]);
    }
    if (!ref && coeff) setC(b.lc);
    size_t n = D[0].size(); val.assign(n, 0); err.assign(n, 0);
    for (size_t k = 0; k < n; ++k) {
      ld a1 = (4 * D[1][k] - D[0][k]) / 3, a2 = (4 * D[2][k] - D[1][k]) / 3, a = (16 * a2 - a1) / 15, c = (4 * D[4][k] - D[3][k]) / 3;
      val[k] = c; err[k] = std::max(std::max(std::fabs(a - c), 0.05L * std::fabs(a1 - a2)), std::fabs(S[4][k] - S[3][k] / 2));  // (the last: a jump of the slope right here)
      if (!ref) err[k] += 1e-6L * (1 + std::fabs(val[k]));
      if (!(err[k] <= 1e30L)) err[k] = 1e30L;
    }
  }
};
/// is an estimated derivative good enough to judge with? (kinks of linearised bases make it poor)
inline bool usable(G& g, ld err, ld scale) { if (err <= 5e-6L * (1 + scale)) return true; g.label("kink or poor estimate, entry skipped"); return false; }
/// indices to look at: all of them, or a random selection
inline std::vector<int> pickIdx(G& g, int n, int most) {
  std::vector<int> v; if (n <= most) { for (int i = 0; i < n; ++i) v.push_back(i); return v; }
  std::set<int> s{0, n - 1}; int at = int(g.below(n)), step = 1 + int(g.below(n - 1));
  for (int t = 0; int(s.size()) < most && t < 4 * most; ++t) { s.insert(at); at = (at + step) % n; }
  return std::vector<int>(s.begin(), s.end());
}
inline int drawWay(G& g) { return int(g.below(NWAYS)); }
}  // namespace mg
