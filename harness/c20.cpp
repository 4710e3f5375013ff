// C20: coefficient ownership over histories. Oracle: a model in which every map is bound to a range of some array.
#include "ops.hpp"
using namespace mg;
struct Store { std::vector<double> v; double* caller = nullptr; };  // caller: memory outside the library that must show the same numbers
struct Bind { std::shared_ptr<Store> s; int off = 0; double& at(int i) const { return s->v[off + i]; } };
struct M { Node* n; Bind b; std::vector<int> kids; int parent; std::string path; };
struct Sys {
  std::vector<M> m;
  int add(Node& n, int parent, std::string path) {
    int id = int(m.size()); m.push_back({&n, {}, {}, parent, path});
    for (size_t i = 0; i < n.kids.size(); ++i) { int k = add(n.kids[i], id, path + "." + std::to_string(i)); m[id].kids.push_back(k); }
    return id;
  }
  void bind(int id, Bind b) { m[id].b = b; int off = b.off; for (int k : m[id].kids) { bind(k, {b.s, off}); off += m[k].n->nc; } }
  VecX values(int id) const { VecX v(m[id].n->nc); for (int i = 0; i < v.size(); ++i) v(i) = m[id].b.at(i); return v; }
};
static bool contDeep(Node const& n) { bool c = true; n.visit([&](Node const& k) { if (k.kind == "component" && !k.opts.contDeriv) c = false; }); return c; }
static void verify(G& g, Sys& s, std::string const& after) {
  for (auto& e : s.m) {
    if (e.n->nc == 0) { g.check(e.n->map->CheckCoefficients(), "no coefficients", e.path + " has no coefficients but reports that they are missing after " + after); continue; }
    auto& map = *e.n->map; std::string at = e.n->kind + " " + e.path + " after " + after;
    g.check(map.CheckCoefficients() == bool(e.b.s), "set or not", at + ": CheckCoefficients is " + std::to_string(map.CheckCoefficients()));
    Mat x = drawPts(g, e.n->din, 2, 1.5);
    if (!e.b.s) {
      bool t = false; try { map.Evaluate(x); } catch (std::runtime_error const&) { t = true; } g.check(t, "set or not", at + ": evaluates without coefficients"); continue;
    }
    auto v = static_cast<CMB const&>(map).Coeffs(); int id = int(&e - &s.m[0]); VecX want = s.values(id);
    bool eq = long(v.extent(0)) == e.n->nc; for (int i = 0; eq && i < e.n->nc; ++i) eq = v(i) == want(i);
    if (!eq) { std::string got; for (size_t i = 0; i < v.extent(0); ++i) got += num(v(i)) + " "; g.fail("accessor", at + ": Coeffs() is [" + got + "], the history gives " + str(want)); }
    auto cm = map.CoeffMap(); bool eq2 = cm.size() == e.n->nc; for (int i = 0; eq2 && i < e.n->nc; ++i) eq2 = cm(i) == want(i);
    g.check(eq2, "accessor", at + ": CoeffMap() is " + str(VecX(cm)) + ", the history gives " + str(want));
    if (e.b.s->caller) { bool same = true; for (int i = 0; i < e.n->nc; ++i) same &= e.b.s->caller[e.b.off + i] == want(i); g.check(same, "wrapped memory", at + ": the wrapped array does not hold the map's coefficients"); }
    LV lc = lv(want); bool ld_ = contDeep(*e.n); VecX L; Mat y;
    y = map.Evaluate(x); if (ld_) L = map.LogDeterminant(x);
    for (int j = 0; j < 2; ++j) {
      LV p = col(x, j); LV r = e.n->refEval(p, lc.data()); ld md = e.n->minDiag(p, lc.data());
      bool tame = true; for (auto q : r) tame &= std::fabs(q) < 1e4L; if (!tame || !(md > 1e-6L)) { g.label("untame point skipped"); continue; }
      for (int i = 0; i < e.n->dout; ++i) g.close("evaluates with", y(i, j), double(r[i]), 2e-6 * (1 + std::fabs(double(r[i]))), at + " coefficients " + str(want) + " x=" + str(p) + " output " + std::to_string(i));
      if (ld_) { ld want_ld = e.n->refLogDet(p, lc.data()); g.close("log-determinant with", L(j), double(want_ld), 1e-5 * (1 + std::fabs(double(want_ld))), at + " x=" + str(p)); }
    }
  }
}
static void history(G& g, Node& root) {
  Sys s; s.add(root, -1, "root");
  // initial state as the constructors leave it
  for (int id = 0; id < int(s.m.size()); ++id) {
    auto& e = s.m[id]; if (e.n->nc == 0) continue;
    if (e.parent >= 0 && s.m[e.parent].b.s) continue;  // bound through the parent
    if (e.n->map->CheckCoefficients()) { auto st = std::make_shared<Store>(); auto v = static_cast<CMB const&>(*e.n->map).Coeffs(); for (int i = 0; i < e.n->nc; ++i) st->v.push_back(v(i)); s.bind(id, {st, 0}); }
  }
  std::vector<int> live; for (int i = 0; i < int(s.m.size()); ++i) if (s.m[i].n->nc) live.push_back(i);
  if (live.empty()) g.discard("no coefficients anywhere");
  std::vector<Kokkos::View<double*, HS>> keepK; std::vector<std::shared_ptr<std::vector<double>>> keepV; std::vector<std::shared_ptr<VecX>> keepE;
  std::vector<std::pair<Kokkos::View<double*, HS>, std::shared_ptr<Store>>> old;  // views taken before a rebind
  if (g.coin()) verify(g, s, "construction");
  int steps = g.range(2, 8), changes = 0; bool deep = false;
  auto draw = [&](Node const& n) { std::vector<double> v; drawCoeffs(g, n, v); return v; };
  for (int t = 0; t < steps; ++t) {
    int id = live[g.coin() ? 0 : g.below(live.size())]; if (live[0] != 0) id = live[g.below(live.size())];
    auto& e = s.m[id]; auto& map = *e.n->map; int n = e.n->nc; std::string what;
    int op = int(g.below(9));
    if (op >= 6 && op <= 7 && !e.b.s) op = 0;
    if (op >= 3 && op <= 4 && id != 0) op = 1;
    if (op <= 2) {  // set from a view, an Eigen vector or the map's own coefficients
      std::vector<double> v = draw(*e.n); bool self = op == 2 && e.b.s && g.coin();
      if (!e.b.s) s.bind(id, {std::make_shared<Store>(Store{std::vector<double>(n), nullptr}), 0});
      if (self) { auto own = static_cast<CMB const&>(map).Coeffs(); map.SetCoeffs(own); what = "setting " + e.path + " to its own coefficients"; }
      else if (op == 0) { Kokkos::View<double*, HS> k("c", n + 4); auto sub = Kokkos::subview(k, std::make_pair(2, 2 + n)); for (int i = 0; i < n; ++i) sub(i) = v[i]; Kokkos::View<const double*, HS> ck(sub); map.SetCoeffs(ck); for (int i = 0; i < n + 4; ++i) k(i) = 1e7 + i; what = "SetCoeffs(view) on " + e.path; }
      else { VecX w = Eigen::Map<VecX>(v.data(), n); map.SetCoeffs(Eigen::Ref<VecX>(w)); w.setConstant(1e7); what = "SetCoeffs(vector) on " + e.path; }
      if (!self) for (int i = 0; i < n; ++i) s.m[id].b.at(i) = v[i];
      // storage is reused, so wrapped memory receives the numbers as well
      ++changes; deep |= id != 0;
    } else if (op <= 4) {  // wrap the caller's memory (outermost map)
      std::vector<double> v = draw(*e.n); auto st = std::make_shared<Store>(); st->v = v;
      if (e.b.s) { old.emplace_back(Kokkos::View<double*, HS>(), e.b.s); auto& ov = e.n->map->Coeffs(); old.back().first = ov; }
      int way = int(g.below(4));
      if (way == 0) { Kokkos::View<double*, HS> k("w", n + 5); auto sub = Kokkos::subview(k, std::make_pair(1, 1 + n)); for (int i = 0; i < n; ++i) sub(i) = v[i]; keepK.push_back(k); st->caller = k.data() + 1; Kokkos::View<double*, HS> w(sub); map.WrapCoeffs(w); }
      else if (way == 1) { auto p = std::make_shared<std::vector<double>>(v); keepV.push_back(p); st->caller = p->data(); Kokkos::View<double*, HS> w(p->data(), n); map.WrapCoeffs(w); }
      else if (way == 2) { auto p = std::make_shared<VecX>(Eigen::Map<VecX>(v.data(), n)); keepE.push_back(p); st->caller = p->data(); map.WrapCoeffs(Eigen::Ref<VecX>(*p)); }
      else { Kokkos::View<double*, HS> k("w", n); for (int i = 0; i < n; ++i) k(i) = v[i]; map.WrapCoeffs(k); }  // the caller's handle goes away
      what = "WrapCoeffs on the outermost map (way " + std::to_string(way) + ")"; s.bind(0, {st, 0}); ++changes;
    } else if (op == 5) {  // edit through the caller's memory
      if (!s.m[0].b.s || !s.m[0].b.s->caller) continue;
      int i = int(g.below(root.nc)); double q = draw(root)[i]; s.m[0].b.s->caller[i] = q; s.m[0].b.at(i) = q; what = "editing entry " + std::to_string(i) + " of the wrapped array"; ++changes;
    } else if (op <= 7) {  // edit through an accessor of any map
      int i = int(g.below(n)); double q = draw(*e.n)[i];
      if (op == 6) map.Coeffs()(i) = q; else map.CoeffMap()(i) = q;
      e.b.at(i) = q; what = "editing entry " + std::to_string(i) + " through " + (op == 6 ? "Coeffs()" : "CoeffMap()") + " of " + e.path; ++changes; deep |= id != 0;
    } else {  // rejected calls and stale views leave everything as it is
      if (!old.empty() && g.coin()) {
        auto& o = old[g.below(old.size())];
        if (o.second == s.m[0].b.s) continue;
        if (o.first.extent(0)) { o.first(g.below(o.first.extent(0))) += 0.125; what = "editing memory the map used before it wrapped another array"; }
      } else {
        int bad = g.coin() ? n + g.range(1, 3) : int(g.below(n)); Kokkos::View<double*, HS> k("bad", bad); bool th = false;
        try { if (g.coin() || id != 0) { Kokkos::View<const double*, HS> ck(k); map.SetCoeffs(ck); } else map.WrapCoeffs(k); } catch (std::invalid_argument const&) { th = true; }
        g.check(th, "wrong length", "a vector of " + std::to_string(bad) + " instead of " + std::to_string(n) + " coefficients was accepted by " + e.path); what = "a rejected update of " + e.path;
      }
    }
    g.note() << " | " << what;
    verify(g, s, what);
  }
  if (changes >= 2 && s.m.size() > 1 && root.nc) g.nontrivial();
  if (deep) g.label("updates through blocks or layers");
}
static Cfg cfgFor(G& g) { Cfg c; c.allowExp = false; c.cheap = true; c.box = 2; c.K = g.pick<double>({1, 2}); return c; }
PBT_PROPERTY(any_map, 700) {
  int dout = g.range(1, 3), din = dout + (g.coin() ? 0 : g.range(0, 2)); Cfg c = cfgFor(g);
  Node n = genMap(g, c, din, dout, 2); g.note() << n.desc; n.visit([&](Node const& k) { g.label(k.kind); });
  history(g, n);
}
PBT_PROPERTY(nested, 700) {
  Cfg c = cfgFor(g); int d = g.range(1, 3); Node n;
  switch (g.below(4)) { case 0: n = genComposed(g, c, d, 2); break; case 1: n = genSummarized(g, c, d + 1); break; default: n = genCustom(g, c, d + g.range(0, 2), d, 3); }
  g.note() << n.desc; n.visit([&](Node const& k) { g.label(k.kind); });
  history(g, n);
}
// expansions and affine functions (no parents): the same model
PBT_PROPERTY(functions, 600) {
  Cfg cfg = cfgFor(g); int dim = g.range(1, 3), out = g.range(1, 3); mpart::MapOptions o = drawOpts(g, cfg); MSetSpec ms = drawMSet(g, dim, 2);
  auto f = mpart::MapFactory::CreateExpansion<HS>(out, ms.fixed, o); ref::Expansion ex; ex.o = refOpts(o); ex.m = ms.idx; ex.dim = dim; ex.out = out;
  int n = int(f->numCoeffs); g.check(n == out * int(ms.idx.size()), "coefficient count", ""); g.note() << "expansion " << dim << "->" << out << " " << ms.desc; g.nontrivial();
  std::vector<double> v(n); bool set = f->CheckCoefficients(); if (set) { auto c = static_cast<PFB const&>(*f).Coeffs(); for (int i = 0; i < n; ++i) v[i] = c(i); }
  std::vector<double> mem(n); bool wrapped = false;
  int steps = g.range(2, 8);
  for (int t = 0; t < steps; ++t) {
    int i = int(g.below(n));
    switch (set ? g.below(5) : g.below(2)) {
      case 0: { VecX w(n); for (int k = 0; k < n; ++k) w(k) = v[k] = g.real(-1, 1); f->SetCoeffs(Eigen::Ref<VecX>(w)); w.setConstant(9e9); set = true; break; }
      case 1: { for (int k = 0; k < n; ++k) mem[k] = v[k] = g.real(-1, 1); Kokkos::View<double*, HS> w(mem.data(), n); f->WrapCoeffs(w); set = wrapped = true; break; }
      case 2: f->Coeffs()(i) = v[i] = g.real(-1, 1); break;
      case 3: f->CoeffMap()(i) = v[i] = g.real(-1, 1); break;
      default: if (wrapped) mem[i] = v[i] = g.real(-1, 1);
    }
    auto c = static_cast<PFB const&>(*f).Coeffs(); for (int k = 0; k < n; ++k) { g.check(c(k) == v[k], "accessor", "coefficient " + std::to_string(k)); if (wrapped) g.check(mem[k] == v[k], "wrapped memory", "coefficient " + std::to_string(k)); }
    Mat x = drawPts(g, dim, 2, 2), y = f->Evaluate(x); LV lc(v.begin(), v.end());
    for (int j = 0; j < 2; ++j) { LV r = ex.eval(col(x, j), lc.data()); for (int k = 0; k < out; ++k) g.close("evaluates with", y(k, j), double(r[k]), 1e-9 * (1 + std::fabs(double(r[k]))), "step " + std::to_string(t)); }
  }
}
