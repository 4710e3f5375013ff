// C27: conversions between Eigen, Kokkos, std::vector and raw memory.
#include "mp.hpp"
#include "MParT/Utilities/ArrayConversions.h"
using namespace mpart;
using pbt::G;
typedef Kokkos::HostSpace HS;

namespace {
const double MARK = -7.25e7;
template <class T> T value(G& g, long k) { return T(g.chance(1, 8) ? T(0) : T(g.range(0, 200000)) + T(k % 7) * T(0.5)); }
template <class T> struct MarkOf { static T get() { return T(-72500000); } };
template <> struct MarkOf<unsigned> { static unsigned get() { return 4000000001u; } };
long dim(G& g) { return g.chance(1, 15) ? 0 : g.chance(1, 10) ? g.range(8, 40) : g.range(1, 6); }

/// r x c entries at off + i*s0 + j*s1 of a marked buffer
template <class T> struct Block {
  long r, c, off, s0, s1; std::vector<T> mem, want;
  Block(G& g, long r_, long c_, long o, long a, long b) : r(r_), c(c_), off(o), s0(a), s1(b) {
    long n = off + (r && c ? (r - 1) * s0 + (c - 1) * s1 + 1 : 0) + 3; mem.assign(n, MarkOf<T>::get()); want.resize(r * c);
    for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) mem[at(i, j)] = want[i * c + j] = value<T>(g, i + j);
  }
  long at(long i, long j) const { return off + i * s0 + j * s1; }
  /// every entry as expected, everything else still marked
  void intact(G& g, std::string const& tag) {
    std::vector<char> used(mem.size(), 0);
    for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) { g.check(mem[at(i, j)] == want[i * c + j], tag + " memory", "entry (" + std::to_string(i) + "," + std::to_string(j) + ") is not what was written"); used[at(i, j)] = 1; }
    for (size_t k = 0; k < mem.size(); ++k) if (!used[k]) g.check(mem[k] == MarkOf<T>::get(), tag + " outside", "memory outside the array was written");
  }
};
template <class V> long rows(V const& v, std::true_type) { return v.rows(); }
template <class V> long rowsK(V const& v) { return v.extent(0); }
template <class V> long colsK(V const& v) { return v.extent(1); }

template <class B, class F> void same(G& g, B const& b, long r, long c, F get, std::string const& tag) {
  g.check(r == b.r && c == b.c, tag + " shape", "got " + std::to_string(r) + "x" + std::to_string(c) + ", want " + std::to_string(b.r) + "x" + std::to_string(b.c));
  for (long i = 0; i < b.r; ++i) for (long j = 0; j < b.c; ++j) g.check(get(i, j) == b.want[i * b.c + j], tag + " entries", "entry (" + std::to_string(i) + "," + std::to_string(j) + ") got " + std::to_string(get(i, j)) + " want " + std::to_string(b.want[i * b.c + j]));
}
/// a writable view: reads the entries, is written through, and sees what is written to the memory
template <class B, class V> void aliasing(G& g, B& b, V v, long r, long c, std::string const& tag) {
  same(g, b, r, c, [&](long i, long j) { return v(i, j); }, tag);
  if (b.r && b.c) {
    long i = g.below(b.r), j = g.below(b.c); v(i, j) = b.want[i * b.c + j] = value<typename std::decay<decltype(b.want[0])>::type>(g, 3); b.intact(g, tag + " written through");
    i = g.below(b.r); j = g.below(b.c); b.mem[b.at(i, j)] = b.want[i * b.c + j] = value<typename std::decay<decltype(b.want[0])>::type>(g, 4);
    same(g, b, r, c, [&](long i, long j) { return v(i, j); }, tag + " after a change of the memory");
  }
  b.intact(g, tag);
}
template <class B, class V> void viewing(G& g, B& b, V const& v, long r, long c, std::string const& tag) {
  same(g, b, r, c, [&](long i, long j) { return v(i, j); }, tag);
  if (b.r && b.c) { long i = g.below(b.r), j = g.below(b.c); b.mem[b.at(i, j)] = b.want[i * b.c + j] = value<typename std::decay<decltype(b.want[0])>::type>(g, 4); same(g, b, r, c, [&](long i, long j) { return v(i, j); }, tag + " after a change of the memory"); }
  b.intact(g, tag);
}
/// a copy: keeps its entries when the source changes, and changing it does not reach the source
template <class B, class V> void copied(G& g, B& b, V v, long r, long c, std::string const& tag) {
  same(g, b, r, c, [&](long i, long j) { return v(i, j); }, tag);
  if (b.r && b.c) {
    long i = g.below(b.r), j = g.below(b.c); auto old = b.want; auto x = old[i * b.c + j]; b.mem[b.at(i, j)] = b.want[i * b.c + j] = x + 1;
    g.check(v(i, j) == x, tag + " copy", "the copy changed with its source"); v(i, j) = x + 2; b.intact(g, tag + " copy");
  }
  b.intact(g, tag);
}
std::string what(std::string const& s, long r, long c, long o, long a, long b) { return s + " " + std::to_string(r) + "x" + std::to_string(c) + " offset " + std::to_string(o) + " strides " + std::to_string(a) + "," + std::to_string(b) + "\n"; }

template <class T> void pointers(G& g, const char* tn) {
  long r = dim(g), c = dim(g); int kind = int(g.below(6)); if (r * c > 1) g.nontrivial();
  std::string t(tn);
  switch (kind) {
    case 0: { Block<T> b(g, r, c, 0, 1, std::max<long>(r, 1)); g.note() << what(t + " pointer, column major", r, c, 0, 1, r); auto v = ToKokkos<T>(b.mem.data(), r, c); aliasing(g, b, v, rowsK(v), colsK(v), "ToKokkos(ptr,rows,cols)"); auto w = ToConstKokkos<T>(b.mem.data(), r, c); viewing(g, b, w, rowsK(w), colsK(w), "ToConstKokkos(ptr,rows,cols)"); break; }
    case 1: { Block<T> b(g, r, c, 0, std::max<long>(c, 1), 1); g.note() << what(t + " pointer, row major", r, c, 0, c, 1); auto v = ToKokkos<T, Kokkos::LayoutRight>(b.mem.data(), r, c); aliasing(g, b, v, rowsK(v), colsK(v), "ToKokkos<LayoutRight>"); auto w = ToConstKokkos<T, Kokkos::LayoutRight>(b.mem.data(), r, c); viewing(g, b, w, rowsK(w), colsK(w), "ToConstKokkos<LayoutRight>"); break; }
    case 2: { Block<T> b(g, r, 1, 0, 1, 1); g.note() << what(t + " pointer", r, 1, 0, 1, 1); auto v = ToKokkos<T>(b.mem.data(), r); struct W { decltype(v) v; T& operator()(long i, long) const { return v(i); } } a{v}; aliasing(g, b, a, v.extent(0), 1, "ToKokkos(ptr,dim)"); auto w = ToConstKokkos<T>(b.mem.data(), r); struct CW { decltype(w) v; T const& operator()(long i, long) const { return v(i); } } cw{w}; viewing(g, b, cw, w.extent(0), 1, "ToConstKokkos(ptr,dim)"); break; }
    case 3: { // shape and stride tuples, as used for tensors
      bool rowMajor = g.coin(); long in = g.pick<long>({1, 1, 2, 3}), o = g.below(4), s0 = rowMajor ? in * std::max<long>(c, 1) + g.below(3) : in, s1 = rowMajor ? in : in * std::max<long>(r, 1) + g.below(3);
      Block<T> b(g, r, c, o, s0, s1); g.note() << what(t + " tuple", r, c, o, s0, s1);
      auto v = ToKokkos<T>(std::make_tuple(long(b.mem.data() + o), std::make_tuple(int(r), int(c)), std::make_tuple(int(s0), int(s1)))); aliasing(g, b, v, rowsK(v), colsK(v), "ToKokkos(2d tuple)"); break; }
    case 4: { long s = g.pick<long>({1, 1, 2, 5}), o = g.below(4); Block<T> b(g, r, 1, o, s, 1); g.note() << what(t + " tuple", r, 1, o, s, 1); auto v = ToKokkos<T>(std::make_tuple(long(b.mem.data() + o), int(r), int(s))); struct W { decltype(v) v; T& operator()(long i, long) const { return v(i); } } a{v}; aliasing(g, b, a, v.extent(0), 1, "ToKokkos(1d tuple)"); break; }
    default: { // std::vector
      Block<T> b(g, r, 1, 0, 1, 1); b.mem.resize(r); g.note() << what(t + " std::vector", r, 1, 0, 1, 1);
      { auto v = VecToKokkos<T, HS>(b.mem); struct W { decltype(v) v; T& operator()(long i, long) const { return v(i); } } a{v}; aliasing(g, b, a, v.extent(0), 1, "VecToKokkos(std)"); }
      { auto v = ConstVecToKokkos<T, HS>(b.mem); struct W { decltype(v) v; T const& operator()(long i, long) const { return v(i); } } a{v}; viewing(g, b, a, v.extent(0), 1, "ConstVecToKokkos(std)"); }
      { auto v = VecToConstKokkos<T, HS>(b.mem); struct W { decltype(v) v; T const& operator()(long i, long) const { return v(i); } } a{v}; viewing(g, b, a, v.extent(0), 1, "VecToConstKokkos(std)"); auto s = KokkosToStd(v); struct S { std::vector<T> s; T& operator()(long i, long) { return s[i]; } } ss{s}; copied(g, b, ss, s.size(), 1, "KokkosToStd"); }
      if (r && c) { Block<T> m(g, r, c, 0, c, 1); m.mem.resize(r * c); auto v = MatToKokkos<T, HS>(m.mem, int(c)); aliasing(g, m, v, rowsK(v), colsK(v), "MatToKokkos(std)"); auto w = MatToConstKokkos<T, HS>(m.mem, int(c)); viewing(g, m, w, rowsK(w), colsK(w), "MatToConstKokkos(std)"); }
    }
  }
}
}

PBT_PROPERTY(raw_memory, 900) {
  switch (g.below(3)) { case 0: pointers<double>(g, "double"); break; case 1: pointers<int>(g, "int"); break; default: pointers<unsigned>(g, "unsigned"); }
}

namespace {
template <class T> void kokkosToEigen(G& g, const char* tn) {
  // a Kokkos matrix of each layout, possibly a block of a larger one
  long r = dim(g), c = dim(g), pr = g.coin() ? 0 : g.below(3), pc = g.coin() ? 0 : g.below(3), R = r + 2 * pr, C = c + 2 * pc; if (r * c > 1) g.nontrivial(); std::string t(tn);
  auto sub = [&](auto v) { return Kokkos::subview(v, std::make_pair(pr, pr + r), std::make_pair(pc, pc + c)); };
  int kind = int(g.below(4)); std::string tag;
  if (kind == 0) {
    Block<T> b(g, r, c, pr + pc * R, 1, std::max<long>(R, 1)); b.mem.resize(std::max<size_t>(b.mem.size(), R * C + 1), MarkOf<T>::get()); g.note() << what(t + " LayoutLeft", r, c, b.off, b.s0, b.s1); if (pr + pc) g.label("block");
    Kokkos::View<T**, Kokkos::LayoutLeft, HS> v(b.mem.data(), R, C); auto s = sub(v); auto m = KokkosToMat(s); aliasing(g, b, m, m.rows(), m.cols(), "KokkosToMat(LayoutLeft)");
    Kokkos::View<const T**, Kokkos::LayoutLeft, HS> cs = s; auto cm = ConstKokkosToMat(cs); viewing(g, b, cm, cm.rows(), cm.cols(), "ConstKokkosToMat(LayoutLeft)"); auto y = CopyKokkosToMat(s); copied(g, b, y, y.rows(), y.cols(), "CopyKokkosToMat(LayoutLeft)");
  } else if (kind == 1) {
    Block<T> b(g, r, c, pr * C + pc, std::max<long>(C, 1), 1); b.mem.resize(std::max<size_t>(b.mem.size(), R * C + 1), MarkOf<T>::get()); g.note() << what(t + " LayoutRight", r, c, b.off, b.s0, b.s1); if (pr + pc) g.label("block");
    Kokkos::View<T**, Kokkos::LayoutRight, HS> v(b.mem.data(), R, C); auto s = sub(v); auto m = KokkosToMat(s); aliasing(g, b, m, m.rows(), m.cols(), "KokkosToMat(LayoutRight)");
    Kokkos::View<const T**, Kokkos::LayoutRight, HS> cs = s; auto cm = ConstKokkosToMat(cs); viewing(g, b, cm, cm.rows(), cm.cols(), "ConstKokkosToMat(LayoutRight)"); auto y = CopyKokkosToMat(s); copied(g, b, y, y.rows(), y.cols(), "CopyKokkosToMat(LayoutRight)");
  } else if (kind == 2) {
    bool rm = g.coin(); long in = g.pick<long>({1, 2, 3}), o = g.below(3), s0 = rm ? in * std::max<long>(c, 1) + g.below(3) : in, s1 = rm ? in : in * std::max<long>(r, 1) + g.below(3);
    Block<T> b(g, r, c, o, s0, s1); g.note() << what(t + " LayoutStride", r, c, o, s0, s1);
    Kokkos::View<T**, Kokkos::LayoutStride, HS> v(b.mem.data() + o, Kokkos::LayoutStride(r, s0, c, s1)); auto m = KokkosToMat(v); aliasing(g, b, m, m.rows(), m.cols(), "KokkosToMat(LayoutStride)");
    Kokkos::View<const T**, Kokkos::LayoutStride, HS> cv = v; auto cm = ConstKokkosToMat(cv); viewing(g, b, cm, cm.rows(), cm.cols(), "ConstKokkosToMat(LayoutStride)"); auto y = CopyKokkosToMat(v); copied(g, b, y, y.rows(), y.cols(), "CopyKokkosToMat(LayoutStride)");
  } else {
    // vectors: contiguous, and rows and columns of matrices
    long s = g.pick<long>({1, 2, 4}), o = g.below(3); Block<T> b(g, r, 1, o, s, 1); g.note() << what(t + " vector", r, 1, o, s, 1);
    if (s == 1) { Kokkos::View<T*, HS> v(b.mem.data() + o, r); auto m = KokkosToVec(v); aliasing(g, b, m, m.rows(), 1, "KokkosToVec"); auto y = CopyKokkosToVec(v); copied(g, b, y, y.rows(), y.cols(), "CopyKokkosToVec"); }
    Kokkos::View<T*, Kokkos::LayoutStride, HS> v(b.mem.data() + o, Kokkos::LayoutStride(r, s)); auto m = KokkosToVec(v); aliasing(g, b, m, m.rows(), 1, "KokkosToVec(strided)"); auto y = CopyKokkosToVec(v); copied(g, b, y, y.rows(), y.cols(), "CopyKokkosToVec(strided)");
    auto sv = KokkosToStd(v); struct S { std::vector<T> s; T& operator()(long i, long) { return s[i]; } } ss{sv}; copied(g, b, ss, sv.size(), 1, "KokkosToStd(strided)");
  }
}
template <class T> void eigenToKokkos(G& g, const char* tn) {
  typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor> CM; typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> RM; typedef Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic> DS;
  long r = dim(g), c = dim(g); std::string t(tn); if (r * c > 1) g.nontrivial(); bool rm = g.coin(); long in = g.pick<long>({1, 1, 2, 3}), o = g.below(3), len = std::max<long>(rm ? c : r, 1), out = in * len + g.below(3);
  int kind = int(g.below(6));
  if (kind >= 3 && kind <= 4) in = 1, out = len + g.below(3);
  Block<T> b(g, r, c, o, rm ? out : in, rm ? in : out); g.note() << what(t + (rm ? " Eigen row major" : " Eigen column major"), r, c, o, b.s0, b.s1);
  T* p = b.mem.data() + o;
  if (kind <= 1) { // any strides
    if (rm) { Eigen::Map<RM, 0, DS> m(p, r, c, DS(out, in)); Eigen::Ref<RM, 0, DS> ref(m); auto v = MatToKokkos<T, HS>(ref); aliasing(g, b, v, rowsK(v), colsK(v), "MatToKokkos(row major)"); }
    else { Eigen::Map<CM, 0, DS> m(p, r, c, DS(out, in)); Eigen::Ref<CM, 0, DS> ref(m); auto v = MatToKokkos<T, HS>(ref); aliasing(g, b, v, rowsK(v), colsK(v), "MatToKokkos(column major)"); }
  } else if (kind == 2) { // the transpose
    if (rm) { Eigen::Map<RM, 0, DS> m(p, r, c, DS(out, in)); auto v = MatToKokkos<T, HS>(Eigen::Ref<CM, 0, DS>(m.transpose())); struct W { decltype(v) v; T& operator()(long i, long j) const { return v(j, i); } } a{v}; aliasing(g, b, a, colsK(v), rowsK(v), "MatToKokkos(transpose)"); }
    else { Eigen::Map<CM, 0, DS> m(p, r, c, DS(out, in)); auto v = MatToKokkos<T, HS>(Eigen::Ref<RM, 0, DS>(m.transpose())); struct W { decltype(v) v; T& operator()(long i, long j) const { return v(j, i); } } a{v}; aliasing(g, b, a, colsK(v), rowsK(v), "MatToKokkos(transpose)"); }
  } else if (kind <= 4) { // constant references with contiguous inner dimension
    if (rm) { Eigen::Map<const RM, 0, Eigen::OuterStride<>> m(p, r, c, Eigen::OuterStride<>(out)); Eigen::Ref<const RM, 0, Eigen::Stride<Eigen::Dynamic, 1>> ref(m); auto v = ConstRowMatToKokkos<T, HS>(ref); same(g, b, rowsK(v), colsK(v), [&](long i, long j) { return v(i, j); }, "ConstRowMatToKokkos"); }
    else { Eigen::Map<const CM, 0, Eigen::OuterStride<>> m(p, r, c, Eigen::OuterStride<>(out)); Eigen::Ref<const CM, 0, Eigen::Stride<Eigen::Dynamic, 1>> ref(m); auto v = ConstColMatToKokkos<T, HS>(ref); same(g, b, rowsK(v), colsK(v), [&](long i, long j) { return v(i, j); }, "ConstColMatToKokkos"); }
    b.intact(g, "constant reference");
  } else { // vectors: whole, rows and columns of a matrix
    Block<T> u(g, r, 1, o, in, 1); typedef Eigen::Matrix<T, Eigen::Dynamic, 1> VX; Eigen::Map<VX, 0, Eigen::InnerStride<>> m(u.mem.data() + o, r, Eigen::InnerStride<>(in)); auto v = VecToKokkos<T, HS>(Eigen::Ref<VX, 0, Eigen::InnerStride<Eigen::Dynamic>>(m));
    struct W { decltype(v) v; T& operator()(long i, long) const { return v(i); } } a{v}; aliasing(g, u, a, v.extent(0), 1, "VecToKokkos(Eigen)");
  }
}
template <class T> void roundTrip(G& g) {
  // through both libraries and back
  long r = dim(g), c = dim(g); if (r * c > 1) g.nontrivial(); Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> m(r, c); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) m(i, j) = value<T>(g, i + j); auto m0 = m;
  g.note() << r << "x" << c << "\n";
  auto v = MatToKokkos<T, HS>(m); auto e = KokkosToMat(v); g.check(e.rows() == r && e.cols() == c && (e.array() == m0.array()).all(), "round trip", "Eigen to Kokkos to Eigen");
  if (r && c) { e(r - 1, c - 1) += 1; g.check(m(r - 1, c - 1) == m0(r - 1, c - 1) + 1, "round trip aliases", "writing through both views"); m = m0; }
  auto y = CopyKokkosToMat(v); m.setConstant(T(5)); g.check(y.rows() == r && y.cols() == c && (y.array() == m0.array()).all(), "round trip copy", "");
  // host and "device" are the same place here; copies they are all the same
  auto h = ToHost<HS>(v); bool al = r * c == 0 || &h(0, 0) == &v(0, 0); (void)al; g.check(long(h.extent(0)) == r && long(h.extent(1)) == c, "ToHost shape", ""); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) g.check(h(i, j) == T(5), "ToHost", "");
}
}

PBT_PROPERTY(kokkos_to_eigen, 900) {
  switch (g.below(3)) { case 0: kokkosToEigen<double>(g, "double"); break; case 1: kokkosToEigen<int>(g, "int"); break; default: kokkosToEigen<unsigned>(g, "unsigned"); }
}
PBT_PROPERTY(eigen_to_kokkos, 900) {
  if (g.coin()) eigenToKokkos<double>(g, "double"); else eigenToKokkos<int>(g, "int");
}
PBT_PROPERTY(round_trip, 300) { if (g.coin()) roundTrip<double>(g); else roundTrip<int>(g); }
