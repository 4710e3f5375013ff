// Matrices stored in different memory layouts inside marked buffers.
#pragma once
#include <Eigen/Dense>
#include <Kokkos_Core.hpp>
#include "MParT/Utilities/ArrayConversions.h"
namespace mg {
typedef Kokkos::HostSpace HS;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> Mat;
enum Way { EIGEN, LEFT, RIGHT, PADDED, STEP, IMPL, NWAYS };
inline const char* wayName(int w) { static const char* n[] = {"Eigen", "LayoutLeft", "LayoutRight", "padded", "strided", "preallocated"}; return n[w]; }

/// a matrix stored in a chosen way inside a buffer whose remaining entries hold a marker
struct Buf {
  Kokkos::View<double*, HS> mem; long r, c, s0, s1; long off;
  Mat value; 
  Buf(Mat const& m, int way) : r(m.rows()), c(m.cols()), value(m) {
    off = way == PADDED || way == STEP ? 3 : 0;
    if (way == RIGHT || way == EIGEN) { s0 = c; s1 = 1; }
    else if (way == PADDED) { s0 = 1; s1 = r + 2; }
    else if (way == STEP) { s1 = 2; s0 = 2 * c + 1; }
    else { s0 = 1; s1 = r; }
    long n = off + (r > 0 && c > 0 ? (r - 1) * s0 + (c - 1) * s1 + 1 : 0) + off;
    mem = Kokkos::View<double*, HS>("buf", std::max<long>(n, 1));
    for (size_t i = 0; i < mem.size(); ++i) mem(i) = -7.25e7;
    for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) at(i, j) = m(i, j);
  }
  double& at(long i, long j) { return mem(off + i * s0 + j * s1); }
  mpart::StridedMatrix<double, HS> view() {
    Kokkos::LayoutStride l(r, std::max<long>(s0, 1), c, std::max<long>(s1, 1));
    return mpart::StridedMatrix<double, HS>(mem.data() + off, l);
  }
  mpart::StridedMatrix<const double, HS> cview() { return view(); }
  /// every value unchanged, the padding included
  bool intact() {
    std::vector<char> used(mem.size(), 0);
    for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) { if (!(at(i, j) == value(i, j) || (std::isnan(at(i, j)) && std::isnan(value(i, j))))) return false; used[off + i * s0 + j * s1] = 1; }
    for (size_t i = 0; i < mem.size(); ++i) if (!used[i] && mem(i) != -7.25e7) return false;
    return true;
  }
  bool padIntact() {
    std::vector<char> used(mem.size(), 0);
    for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) used[off + i * s0 + j * s1] = 1;
    for (size_t i = 0; i < mem.size(); ++i) if (!used[i] && mem(i) != -7.25e7) return false;
    return true;
  }
};
template <class V> inline Mat toMat(V const& v) { Mat m(v.extent(0), v.extent(1)); for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) m(i, j) = v(i, j); return m; }
template <class V> inline Mat toRow(V const& v) { Mat m(1, v.extent(0)); for (long j = 0; j < m.cols(); ++j) m(0, j) = v(j); return m; }

}
