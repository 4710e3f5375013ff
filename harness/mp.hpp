#pragma once
#include <Kokkos_Core.hpp>
#include <Eigen/Dense>
#include "pbt.hpp"
namespace mp {
inline void init() {
  if (Kokkos::is_initialized()) return;
  Kokkos::InitArguments a; a.disable_warnings = true;
  Kokkos::initialize(a);
}
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv, mp::init); }
