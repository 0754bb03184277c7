#pragma once
#include <numbers>
namespace Kokkos::numbers {
using namespace std::numbers;
}
namespace Kokkos::Experimental {
}
