#pragma once
#include "Kokkos_Macros.hpp"
#include "sim_api.h"
namespace Kokkos {
[[noreturn]] inline void abort(char const* msg) { sim_violation("kokkos-abort", msg); }
}
#define SIM_STR2(x) #x
#define SIM_STR(x) SIM_STR2(x)
#define KOKKOS_EXPECTS(X)                                                                        \
    {                                                                                            \
        if (!static_cast<bool>(X)) {                                                             \
            ::sim_violation("assert", __FILE__ ":" SIM_STR(__LINE__) ": KOKKOS_ASSERT " #X);      \
        }                                                                                        \
    }
#define KOKKOS_ENSURES(X) KOKKOS_EXPECTS(X)
#define KOKKOS_ASSERT(X) KOKKOS_EXPECTS(X)
