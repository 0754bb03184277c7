#pragma once
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_IMPL_DEVICE_FUNCTION
#define KOKKOS_RESTRICT
#define KOKKOS_IF_ON_HOST(x) x
#define KOKKOS_IF_ON_DEVICE(x)
#define KOKKOS_VERSION 40600
