#pragma once
#include <cstdio>
#include <iostream>
#include <string>
namespace Kokkos {
template <class... A>
void printf(char const* fmt, A... a)
{
    char buf[1024];
    if constexpr (sizeof...(A) == 0) {
        std::snprintf(buf, sizeof buf, "%s", fmt);
    } else {
        std::snprintf(buf, sizeof buf, fmt, a...);
    }
    std::cout << buf;
}
} // namespace Kokkos
