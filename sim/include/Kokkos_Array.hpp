#pragma once
#include <cstddef>
#include <iterator>
#include <tuple>
#include <utility>
#include "Kokkos_Assert.hpp"
#include "Kokkos_Macros.hpp"

namespace Kokkos {
template <class T, std::size_t N>
struct Array
{
    T m_internal_implementation_private_member_data[N];
    using value_type = T;
    using reference = T&;
    using const_reference = T const&;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using const_pointer = T const*;
    using iterator = T*;
    using const_iterator = T const*;
    static constexpr auto size() -> size_type { return N; }
    static constexpr auto empty() -> bool { return false; }
    static constexpr auto max_size() -> size_type { return N; }
    template <class I>
    constexpr auto operator[](I const i) -> reference
    {
        if (static_cast<std::size_t>(i) >= N) {
            sim_violation("bounds", "Kokkos::Array index out of bounds");
        }
        return m_internal_implementation_private_member_data[i];
    }
    template <class I>
    constexpr auto operator[](I const i) const -> const_reference
    {
        if (static_cast<std::size_t>(i) >= N) {
            sim_violation("bounds", "Kokkos::Array index out of bounds");
        }
        return m_internal_implementation_private_member_data[i];
    }
    constexpr auto data() -> pointer { return m_internal_implementation_private_member_data; }
    constexpr auto data() const -> const_pointer { return m_internal_implementation_private_member_data; }
    friend constexpr auto operator==(Array const& a, Array const& b) -> bool
    {
        for (std::size_t i = 0; i < N; ++i) {
            if (!(a.data()[i] == b.data()[i])) {
                return false;
            }
        }
        return true;
    }
};
template <class T>
struct Array<T, 0>
{
    using value_type = T;
    using iterator = T*;
    using const_iterator = T const*;
    static constexpr auto size() -> std::size_t { return 0; }
    static constexpr auto empty() -> bool { return true; }
    constexpr auto data() -> T* { return nullptr; }
    constexpr auto data() const -> T const* { return nullptr; }
};
template <class T, class... U>
Array(T, U...) -> Array<T, 1 + sizeof...(U)>;

template <class T, std::size_t N> constexpr auto begin(Array<T, N>& a) -> T* { return a.data(); }
template <class T, std::size_t N> constexpr auto begin(Array<T, N> const& a) -> T const* { return a.data(); }
template <class T, std::size_t N> constexpr auto end(Array<T, N>& a) -> T* { return a.data() + N; }
template <class T, std::size_t N> constexpr auto end(Array<T, N> const& a) -> T const* { return a.data() + N; }
template <std::size_t I, class T, std::size_t N> constexpr auto get(Array<T, N>& a) -> T& { return a.data()[I]; }
template <std::size_t I, class T, std::size_t N> constexpr auto get(Array<T, N> const& a) -> T const& { return a.data()[I]; }
template <std::size_t I, class T, std::size_t N> constexpr auto get(Array<T, N>&& a) -> T&& { return static_cast<T&&>(a.data()[I]); }

template <class T, std::size_t N>
constexpr auto to_array(T (&a)[N]) -> Array<std::remove_cv_t<T>, N>
{
    Array<std::remove_cv_t<T>, N> r {};
    for (std::size_t i = 0; i < N; ++i) r.data()[i] = a[i];
    return r;
}
} // namespace Kokkos

template <class T, std::size_t N>
struct std::tuple_size<Kokkos::Array<T, N>> : std::integral_constant<std::size_t, N> {};
template <std::size_t I, class T, std::size_t N>
struct std::tuple_element<I, Kokkos::Array<T, N>> { using type = T; };
