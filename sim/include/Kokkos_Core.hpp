// A small Kokkos stand-in whose every source of nondeterminism (iteration order, reduction tree, asynchronous launch,
// separate device memory) is decided by the simulator. It implements the documented semantics of the Kokkos core API.
#pragma once

#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <ostream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include "Kokkos_Array.hpp"
#include "Kokkos_Assert.hpp"
#include "Kokkos_Macros.hpp"
#include "Kokkos_MathematicalConstants.hpp"
#include "Kokkos_MathematicalFunctions.hpp"
#include "Kokkos_Printf.hpp"
#include "sim_api.h"

namespace Kokkos {

// ------------------------------------------------------------------ pair, min, max, clamp
template <class T1, class T2>
struct pair
{
    using first_type = T1;
    using second_type = T2;
    T1 first {};
    T2 second {};
    constexpr pair() = default;
    constexpr pair(T1 const& a, T2 const& b) : first(a), second(b) {}
    template <class U, class V>
    constexpr pair(pair<U, V> const& o) : first(o.first), second(o.second) {}
    template <class U, class V>
    constexpr pair(std::pair<U, V> const& o) : first(o.first), second(o.second) {}
    friend constexpr bool operator==(pair const& a, pair const& b) { return a.first == b.first && a.second == b.second; }
};
template <class T1, class T2>
constexpr auto make_pair(T1 a, T2 b) -> pair<T1, T2> { return pair<T1, T2>(a, b); }

template <class T> constexpr auto max(T const& a, T const& b) -> T const& { return (a < b) ? b : a; }
template <class T> constexpr auto min(T const& a, T const& b) -> T const& { return (b < a) ? b : a; }
template <class T, class C> constexpr auto max(T const& a, T const& b, C c) -> T const& { return c(a, b) ? b : a; }
template <class T, class C> constexpr auto min(T const& a, T const& b, C c) -> T const& { return c(b, a) ? b : a; }
template <class T> constexpr auto max(std::initializer_list<T> l) -> T { return *std::max_element(l.begin(), l.end()); }
template <class T> constexpr auto min(std::initializer_list<T> l) -> T { return *std::min_element(l.begin(), l.end()); }
template <class T> constexpr auto clamp(T const& v, T const& lo, T const& hi) -> T const& { return (v < lo) ? lo : (hi < v) ? hi : v; }
template <class T> constexpr void kokkos_swap(T& a, T& b) { T t = a; a = b; b = t; }

// ------------------------------------------------------------------ spaces, layouts, tags
struct Serial;
struct SimDevice;

struct HostSpace
{
    using memory_space = HostSpace;
    using execution_space = Serial;
    static constexpr int sim_space = 0;
    static auto name() -> char const* { return "Host"; }
};
struct SimDeviceSpace
{
    using memory_space = SimDeviceSpace;
    using execution_space = SimDevice;
    static constexpr int sim_space = 1;
    static auto name() -> char const* { return "SimDevice"; }
};
struct SharedHostPinnedSpace
{
    using memory_space = SharedHostPinnedSpace;
    using execution_space = Serial;
    static constexpr int sim_space = 2;
    static auto name() -> char const* { return "SimHostPinned"; }
};
struct SharedSpace
{
    using memory_space = SharedSpace;
    using execution_space = SimDevice;
    static constexpr int sim_space = 3;
    static auto name() -> char const* { return "SimShared"; }
};
struct LayoutLeft;
struct LayoutRight;
struct LayoutStride;

struct Serial
{
    using execution_space = Serial;
    using memory_space = HostSpace;
    using array_layout = LayoutRight;
    using size_type = std::size_t;
    static auto name() -> char const* { return "Serial"; }
    void fence(std::string const& l = "") const;
    static auto concurrency() -> int { return 1; }
};
struct SimDevice
{
    using execution_space = SimDevice;
#ifdef SIM_UNIFIED
    using memory_space = HostSpace;
#else
    using memory_space = SimDeviceSpace;
#endif
    using array_layout = LayoutLeft;
    using size_type = std::size_t;
    static auto name() -> char const* { return "SimDevice"; }
    void fence(std::string const& l = "") const;
    static auto concurrency() -> int { return 64; }
};
using DefaultExecutionSpace = SimDevice;
using DefaultHostExecutionSpace = Serial;

template <class E, class M>
struct Device
{
    using execution_space = E;
    using memory_space = M;
    using device_type = Device<E, M>;
};
template <unsigned F = 0>
struct MemoryTraits
{
    static constexpr unsigned impl_value = F;
};
enum MemoryTraitsFlags : unsigned { Unmanaged = 1, RandomAccess = 2, Atomic = 4, Restrict = 8, Aligned = 16 };
using MemoryUnmanaged = MemoryTraits<Unmanaged>;

struct ALL_t
{
    constexpr bool operator==(ALL_t const&) const { return true; }
};
inline constexpr ALL_t ALL {};

template <class T> struct IndexType { using type = T; };
template <class T> struct Schedule {};
struct Static {};
struct Dynamic {};
enum class Iterate { Default, Left, Right };
template <unsigned N, Iterate O = Iterate::Default, Iterate I = Iterate::Default>
struct Rank { static constexpr unsigned rank = N; };
struct WithoutInitializing_t {};
inline constexpr WithoutInitializing_t WithoutInitializing {};
struct SequentialHostInit_t {};
inline constexpr SequentialHostInit_t SequentialHostInit {};
struct AllowPadding_t {};
inline constexpr AllowPadding_t AllowPadding {};

struct LayoutLeft
{
    std::size_t dimension[8] {};
    using array_layout = LayoutLeft;
    static constexpr std::size_t none = ~std::size_t(0);
    constexpr explicit LayoutLeft(std::size_t a = none, std::size_t b = none, std::size_t c = none, std::size_t d = none, std::size_t e = none,
                                  std::size_t f = none, std::size_t g = none, std::size_t h = none)
        : dimension {a, b, c, d, e, f, g, h} {}
    friend bool operator==(LayoutLeft const& x, LayoutLeft const& y) { return std::equal(x.dimension, x.dimension + 8, y.dimension); }
};
struct LayoutRight
{
    std::size_t dimension[8] {};
    using array_layout = LayoutRight;
    static constexpr std::size_t none = ~std::size_t(0);
    constexpr explicit LayoutRight(std::size_t a = none, std::size_t b = none, std::size_t c = none, std::size_t d = none, std::size_t e = none,
                                   std::size_t f = none, std::size_t g = none, std::size_t h = none)
        : dimension {a, b, c, d, e, f, g, h} {}
    friend bool operator==(LayoutRight const& x, LayoutRight const& y) { return std::equal(x.dimension, x.dimension + 8, y.dimension); }
};
struct LayoutStride
{
    std::size_t dimension[8] {};
    std::size_t stride[8] {};
    using array_layout = LayoutStride;
    LayoutStride() { std::fill(dimension, dimension + 8, ~std::size_t(0)); }
    friend bool operator==(LayoutStride const& x, LayoutStride const& y)
    {
        return std::equal(x.dimension, x.dimension + 8, y.dimension) && std::equal(x.stride, x.stride + 8, y.stride);
    }
};

namespace SimImpl {

// ------------------------------------------------------------------ execution state (one copy per simulated rank)
struct Access { void* p; unsigned size; int iter; unsigned char old[16]; };
struct State
{
    int in_kernel = 0; // device code is running
    bool race = false;
    int iter = 0;
    std::vector<Access> log;
    struct Cell { int w = -1, r = -1, w2 = 0, r2 = 0; };
    std::unordered_map<void*, Cell> cells;
    std::vector<std::function<void()>> queue;
    bool flushing = false;
};
inline State& st()
{
    static State s;
    return s;
}
inline void flush()
{
    State& s = st();
    if (s.flushing) {
        return;
    }
    s.flushing = true;
    for (std::size_t i = 0; i < s.queue.size(); ++i) {
        std::function<void()> f = std::move(s.queue[i]);
        s.queue[i] = nullptr;
        f();
    }
    s.queue.clear();
    s.flushing = false;
}

struct Block
{
    void* p = nullptr;
    std::uint64_t bytes = 0;
    int space = 0;
    std::string label;
    Block() = default;
    Block(Block const&) = delete;
    Block& operator=(Block const&) = delete;
    ~Block()
    {
        if (p) {
            sim_free(p, bytes, space);
        }
    }
};
inline auto allocate(std::string const& label, std::uint64_t bytes, int space) -> std::shared_ptr<Block>
{
    auto b = std::make_shared<Block>();
    void* p = sim_alloc(label.c_str(), bytes, space);
    if (!p) {
        throw std::runtime_error("Kokkos failed to allocate memory for label \"" + label + "\"");
    }
    b->p = p;
    b->bytes = bytes;
    b->space = space;
    b->label = label;
    return b;
}

template <class T> struct decompose
{
    using scalar = T;
    static constexpr unsigned rank = 0, rank_dynamic = 0;
    static void statics(std::size_t*, unsigned) {}
    template <class S> using rebind = S;
};
template <class T> struct decompose<T*>
{
    using in = decompose<T>;
    using scalar = typename in::scalar;
    static constexpr unsigned rank = in::rank + 1, rank_dynamic = in::rank_dynamic + 1;
    template <class S> using rebind = typename in::template rebind<S>*;
};
template <class T, std::size_t N> struct decompose<T[N]>
{
    using in = decompose<T>;
    using scalar = typename in::scalar;
    static constexpr unsigned rank = in::rank + 1, rank_dynamic = in::rank_dynamic;
    template <class S> using rebind = typename in::template rebind<S>[N];
};
template <class T, unsigned N> struct add_ptrs { using type = typename add_ptrs<T, N - 1>::type*; };
template <class T> struct add_ptrs<T, 0> { using type = T; };

template <class T> concept is_layout_c = std::is_same_v<T, LayoutLeft> || std::is_same_v<T, LayoutRight> || std::is_same_v<T, LayoutStride>;
template <class T> struct is_mt : std::false_type {};
template <unsigned F> struct is_mt<MemoryTraits<F>> : std::true_type {};
template <class T> concept has_space_c = requires { typename T::memory_space; };
template <class T> concept is_exec_c = std::is_same_v<T, Serial> || std::is_same_v<T, SimDevice>;

template <class... P> struct find_layout { using type = void; };
template <class A, class... P> struct find_layout<A, P...> { using type = std::conditional_t<is_layout_c<A>, A, typename find_layout<P...>::type>; };
template <class... P> struct find_mt { using type = MemoryTraits<0>; };
template <class A, class... P> struct find_mt<A, P...> { using type = std::conditional_t<is_mt<A>::value, A, typename find_mt<P...>::type>; };
template <class A> struct mem_of { using type = void; };
template <has_space_c A> struct mem_of<A> { using type = typename A::memory_space; };
template <class... P> struct find_space { using type = void; };
template <class A, class... P> struct find_space<A, P...>
{
    using type = std::conditional_t<!std::is_void_v<typename mem_of<A>::type>, typename mem_of<A>::type, typename find_space<P...>::type>;
};
template <class T, class D> using or_default = std::conditional_t<std::is_void_v<T>, D, T>;
template <class T> constexpr bool is_integral_index = std::is_integral_v<std::remove_cvref_t<T>> || std::is_enum_v<std::remove_cvref_t<T>>;
} // namespace SimImpl

template <class DataType, class... Props>
struct ViewTraits
{
    using data_type = DataType;
    using dec = SimImpl::decompose<DataType>;
    using value_type = typename dec::scalar;
    using const_value_type = std::add_const_t<value_type>;
    using non_const_value_type = std::remove_const_t<value_type>;
    using const_data_type = typename dec::template rebind<const_value_type>;
    using non_const_data_type = typename dec::template rebind<non_const_value_type>;
    using array_layout = SimImpl::or_default<typename SimImpl::find_layout<Props...>::type, LayoutLeft>;
    using memory_space = SimImpl::or_default<typename SimImpl::find_space<Props...>::type, DefaultExecutionSpace::memory_space>;
    using execution_space = typename memory_space::execution_space;
    using device_type = Device<execution_space, memory_space>;
    using memory_traits = typename SimImpl::find_mt<Props...>::type;
    using size_type = std::size_t;
    struct host_mirror_space
    {
        using memory_space = std::conditional_t<std::is_same_v<typename ViewTraits::memory_space, SimDeviceSpace>, HostSpace, typename ViewTraits::memory_space>;
        using execution_space = Serial;
    };
    using HostMirrorSpace = host_mirror_space;
    struct dimension
    {
        static constexpr unsigned rank = dec::rank;
        static constexpr unsigned rank_dynamic = dec::rank_dynamic;
    };
};

template <class DataType, class... Props>
class View;

template <class T> struct is_view : std::false_type {};
template <class D, class... P> struct is_view<View<D, P...>> : std::true_type {};
template <class D, class... P> struct is_view<View<D, P...> const> : std::true_type {};
template <class T> inline constexpr bool is_view_v = is_view<T>::value;

namespace SimImpl {
struct AllocProp
{
    std::string label;
    bool init = true;
};
inline void apply(AllocProp& a, std::string const& s) { a.label = s; }
inline void apply(AllocProp& a, char const* s) { a.label = s; }
inline void apply(AllocProp& a, WithoutInitializing_t) { a.init = false; }
template <class T> void apply(AllocProp&, T const&) {}
} // namespace SimImpl
template <class... A>
auto view_alloc(A const&... a) -> SimImpl::AllocProp
{
    SimImpl::AllocProp p;
    (SimImpl::apply(p, a), ...);
    return p;
}
inline auto ViewAllocateWithoutInitializing(std::string const& l) -> SimImpl::AllocProp { return view_alloc(l, WithoutInitializing); }

template <class DataType, class... Props>
class View
{
    template <class, class...> friend class View;

public:
    using traits = ViewTraits<DataType, Props...>;
    using data_type = typename traits::data_type;
    using value_type = typename traits::value_type;
    using element_type = value_type;
    using const_value_type = typename traits::const_value_type;
    using non_const_value_type = typename traits::non_const_value_type;
    using const_data_type = typename traits::const_data_type;
    using non_const_data_type = typename traits::non_const_data_type;
    using array_layout = typename traits::array_layout;
    using memory_space = typename traits::memory_space;
    using execution_space = typename traits::execution_space;
    using device_type = typename traits::device_type;
    using memory_traits = typename traits::memory_traits;
    using reference_type = value_type&;
    using pointer_type = value_type*;
    using size_type = std::size_t;
    using dimension = typename traits::dimension;
    using const_type = View<const_data_type, array_layout, memory_space, memory_traits>;
    using non_const_type = View<non_const_data_type, array_layout, memory_space, memory_traits>;
    using uniform_type = View<data_type, array_layout, memory_space, memory_traits>;
    using host_mirror_type = View<non_const_data_type, array_layout, typename traits::host_mirror_space::memory_space>;
    using HostMirror = host_mirror_type;
    static constexpr std::integral_constant<std::size_t, traits::dimension::rank> rank {};
    static constexpr std::integral_constant<std::size_t, traits::dimension::rank_dynamic> rank_dynamic {};
    static constexpr unsigned Rank = traits::dimension::rank;

    // (public so that subview and conversions of the stand-in can build views; not part of the Kokkos API)
    std::shared_ptr<SimImpl::Block> sim_block;
    value_type* sim_ptr = nullptr;
    std::size_t sim_ext[8] {0, 0, 0, 0, 0, 0, 0, 0};
    std::size_t sim_str[8] {0, 0, 0, 0, 0, 0, 0, 0};
    bool sim_alloc_ = false;

private:
    void set_strides()
    {
        std::size_t s = 1;
        if constexpr (std::is_same_v<array_layout, LayoutLeft>) {
            for (unsigned r = 0; r < rank; ++r) { sim_str[r] = s; s *= sim_ext[r]; }
        } else {
            for (unsigned r = rank; r-- > 0;) { sim_str[r] = s; s *= sim_ext[r]; }
        }
    }
    void do_alloc(SimImpl::AllocProp const& a)
    {
        set_strides();
        std::size_t n = 1;
        for (unsigned r = 0; r < rank; ++r) n *= sim_ext[r];
        sim_block = SimImpl::allocate(a.label, n * sizeof(value_type), memory_space::sim_space);
        if (a.init) {
            std::memset(sim_block->p, 0, n * sizeof(value_type));
        } else {
            std::memset(sim_block->p, 0xA5, n * sizeof(value_type));
        }
        sim_ptr = static_cast<value_type*>(sim_block->p);
        sim_alloc_ = true;
    }
    template <class V> static constexpr bool compatible()
    {
        return (std::is_same_v<typename V::value_type, value_type> || std::is_same_v<std::add_const_t<typename V::value_type>, value_type>)
               && V::rank == rank
               && (std::is_same_v<typename V::array_layout, array_layout> || std::is_same_v<array_layout, LayoutStride>
                   || rank <= 1)
               && (std::is_same_v<typename V::memory_space, memory_space>
                   || (std::is_same_v<memory_space, HostSpace> && std::is_same_v<typename V::memory_space, SharedHostPinnedSpace>)
                   || (std::is_same_v<memory_space, HostSpace> && std::is_same_v<typename V::memory_space, SharedSpace>));
    }
    template <class V> void assign(V const& o)
    {
        if constexpr (!std::is_same_v<typename V::array_layout, array_layout> && std::is_same_v<typename V::array_layout, LayoutStride>) {
            if (o.sim_alloc_ && o.sim_str[0] != 1) sim_violation("kokkos-abort", "View assignment of incompatible strides");
        }
        sim_block = o.sim_block;
        sim_ptr = o.sim_ptr;
        for (int r = 0; r < 8; ++r) { sim_ext[r] = o.sim_ext[r]; sim_str[r] = o.sim_str[r]; }
        sim_alloc_ = o.sim_alloc_;
    }

public:
    View() = default;
    View(View const&) = default;
    View(View&& o) noexcept { swap_in(o); }
    View& operator=(View const&) = default;
    View& operator=(View&& o) noexcept
    {
        if (this != &o) {
            View tmp;
            tmp.swap_in(o);
            assign(tmp);
        }
        return *this;
    }
    ~View() = default;

    template <class D2, class... P2>
        requires(View::template compatible<View<D2, P2...>>())
    View(View<D2, P2...> const& o) { assign(o); }
    template <class D2, class... P2>
        requires(View::template compatible<View<D2, P2...>>())
    View& operator=(View<D2, P2...> const& o)
    {
        assign(o);
        return *this;
    }

    template <class... I>
        requires((sizeof...(I) == rank_dynamic || sizeof...(I) == rank) && (SimImpl::is_integral_index<I> && ...))
    explicit View(std::string const& label, I... n)
    {
        init(view_alloc(label), n...);
    }
    template <class... I>
        requires((sizeof...(I) == rank_dynamic || sizeof...(I) == rank) && (SimImpl::is_integral_index<I> && ...))
    explicit View(SimImpl::AllocProp const& a, I... n)
    {
        init(a, n...);
    }
    View(std::string const& label, array_layout const& l) { init_l(view_alloc(label), l); }
    View(SimImpl::AllocProp const& a, array_layout const& l) { init_l(a, l); }
    template <class... I>
        requires((sizeof...(I) == rank_dynamic) && (SimImpl::is_integral_index<I> && ...))
    View(value_type* p, I... n)
    {
        if constexpr (sizeof...(I) > 0) {
            std::size_t e[] = {static_cast<std::size_t>(n)...};
            for (unsigned r = 0; r < rank; ++r) sim_ext[r] = e[r];
        }
        set_strides();
        sim_ptr = p;
        sim_alloc_ = true;
    }

private:
    void swap_in(View& o)
    {
        sim_block = std::move(o.sim_block);
        sim_ptr = o.sim_ptr;
        sim_alloc_ = o.sim_alloc_;
        for (int r = 0; r < 8; ++r) { sim_ext[r] = o.sim_ext[r]; sim_str[r] = o.sim_str[r]; }
        o.sim_ptr = nullptr;
        o.sim_alloc_ = false;
        for (int r = 0; r < 8; ++r) { o.sim_ext[r] = 0; o.sim_str[r] = 0; }
    }
    template <class... I> void init(SimImpl::AllocProp const& a, I... n)
    {
        if constexpr (sizeof...(I) > 0) {
            long long e[] = {static_cast<long long>(n)...};
            for (unsigned r = 0; r < sizeof...(I); ++r) {
                if (e[r] < 0) sim_violation("kokkos-abort", "negative View extent");
                sim_ext[r] = static_cast<std::size_t>(e[r]);
            }
        }
        do_alloc(a);
    }
    void init_l(SimImpl::AllocProp const& a, array_layout const& l)
    {
        for (unsigned r = 0; r < rank; ++r) sim_ext[r] = l.dimension[r];
        do_alloc(a);
    }

public:
    [[nodiscard]] bool is_allocated() const noexcept { return sim_alloc_; }
    [[nodiscard]] value_type* data() const noexcept { return sim_ptr; }
    template <class I> [[nodiscard]] constexpr std::size_t extent(I r) const noexcept { return static_cast<unsigned>(r) < rank ? sim_ext[r] : 1; }
    template <class I> [[nodiscard]] constexpr int extent_int(I r) const noexcept { return static_cast<int>(extent(r)); }
    template <class I> [[nodiscard]] std::size_t stride(I r) const noexcept { return sim_str[r]; }
    [[nodiscard]] std::size_t stride_0() const noexcept { return sim_str[0]; }
    [[nodiscard]] std::size_t stride_1() const noexcept { return sim_str[1]; }
    [[nodiscard]] std::size_t stride_2() const noexcept { return sim_str[2]; }
    [[nodiscard]] std::size_t size() const noexcept
    {
        if (!sim_alloc_) return 0;
        std::size_t n = 1;
        for (unsigned r = 0; r < rank; ++r) n *= sim_ext[r];
        return n;
    }
    [[nodiscard]] std::size_t span() const noexcept
    {
        if (size() == 0) return 0;
        std::size_t n = 1;
        for (unsigned r = 0; r < rank; ++r) n += (sim_ext[r] - 1) * sim_str[r];
        return n;
    }
    [[nodiscard]] bool span_is_contiguous() const noexcept { return span() == size(); }
    [[nodiscard]] std::string label() const { return sim_block ? sim_block->label : std::string(); }
    [[nodiscard]] long use_count() const { return sim_block.use_count(); }
    [[nodiscard]] array_layout layout() const
    {
        array_layout l;
        for (unsigned r = 0; r < rank; ++r) l.dimension[r] = sim_ext[r];
        if constexpr (std::is_same_v<array_layout, LayoutStride>) {
            for (unsigned r = 0; r < rank; ++r) l.stride[r] = sim_str[r];
        }
        return l;
    }

    template <class... I>
        requires(sizeof...(I) == rank && (SimImpl::is_integral_index<I> && ...))
    value_type& operator()(I... idx) const
    {
        return at_(idx...);
    }
    template <class I>
        requires(rank == 1 && SimImpl::is_integral_index<I>)
    value_type& operator[](I i) const
    {
        return at_(i);
    }
    template <class... I>
    value_type& access(I... idx) const
    {
        return at_(idx...);
    }

    template <class D2, class... P2>
    bool operator==(View<D2, P2...> const& o) const
    {
        if constexpr (View<D2, P2...>::rank != rank) {
            return false;
        } else {
            if (static_cast<void const*>(sim_ptr) != static_cast<void const*>(o.sim_ptr)) return false;
            for (unsigned r = 0; r < rank; ++r) {
                if (sim_ext[r] != o.sim_ext[r]) return false;
            }
            return span() == o.span();
        }
    }
    template <class D2, class... P2>
    bool operator!=(View<D2, P2...> const& o) const { return !(*this == o); }

private:
    template <class... I>
    value_type& at_(I... idx) const
    {
        SimImpl::State& s = SimImpl::st();
        if (!sim_alloc_) sim_violation("bounds", "access to an unallocated View");
        if constexpr (std::is_same_v<memory_space, SimDeviceSpace>) {
            if (!s.in_kernel) fail("memory-space", "host access to a device View");
        } else if constexpr (std::is_same_v<memory_space, HostSpace> && !std::is_same_v<DefaultExecutionSpace::memory_space, HostSpace>) {
            if (s.in_kernel) fail("memory-space", "device access to a host View");
        }
        std::size_t off = 0;
        if constexpr (rank > 0) {
            long long const ii[] = {static_cast<long long>(idx)...};
            for (unsigned r = 0; r < rank; ++r) {
                if (ii[r] < 0 || static_cast<std::size_t>(ii[r]) >= sim_ext[r]) fail_bounds(r, ii[r]);
                off += static_cast<std::size_t>(ii[r]) * sim_str[r];
            }
        }
        value_type* p = sim_ptr + off;
        if (s.race && s.in_kernel) {
            SimImpl::Access a;
            a.p = const_cast<std::remove_const_t<value_type>*>(p);
            a.iter = s.iter;
            if constexpr (std::is_const_v<value_type> || sizeof(value_type) > 16) {
                a.size = 0;
            } else {
                a.size = sizeof(value_type);
                std::memcpy(a.old, p, sizeof(value_type));
            }
            s.log.push_back(a);
        }
        return *p;
    }
    [[noreturn]] void fail(char const* kind, char const* what) const { sim_violation(kind, (std::string(what) + " \"" + label() + "\"").c_str()); }
    [[noreturn]] void fail_bounds(unsigned r, long long i) const
    {
        sim_violation("bounds", ("View \"" + label() + "\" index " + std::to_string(i) + " out of bounds [0," + std::to_string(sim_ext[r]) + ") in dimension " + std::to_string(r)).c_str());
    }
};

// ------------------------------------------------------------------ subview
namespace SimImpl {
struct Slice { std::size_t b, n; bool keep; };
template <class V> auto slice(V const& v, unsigned r, ALL_t) -> Slice { return {0, v.extent(r), true}; }
inline auto range_slice(std::string const& lab, std::size_t ext, long long b, long long e) -> Slice
{
    if (b < 0 || e < b || static_cast<std::size_t>(e) > ext) {
        sim_violation("bounds", ("subview of \"" + lab + "\" range [" + std::to_string(b) + "," + std::to_string(e) + ") out of extent " + std::to_string(ext)).c_str());
    }
    return {static_cast<std::size_t>(b), static_cast<std::size_t>(e - b), true};
}
template <class V, class A, class B> auto slice(V const& v, unsigned r, pair<A, B> const& p) -> Slice { return range_slice(v.label(), v.extent(r), p.first, p.second); }
template <class V, class A, class B> auto slice(V const& v, unsigned r, std::pair<A, B> const& p) -> Slice { return range_slice(v.label(), v.extent(r), p.first, p.second); }
template <class V, class I>
    requires(std::is_integral_v<I>)
auto slice(V const& v, unsigned r, I i) -> Slice
{
    if (static_cast<long long>(i) < 0 || static_cast<std::size_t>(i) >= v.extent(r)) {
        sim_violation("bounds", ("subview of \"" + v.label() + "\" index " + std::to_string(static_cast<long long>(i)) + " out of extent " + std::to_string(v.extent(r))).c_str());
    }
    return {static_cast<std::size_t>(i), 1, false};
}
template <class A> constexpr bool keeps = !std::is_integral_v<std::remove_cvref_t<A>>;
template <class A> constexpr bool is_all = std::is_same_v<std::remove_cvref_t<A>, ALL_t>;

template <class L, class... A> constexpr bool layout_preserved()
{
    // LayoutLeft: leading kept dimensions only, all of them ALL except possibly the last one
    constexpr unsigned n = sizeof...(A);
    constexpr bool k[] = {keeps<A>...};
    constexpr bool a[] = {is_all<A>...};
    if (std::is_same_v<L, LayoutLeft>) {
        bool seen_int = false;
        for (unsigned i = 0; i < n; ++i) {
            if (k[i] && seen_int) return false;
            if (!k[i]) seen_int = true;
        }
        for (unsigned i = 0; i + 1 < n; ++i) {
            if (k[i] && k[i + 1] && !a[i]) return false;
        }
        return true;
    }
    if (std::is_same_v<L, LayoutRight>) {
        bool seen_int = false;
        for (unsigned i = n; i-- > 0;) {
            if (k[i] && seen_int) return false;
            if (!k[i]) seen_int = true;
        }
        for (unsigned i = 1; i < n; ++i) {
            if (k[i] && k[i - 1] && !a[i]) return false;
        }
        return true;
    }
    return false;
}
} // namespace SimImpl

template <class D, class... P, class... A>
    requires(sizeof...(A) == View<D, P...>::rank)
auto subview(View<D, P...> const& v, A... a)
{
    using V = View<D, P...>;
    constexpr unsigned nkeep = (0 + ... + (SimImpl::keeps<A> ? 1 : 0));
    using L = std::conditional_t<nkeep == 0 || SimImpl::layout_preserved<typename V::array_layout, A...>(), typename V::array_layout, LayoutStride>;
    using R = View<typename SimImpl::add_ptrs<typename V::value_type, nkeep>::type, L, typename V::memory_space, typename V::memory_traits>;
    R out;
    unsigned r = 0;
    SimImpl::Slice const s[] = {SimImpl::slice(v, r++, a)..., {0, 0, false}};
    std::size_t off = 0;
    unsigned o = 0;
    for (unsigned i = 0; i < V::rank; ++i) {
        off += s[i].b * v.sim_str[i];
        if (s[i].keep) {
            out.sim_ext[o] = s[i].n;
            out.sim_str[o] = v.sim_str[i];
            ++o;
        }
    }
    out.sim_block = v.sim_block;
    out.sim_ptr = v.sim_ptr + off;
    out.sim_alloc_ = v.sim_alloc_;
    return out;
}

// ------------------------------------------------------------------ fences
inline void fence(std::string const& label = "")
{
    SimImpl::flush();
    sim_fence(label.c_str());
}
inline void Serial::fence(std::string const& l) const { Kokkos::fence(l); }
inline void SimDevice::fence(std::string const& l) const { Kokkos::fence(l); }

// ------------------------------------------------------------------ deep_copy, mirrors
namespace SimImpl {
template <class V, class F, class... I>
void foreach_index(V const& v, F const& f, I... idx)
{
    if constexpr (sizeof...(I) == V::rank) {
        f(idx...);
    } else {
        for (std::size_t i = 0; i < v.extent(sizeof...(I)); ++i) {
            foreach_index(v, f, idx..., i);
        }
    }
}
template <class V, class... I>
auto raw(V const& v, I... idx) -> typename V::value_type&
{
    std::size_t off = 0;
    unsigned r = 0;
    ((off += static_cast<std::size_t>(idx) * v.sim_str[r++]), ...);
    return v.sim_ptr[off];
}
} // namespace SimImpl

template <class D1, class... P1, class D2, class... P2>
void deep_copy(View<D1, P1...> const& dst, View<D2, P2...> const& src)
{
    using V1 = View<D1, P1...>;
    using V2 = View<D2, P2...>;
    static_assert(V1::rank == V2::rank, "deep_copy of views of different rank");
    static_assert(!std::is_const_v<typename V1::value_type>);
    SimImpl::flush();
    for (unsigned r = 0; r < V1::rank; ++r) {
        if (dst.extent(r) != src.extent(r)) {
            throw std::runtime_error("Kokkos::deep_copy extents of views don't match: " + dst.label() + " " + src.label());
        }
    }
    if (static_cast<void const*>(dst.data()) == static_cast<void const*>(src.data()) && dst.span() == src.span()) {
        sim_fence("Kokkos::deep_copy: same view");
        return;
    }
    // the source is staged: overlapping source and destination are an error in Kokkos
    if (dst.sim_block && src.sim_block && dst.sim_block == src.sim_block && dst.span() && src.span()) {
        auto const* d0 = reinterpret_cast<char const*>(dst.data());
        auto const* d1 = d0 + dst.span() * sizeof(typename V1::value_type);
        auto const* s0 = reinterpret_cast<char const*>(src.data());
        auto const* s1 = s0 + src.span() * sizeof(typename V2::value_type);
        if (d0 < s1 && s0 < d1 && dst.span_is_contiguous() && src.span_is_contiguous()) {
            throw std::runtime_error("Kokkos::deep_copy of overlapping views: " + dst.label());
        }
    }
    SimImpl::foreach_index(dst, [&](auto... i) { SimImpl::raw(dst, i...) = SimImpl::raw(src, i...); });
    sim_transfer(V1::memory_space::sim_space, V2::memory_space::sim_space, dst.size() * sizeof(typename V1::value_type), dst.label().c_str());
}
template <class D1, class... P1, class T>
    requires(!is_view_v<T>)
void deep_copy(View<D1, P1...> const& dst, T const& value)
{
    SimImpl::flush();
    typename View<D1, P1...>::non_const_value_type const v = value;
    SimImpl::foreach_index(dst, [&](auto... i) { SimImpl::raw(dst, i...) = v; });
    sim_fence("Kokkos::deep_copy: fill");
}
template <class T, class D2, class... P2>
    requires(!is_view_v<T> && View<D2, P2...>::rank == 0)
void deep_copy(T& dst, View<D2, P2...> const& src)
{
    SimImpl::flush();
    dst = *src.data();
    sim_fence("Kokkos::deep_copy: scalar");
}
template <class E, class D1, class... P1, class S>
    requires(SimImpl::is_exec_c<E>)
void deep_copy(E const&, View<D1, P1...> const& dst, S const& src)
{
    deep_copy(dst, src);
}

template <class D, class... P>
auto create_mirror(View<D, P...> const& v) -> typename View<D, P...>::host_mirror_type
{
    using M = typename View<D, P...>::host_mirror_type;
    return M(v.label(), v.layout());
}
template <class D, class... P>
auto create_mirror_view(View<D, P...> const& v) -> typename View<D, P...>::host_mirror_type
{
    using V = View<D, P...>;
    using M = typename V::host_mirror_type;
    if constexpr (std::is_same_v<typename M::memory_space, typename V::memory_space> && std::is_same_v<typename M::value_type, typename V::value_type>) {
        return M(v);
    } else {
        if (!v.is_allocated()) return M();
        return M(v.label(), v.layout());
    }
}
template <class D, class... P>
auto create_mirror_view_and_copy(HostSpace const&, View<D, P...> const& v)
{
    auto m = create_mirror_view(v);
    deep_copy(m, v);
    return m;
}
template <class D, class... P, class... I> void realloc(View<D, P...>& v, I... n)
{
    std::string const l = v.label();
    v = View<D, P...>();
    v = View<D, P...>(l, n...);
}
template <class D, class... P, class... I> void resize(View<D, P...>& v, I... n)
{
    View<D, P...> w(v.label(), n...);
    View<D, P...> const old = v;
    SimImpl::flush();
    SimImpl::foreach_index(w, [&](auto... i) {
        unsigned r = 0;
        bool in = true;
        ((in = in && static_cast<std::size_t>(i) < old.extent(r++)), ...);
        if (in) SimImpl::raw(w, i...) = SimImpl::raw(old, i...);
    });
    v = w;
}

// ------------------------------------------------------------------ policies
namespace SimImpl {
template <class... P> struct find_index { using type = int; };
template <class A, class... P> struct find_index<A, P...> { using type = typename find_index<P...>::type; };
template <class T, class... P> struct find_index<IndexType<T>, P...> { using type = T; };
template <class T, class... P>
    requires(std::is_integral_v<T>)
struct find_index<T, P...> { using type = T; };
template <class... P> struct find_rank { static constexpr unsigned value = 0; };
template <class A, class... P> struct find_rank<A, P...> { static constexpr unsigned value = find_rank<P...>::value; };
template <unsigned N, Iterate O, Iterate I, class... P> struct find_rank<Rank<N, O, I>, P...> { static constexpr unsigned value = N; };
template <class... P> struct find_exec { using type = DefaultExecutionSpace; };
template <class A, class... P> struct find_exec<A, P...> { using type = typename find_exec<P...>::type; };
template <class A, class... P>
    requires(is_exec_c<A>)
struct find_exec<A, P...> { using type = A; };
} // namespace SimImpl

template <class... P>
struct RangePolicy
{
    using index_type = typename SimImpl::find_index<P...>::type;
    using execution_space = typename SimImpl::find_exec<P...>::type;
    long long b = 0, e = 0;
    RangePolicy() = default;
    template <class A, class B> RangePolicy(A b_, B e_) : b(static_cast<long long>(b_)), e(static_cast<long long>(e_)) {}
    template <class E, class A, class B>
        requires(SimImpl::is_exec_c<E>)
    RangePolicy(E const&, A b_, B e_) : b(static_cast<long long>(b_)), e(static_cast<long long>(e_)) {}
    [[nodiscard]] auto count() const -> std::uint64_t { return e > b ? static_cast<std::uint64_t>(e - b) : 0; }
    template <class F, class... R> void call(F const& f, std::uint64_t i, R&... r) const { f(static_cast<index_type>(b + static_cast<long long>(i)), r...); }
};
template <class A, class B> RangePolicy(A, B) -> RangePolicy<>;

template <class... P>
struct MDRangePolicy
{
    static constexpr unsigned rank = SimImpl::find_rank<P...>::value;
    using index_type = typename SimImpl::find_index<P...>::type;
    using execution_space = typename SimImpl::find_exec<P...>::type;
    static_assert(rank >= 1, "MDRangePolicy needs a Rank");
    using point_type = Array<long long, rank>;
    long long b[rank] {}, e[rank] {};
    MDRangePolicy(std::initializer_list<index_type> bb, std::initializer_list<index_type> ee)
    {
        if (bb.size() != rank || ee.size() != rank) sim_violation("kokkos-abort", "MDRangePolicy bounds have the wrong size");
        std::copy(bb.begin(), bb.end(), b);
        std::copy(ee.begin(), ee.end(), e);
    }
    template <class T> MDRangePolicy(Array<T, rank> const& bb, Array<T, rank> const& ee)
    {
        for (unsigned r = 0; r < rank; ++r) { b[r] = static_cast<long long>(bb.data()[r]); e[r] = static_cast<long long>(ee.data()[r]); }
    }
    template <class T, class U> MDRangePolicy(Array<T, rank> const& bb, Array<T, rank> const& ee, Array<U, rank> const&) : MDRangePolicy(bb, ee) {}
    MDRangePolicy(std::initializer_list<index_type> bb, std::initializer_list<index_type> ee, std::initializer_list<index_type>) : MDRangePolicy(bb, ee) {}
    [[nodiscard]] auto count() const -> std::uint64_t
    {
        std::uint64_t n = 1;
        for (unsigned r = 0; r < rank; ++r) n *= e[r] > b[r] ? static_cast<std::uint64_t>(e[r] - b[r]) : 0;
        return n;
    }
    template <class F, class... R> void call(F const& f, std::uint64_t i, R&... rr) const
    {
        index_type x[rank];
        for (unsigned r = 0; r < rank; ++r) {
            std::uint64_t const n = static_cast<std::uint64_t>(e[r] - b[r]);
            x[r] = static_cast<index_type>(b[r] + static_cast<long long>(i % n));
            i /= n;
        }
        call_(f, x, std::make_index_sequence<rank>(), rr...);
    }

private:
    template <class F, std::size_t... S, class... R> static void call_(F const& f, index_type const* x, std::index_sequence<S...>, R&... rr) { f(x[S]..., rr...); }
};

namespace SimImpl {
template <class T> struct is_policy : std::false_type {};
template <class... P> struct is_policy<RangePolicy<P...>> : std::true_type {};
template <class... P> struct is_policy<MDRangePolicy<P...>> : std::true_type {};

inline auto perm(SimKernelPlan const& p, std::uint64_t n, std::uint64_t i) -> std::uint64_t
{
    if (p.order == 0) return i;
    if (p.order == 1) return n - 1 - i;
    return static_cast<std::uint64_t>((static_cast<unsigned __int128>(i) * p.mul + p.add) % n);
}
struct KernelScope
{
    SimKernelPlan const& p;
    std::string const& label;
    bool saved;
    KernelScope(SimKernelPlan const& pl, std::string const& l) : p(pl), label(l)
    {
        ++st().in_kernel;
        saved = st().race;
        st().race = p.race != 0;
        if (p.race) { st().log.clear(); st().cells.clear(); }
    }
    ~KernelScope()
    {
        --st().in_kernel;
        st().race = saved;
    }
    void iteration_begin(int i) { st().iter = i; }
    void iteration_end(int)
    {
        if (!p.race) return;
        State& s = st();
        for (Access const& a : s.log) {
            State::Cell& c = s.cells[a.p];
            bool const write = a.size && std::memcmp(a.old, a.p, a.size) != 0;
            if (write) {
                if (c.w >= 0 && c.w != a.iter) conflict("two iterations write the same element");
                if ((c.r >= 0 && c.r != a.iter) || c.r2) conflict("one iteration writes an element another one reads");
                c.w = a.iter;
            } else {
                if (c.w >= 0 && c.w != a.iter) conflict("one iteration reads an element another one writes");
                if (c.r >= 0 && c.r != a.iter) c.r2 = 1;
                c.r = a.iter;
            }
        }
        s.log.clear();
    }
    [[noreturn]] void conflict(char const* w) { sim_violation("kernel-race", ("kernel \"" + label + "\": " + w).c_str()); }
};

template <class Policy, class F>
void run_for(std::string const& label, Policy const& policy, F const& f)
{
    std::uint64_t const n = policy.count();
    SimKernelPlan plan {};
    sim_kernel_plan(label.c_str(), n, 0, &plan);
    auto body = [label, policy, f, n, plan]() {
        KernelScope scope(plan, label);
        for (std::uint64_t i = 0; i < n; ++i) {
            std::uint64_t const k = perm(plan, n, i);
            scope.iteration_begin(static_cast<int>(k));
            policy.call(f, k);
            scope.iteration_end(static_cast<int>(k));
        }
    };
    if (plan.defer && std::is_same_v<typename Policy::execution_space, SimDevice>) {
        st().queue.push_back(body);
    } else {
        flush();
        body();
    }
    sim_kernel_done(label.c_str(), n, 0);
}
} // namespace SimImpl

// ------------------------------------------------------------------ reducers
namespace SimImpl {
template <class T, class Space, class Derived>
struct ReducerBase
{
    using value_type = std::remove_cv_t<T>;
    using reducer = Derived;
    using result_view_type = View<value_type, LayoutLeft, Space>;
    value_type* ptr;
    result_view_type v;
    bool scalar;
    ReducerBase(value_type& r) : ptr(&r), scalar(true) {}
    template <class D, class... P>
        requires(View<D, P...>::rank == 0)
    ReducerBase(View<D, P...> const& vv) : ptr(const_cast<value_type*>(vv.data())), v(), scalar(false)
    {
        keep = vv.sim_block;
    }
    std::shared_ptr<Block> keep;
    void store(value_type const& x) const { *ptr = x; }
    auto reference() const -> value_type& { return *ptr; }
};
} // namespace SimImpl
#define SIM_REDUCER(NAME, INIT, JOIN)                                                                                     \
    template <class T, class Space = HostSpace>                                                                           \
    struct NAME : SimImpl::ReducerBase<T, Space, NAME<T, Space>>                                                          \
    {                                                                                                                     \
        using Base = SimImpl::ReducerBase<T, Space, NAME<T, Space>>;                                                      \
        using typename Base::value_type;                                                                                  \
        NAME(value_type& r) : Base(r) {}                                                                                  \
        template <class D, class... P>                                                                                    \
            requires(View<D, P...>::rank == 0)                                                                            \
        NAME(View<D, P...> const& v) : Base(v)                                                                            \
        {                                                                                                                 \
        }                                                                                                                 \
        static void init(value_type& a) { a = INIT; }                                                                     \
        static void join(value_type& a, value_type const& b) { JOIN; }                                                    \
    };                                                                                                                    \
    template <class D, class... P>                                                                                        \
    NAME(View<D, P...> const&) -> NAME<typename View<D, P...>::value_type, typename View<D, P...>::memory_space>;
template <class T> constexpr auto sim_max_id() -> T
{
    if constexpr (std::is_floating_point_v<T>) return std::numeric_limits<T>::max();
    else return std::numeric_limits<T>::max();
}
template <class T> constexpr auto sim_min_id() -> T { return std::numeric_limits<T>::lowest(); }
SIM_REDUCER(Sum, value_type(0), a += b)
SIM_REDUCER(Prod, value_type(1), a *= b)
SIM_REDUCER(Min, sim_max_id<value_type>(), if (b < a) a = b)
SIM_REDUCER(Max, sim_min_id<value_type>(), if (b > a) a = b)
SIM_REDUCER(LAnd, value_type(1), a = a && b)
SIM_REDUCER(LOr, value_type(0), a = a || b)
SIM_REDUCER(BAnd, ~value_type(0), a = a & b)
SIM_REDUCER(BOr, value_type(0), a = a | b)
template <class S> struct MinMaxScalar { S min_val; S max_val; };
template <class S, class I> struct ValLocScalar { S val; I loc; };
template <class T, class Space = HostSpace>
struct MinMax : SimImpl::ReducerBase<MinMaxScalar<T>, Space, MinMax<T, Space>>
{
    using Base = SimImpl::ReducerBase<MinMaxScalar<T>, Space, MinMax<T, Space>>;
    using typename Base::value_type;
    MinMax(value_type& r) : Base(r) {}
    static void init(value_type& a) { a.min_val = sim_max_id<T>(); a.max_val = sim_min_id<T>(); }
    static void join(value_type& a, value_type const& b)
    {
        if (b.min_val < a.min_val) a.min_val = b.min_val;
        if (b.max_val > a.max_val) a.max_val = b.max_val;
    }
};
template <class T, class I, class Space = HostSpace>
struct MinLoc : SimImpl::ReducerBase<ValLocScalar<T, I>, Space, MinLoc<T, I, Space>>
{
    using Base = SimImpl::ReducerBase<ValLocScalar<T, I>, Space, MinLoc<T, I, Space>>;
    using typename Base::value_type;
    MinLoc(value_type& r) : Base(r) {}
    static void init(value_type& a) { a.val = sim_max_id<T>(); a.loc = std::numeric_limits<I>::max(); }
    static void join(value_type& a, value_type const& b) { if (b.val < a.val) a = b; }
};
template <class T, class I, class Space = HostSpace>
struct MaxLoc : SimImpl::ReducerBase<ValLocScalar<T, I>, Space, MaxLoc<T, I, Space>>
{
    using Base = SimImpl::ReducerBase<ValLocScalar<T, I>, Space, MaxLoc<T, I, Space>>;
    using typename Base::value_type;
    MaxLoc(value_type& r) : Base(r) {}
    static void init(value_type& a) { a.val = sim_min_id<T>(); a.loc = std::numeric_limits<I>::max(); }
    static void join(value_type& a, value_type const& b) { if (b.val > a.val) a = b; }
};

namespace SimImpl {
template <class R> concept is_reducer_c = requires { typename std::remove_cvref_t<R>::reducer; };
template <class R>
auto to_reducer(R&& r)
{
    if constexpr (is_reducer_c<R>) {
        return std::remove_cvref_t<R>(r);
    } else if constexpr (is_view_v<std::remove_cvref_t<R>>) {
        using V = std::remove_cvref_t<R>;
        return Sum<typename V::value_type, typename V::memory_space>(r);
    } else {
        return Sum<std::remove_cvref_t<R>>(r);
    }
}
inline auto order_of(std::uint64_t seed, int n) -> std::vector<int>
{
    std::vector<int> o(static_cast<std::size_t>(n));
    std::iota(o.begin(), o.end(), 0);
    if (seed) {
        for (int i = n - 1; i > 0; --i) {
            seed = seed * 6364136223846793005ULL + 1442695040888963407ULL;
            std::swap(o[static_cast<std::size_t>(i)], o[static_cast<std::size_t>((seed >> 33) % static_cast<std::uint64_t>(i + 1))]);
        }
    }
    return o;
}

template <class Policy, class F, class Tuple, std::size_t... S>
void run_reduce(std::string const& label, Policy const& policy, F const& f, Tuple reds, std::index_sequence<S...>)
{
    std::uint64_t const n = policy.count();
    SimKernelPlan plan {};
    sim_kernel_plan(label.c_str(), n, 1, &plan);
    bool const blocking = (std::get<S>(reds).scalar || ...);
    auto body = [label, policy, f, n, plan, reds]() {
        using Vals = std::tuple<typename std::tuple_element_t<S, Tuple>::value_type...>;
        int const groups = plan.groups < 1 ? 1 : plan.groups;
        std::vector<Vals> part(static_cast<std::size_t>(groups));
        for (auto& p : part) { (std::tuple_element_t<S, Tuple>::init(std::get<S>(p)), ...); }
        {
            KernelScope scope(plan, label);
            for (std::uint64_t i = 0; i < n; ++i) {
                std::uint64_t const k = perm(plan, n, i);
                auto& p = part[static_cast<std::size_t>(i * static_cast<std::uint64_t>(groups) / n)];
                scope.iteration_begin(static_cast<int>(k));
                policy.call(f, k, std::get<S>(p)...);
                scope.iteration_end(static_cast<int>(k));
            }
        }
        Vals total;
        (std::tuple_element_t<S, Tuple>::init(std::get<S>(total)), ...);
        for (int g : order_of(plan.join_seed, groups)) {
            auto& p = part[static_cast<std::size_t>(g)];
            (std::tuple_element_t<S, Tuple>::join(std::get<S>(total), std::get<S>(p)), ...);
        }
        (std::get<S>(reds).store(std::get<S>(total)), ...);
    };
    if (plan.defer && !blocking && std::is_same_v<typename Policy::execution_space, SimDevice>) {
        st().queue.push_back(body);
    } else {
        flush();
        body();
    }
    sim_kernel_done(label.c_str(), n, 1);
}

template <class Policy, class F, class T>
void run_scan(std::string const& label, Policy const& policy, F const& f, T* total)
{
    std::uint64_t const n = policy.count();
    SimKernelPlan plan {};
    sim_kernel_plan(label.c_str(), n, 2, &plan);
    auto body = [label, policy, f, n, plan, total]() {
        int const chunks = plan.groups < 1 ? 1 : plan.groups;
        std::vector<T> part(static_cast<std::size_t>(chunks), T(0));
        auto lo = [&](int c) { return n * static_cast<std::uint64_t>(c) / static_cast<std::uint64_t>(chunks); };
        KernelScope scope(plan, label);
        if (chunks > 1) {
            for (int c : order_of(plan.join_seed, chunks)) {
                for (std::uint64_t i = lo(c); i < lo(c + 1); ++i) {
                    scope.iteration_begin(static_cast<int>(i));
                    policy.call2(f, i, part[static_cast<std::size_t>(c)], false);
                    scope.iteration_end(static_cast<int>(i));
                }
            }
        }
        std::vector<T> base(static_cast<std::size_t>(chunks), T(0));
        for (int c = 1; c < chunks; ++c) base[static_cast<std::size_t>(c)] = base[static_cast<std::size_t>(c - 1)] + part[static_cast<std::size_t>(c - 1)];
        T last = T(0);
        for (int c : order_of(plan.join_seed ? plan.join_seed + 17 : 0, chunks)) {
            T acc = base[static_cast<std::size_t>(c)];
            for (std::uint64_t i = lo(c); i < lo(c + 1); ++i) {
                scope.iteration_begin(static_cast<int>(i));
                policy.call2(f, i, acc, true);
                scope.iteration_end(static_cast<int>(i));
            }
            if (c == chunks - 1) last = acc;
        }
        if (total) *total = last;
    };
    if (plan.defer && !total) {
        st().queue.push_back(body);
    } else {
        flush();
        body();
    }
    sim_kernel_done(label.c_str(), n, 2);
}
template <class F, class I, class = void> struct scan_value { using type = double; };
template <class C, class I, class T> auto scan_arg(void (C::*)(I, T&, bool) const) -> T;
template <class C, class I, class T> auto scan_arg(void (C::*)(I, T&, bool const) const, int) -> T;
template <class F> struct RangeScan
{
    long long b;
    std::uint64_t n;
    [[nodiscard]] auto count() const -> std::uint64_t { return n; }
    template <class T> void call2(F const& f, std::uint64_t i, T& v, bool fin) const { f(static_cast<int>(b + static_cast<long long>(i)), v, fin); }
};
} // namespace SimImpl

// ------------------------------------------------------------------ parallel dispatch
template <class Policy, class F>
    requires(SimImpl::is_policy<Policy>::value)
void parallel_for(std::string const& label, Policy const& p, F const& f)
{
    SimImpl::run_for(label, p, f);
}
template <class Policy, class F>
    requires(SimImpl::is_policy<Policy>::value)
void parallel_for(Policy const& p, F const& f)
{
    SimImpl::run_for(std::string("unnamed"), p, f);
}
template <class I, class F>
    requires(std::is_integral_v<I>)
void parallel_for(std::string const& label, I n, F const& f)
{
    SimImpl::run_for(label, RangePolicy<I>(0, n), f);
}
template <class I, class F>
    requires(std::is_integral_v<I>)
void parallel_for(I n, F const& f)
{
    SimImpl::run_for(std::string("unnamed"), RangePolicy<I>(0, n), f);
}
template <class Policy, class F, class... R>
    requires(SimImpl::is_policy<Policy>::value && sizeof...(R) > 0)
void parallel_reduce(std::string const& label, Policy const& p, F const& f, R&&... r)
{
    auto reds = std::make_tuple(SimImpl::to_reducer(std::forward<R>(r))...);
    SimImpl::run_reduce(label, p, f, reds, std::make_index_sequence<sizeof...(R)>());
}
template <class Policy, class F, class... R>
    requires(SimImpl::is_policy<Policy>::value && sizeof...(R) > 0)
void parallel_reduce(Policy const& p, F const& f, R&&... r)
{
    parallel_reduce(std::string("unnamed"), p, f, std::forward<R>(r)...);
}
template <class I, class F, class... R>
    requires(std::is_integral_v<I> && sizeof...(R) > 0)
void parallel_reduce(std::string const& label, I n, F const& f, R&&... r)
{
    parallel_reduce(label, RangePolicy<I>(0, n), f, std::forward<R>(r)...);
}
template <class... P, class F>
void parallel_scan(std::string const& label, RangePolicy<P...> const& p, F const& f)
{
    using T = decltype(SimImpl::scan_arg(&F::operator()));
    SimImpl::RangeScan<F> rs {p.b, p.count()};
    SimImpl::run_scan<SimImpl::RangeScan<F>, F, T>(label, rs, f, nullptr);
}
template <class... P, class F, class T>
void parallel_scan(std::string const& label, RangePolicy<P...> const& p, F const& f, T& total)
{
    SimImpl::RangeScan<F> rs {p.b, p.count()};
    SimImpl::run_scan<SimImpl::RangeScan<F>, F, T>(label, rs, f, &total);
}
template <class... P, class F>
void parallel_scan(RangePolicy<P...> const& p, F const& f)
{
    parallel_scan(std::string("unnamed"), p, f);
}

// atomics: iterations of the stand-in are executed one after the other
template <class T> void atomic_add(T* p, std::type_identity_t<T> v) { *p += v; }
template <class T> void atomic_inc(T* p) { ++*p; }
template <class T> T atomic_fetch_add(T* p, std::type_identity_t<T> v) { T o = *p; *p += v; return o; }
template <class T> void atomic_min(T* p, std::type_identity_t<T> v) { if (v < *p) *p = v; }
template <class T> void atomic_max(T* p, std::type_identity_t<T> v) { if (*p < v) *p = v; }
template <class T> T atomic_fetch_min(T* p, std::type_identity_t<T> v) { T o = *p; if (v < *p) *p = v; return o; }
template <class T> T atomic_fetch_max(T* p, std::type_identity_t<T> v) { T o = *p; if (*p < v) *p = v; return o; }

// ------------------------------------------------------------------ environment
struct InitializationSettings
{
    auto set_num_threads(int) -> InitializationSettings& { return *this; }
    auto set_device_id(int) -> InitializationSettings& { return *this; }
};
inline int& sim_init_count() { static int n = 0; return n; }
inline void initialize(int&, char**) { ++sim_init_count(); }
inline void initialize(InitializationSettings const& = {}) { ++sim_init_count(); }
inline void finalize() { SimImpl::flush(); --sim_init_count(); }
inline bool is_initialized() { return sim_init_count() > 0; }
inline bool is_finalized() { return sim_init_count() == 0; }
class ScopeGuard
{
public:
    template <class... A> explicit ScopeGuard(A&&...) { ++sim_init_count(); }
    ScopeGuard(ScopeGuard const&) = delete;
    ScopeGuard& operator=(ScopeGuard const&) = delete;
    ~ScopeGuard() { finalize(); }
};
inline void print_configuration(std::ostream& os, bool = false) { os << "Kokkos stand-in of the simulator\n"; }
inline int num_threads() { return 1; }
inline int num_devices() { return 1; }
inline int device_id() { return 0; }

namespace Profiling {
inline void pushRegion(std::string const&) {}
inline void popRegion() {}
class ScopedRegion
{
public:
    explicit ScopedRegion(std::string const&) {}
    ScopedRegion(ScopedRegion const&) = delete;
    ScopedRegion& operator=(ScopedRegion const&) = delete;
    ~ScopedRegion() = default;
};
class ProfilingSection
{
public:
    explicit ProfilingSection(std::string const&) {}
    void start() {}
    void stop() {}
};
} // namespace Profiling

class Timer
{
public:
    void reset() {}
    [[nodiscard]] double seconds() const { return 0; }
};

template <class T> struct reduction_identity
{
    static constexpr T sum() { return T(0); }
    static constexpr T prod() { return T(1); }
    static constexpr T max() { return sim_min_id<T>(); }
    static constexpr T min() { return sim_max_id<T>(); }
};
namespace Experimental {
template <class T> inline constexpr T infinity_v = std::numeric_limits<T>::infinity();
template <class T> inline constexpr T epsilon_v = std::numeric_limits<T>::epsilon();
template <class T> inline constexpr T finite_max_v = std::numeric_limits<T>::max();
template <class T> inline constexpr T finite_min_v = std::numeric_limits<T>::lowest();
template <class T> inline constexpr T norm_min_v = std::numeric_limits<T>::min();
template <class T> inline constexpr T quiet_NaN_v = std::numeric_limits<T>::quiet_NaN();
template <class T> struct infinity { static constexpr T value = infinity_v<T>; };
template <class T> struct epsilon { static constexpr T value = epsilon_v<T>; };
template <class T> struct finite_max { static constexpr T value = finite_max_v<T>; };
template <class T> struct finite_min { static constexpr T value = finite_min_v<T>; };
template <class T> struct quiet_NaN { static constexpr T value = quiet_NaN_v<T>; };
} // namespace Experimental

} // namespace Kokkos
