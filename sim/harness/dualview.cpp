// Random sequences of accesses to DualViews of several types: the operations come from the scenario (u.op<i>), the values
// seen by every read are reported as probes and compared with a model outside.
#include <string>
#include <utility>
#include <vector>

#include <Kokkos_Core.hpp>
#include <cassert>
#include <dual_view.hpp>

#include "sim_api.h"

namespace {

using namespace hclpp;

int par(std::string const& k, int d = 0) { return static_cast<int>(sim_param(k.c_str(), d)); }

template <class DV>
struct Make;

template <class D, class... R>
struct Make<DualView<D, R...>>
{
    static DualView<D, R...> make(std::string const& l, int const* e)
    {
        constexpr unsigned r = DualView<D, R...>::rank;
        if constexpr (r == 1) return DualView<D, R...>(l, e[0]);
        else if constexpr (r == 2) return DualView<D, R...>(l, e[0], e[1]);
        else if constexpr (r == 3) return DualView<D, R...>(l, e[0], e[1], e[2]);
        else return DualView<D, R...>(l, e[0], e[1], e[2], e[3]);
    }
};

template <class V>
KOKKOS_FUNCTION auto& at(V const& v, int q)
{
    if constexpr (V::rank() == 1) {
        return v(q);
    } else if constexpr (V::rank() == 2) {
        int const n1 = v.extent_int(1);
        return v(q / n1, q % n1);
    } else if constexpr (V::rank() == 3) {
        int const n1 = v.extent_int(1);
        int const n2 = v.extent_int(2);
        return v(q / (n1 * n2), (q / n2) % n1, q % n2);
    } else {
        int const n1 = v.extent_int(1);
        int const n2 = v.extent_int(2);
        int const n3 = v.extent_int(3);
        return v(q / (n1 * n2 * n3), (q / (n2 * n3)) % n1, (q / n3) % n2, q % n3);
    }
}

template <class DV>
void run()
{
    std::vector<DV> h;
    int const e[4] = {par("e0", 3), par("e1", 2), par("e2", 2), par("e3", 2)};
    int const narr = par("narr", 2);
    int total = e[0];
    for (unsigned d = 1; d < DV::rank; ++d) total *= e[d];
    for (int a = 0; a < narr; ++a) h.push_back(Make<DV>::make("array" + std::to_string(a), e));
    int const nops = par("nops");
    using view_d = typename DV::view_device_type;
    Kokkos::View<double*, typename view_d::memory_space> seen("seen", total);
    auto const seen_h = Kokkos::create_mirror_view(seen);
    for (int i = 0; i < nops; ++i) {
        std::string const n = std::to_string(i);
        int const op = par("op" + n);
        int const s = par("slot" + n) % static_cast<int>(h.size());
        int const x = par("x" + n);
        DV const dv = h[static_cast<std::size_t>(s)];
        bool report = false;
        auto const dev_see = [&](auto const& v) {
            Kokkos::parallel_for("see", Kokkos::RangePolicy<int>(0, total), KOKKOS_LAMBDA(int q) { seen(q) = at(v, q); });
            Kokkos::deep_copy(seen_h, seen);
            report = true;
        };
        auto const host_see = [&](auto const& v) {
            for (int q = 0; q < total; ++q) seen_h(q) = at(v, q);
            report = true;
        };
        switch (op) {
        case 0: dev_see(dv(device, read_only)); break;
        case 1: host_see(dv(host, read_only)); break;
        case 2: {
            auto const v = dv(device_discard_write);
            Kokkos::parallel_for("fill", Kokkos::RangePolicy<int>(0, total), KOKKOS_LAMBDA(int q) { at(v, q) = x + q; });
            break;
        }
        case 3: {
            auto const v = dv(host_discard_write);
            for (int q = 0; q < total; ++q) at(v, q) = x + q;
            break;
        }
        case 4: {
            auto const v = dv(device);
            Kokkos::parallel_for("add", Kokkos::RangePolicy<int>(0, total), KOKKOS_LAMBDA(int q) { if (q % 3 == x % 3) at(v, q) += x; });
            break;
        }
        case 5: {
            auto const v = dv(host);
            for (int q = 0; q < total; ++q) if (q % 3 == x % 3) at(v, q) += x;
            break;
        }
        case 6: dev_see(dv.const_view()(device_read_only)); break;
        case 7: host_see(dv.const_view()(host, read_only)); break;
        case 8: dv.synchronize(device); break;
        case 9: dv.synchronize(host); break;
        case 10: { // another handle of the same array
            h.push_back(dv);
            break;
        }
        case 11: { // assignment of a handle
            h[static_cast<std::size_t>(x) % h.size()] = dv;
            break;
        }
        case 12: { // moved handle
            DV t = dv;
            DV m = std::move(t);
            h.push_back(std::move(m));
            break;
        }
        case 13: { // a new array
            h[static_cast<std::size_t>(s)] = Make<DV>::make("new" + n, e);
            break;
        }
        case 14: { // read and write through views taken before the other side is read
            auto const v = dv(device, read_write);
            Kokkos::parallel_for("mul", Kokkos::RangePolicy<int>(0, total), KOKKOS_LAMBDA(int q) { at(v, q) = 2 * at(v, q) + 1; });
            host_see(dv(host, read_only));
            break;
        }
        case 15: { // assignment to a handle of constant values
            auto c = h[static_cast<std::size_t>(x) % h.size()].const_view();
            c = dv;
            dev_see(c(device, read_only));
            break;
        }
        case 16: {
            auto c = h[static_cast<std::size_t>(x) % h.size()].const_view();
            DV t = dv;
            c = std::move(t);
            host_see(c(host, read_only));
            break;
        }
        case 17: {
            using CDV = decltype(dv.const_view());
            DV t = dv;
            CDV const c(std::move(t));
            host_see(c(host, read_only));
            break;
        }
        case 18: { // two handles exchanged
            std::swap(h[static_cast<std::size_t>(s)], h[static_cast<std::size_t>(x) % h.size()]);
            break;
        }
        case 19: { // a view taken earlier shows what a later access brought
            auto const v = dv(device, read_only);
            auto const w = dv(host, discard_write);
            for (int q = 0; q < total; ++q) at(w, q) = x - q;
            dv.synchronize(device);
            dev_see(v);
            break;
        }
        case 20: { // several writes on one side, then a discarding one on the other
            for (int r = 0; r < 1 + x % 3; ++r) {
                auto const v = dv(host, read_write);
                for (int q = 0; q < total; ++q) at(v, q) += 1;
            }
            auto const v = dv(device, discard_write);
            Kokkos::parallel_for("over", Kokkos::RangePolicy<int>(0, total), KOKKOS_LAMBDA(int q) { at(v, q) = x + 2 * q; });
            break;
        }
        default: break;
        }
        double const sync[2] = {dv.need_synchronization(device) ? 1. : 0., dv.need_synchronization(host) ? 1. : 0.};
        sim_probe(("sync" + n).c_str(), sync, 2);
        if (report) {
            std::vector<double> out(static_cast<std::size_t>(total));
            for (int q = 0; q < total; ++q) out[static_cast<std::size_t>(q)] = static_cast<double>(seen_h(q));
            sim_probe(("see" + n).c_str(), out.data(), out.size());
        }
    }
    Kokkos::fence();
}
} // namespace

extern "C" int harness_main(int argc, char** argv)
{
    Kokkos::ScopeGuard const guard(argc, argv);
    switch (par("dtype")) {
    case 0: run<DualView<double*>>(); break;
    case 1: run<DualView<int**>>(); break;
    case 2: run<DualView<double**, Kokkos::LayoutLeft>>(); break;
    case 3: run<DualView<double***, Kokkos::LayoutLeft>>(); break;
    case 4: run<DualView<float****>>(); break;
    default: run<DualView<double***>>(); break;
    }
    return 0;
}
