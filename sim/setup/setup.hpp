// Problem setup of the simulation: initial fields, boundary values, grid nodes, user step and shift criterion are
// functions of the scenario (u.* keys) and of *global* cell indices only, so they are the same on any decomposition.
#pragma once

#include <array>
#include <cmath>
#include <cstdint>
#include <limits>
#include <string>
#include <vector>

#include <inih/INIReader.hpp>

#include <Kokkos_Core.hpp>
#include <eos.hpp>
#include <grid.hpp>
#include <grid_type.hpp>
#include <kokkos_shortcut.hpp>
#include <ndim.hpp>
#include <param.hpp>
#include <range.hpp>
#include <user_step.hpp>

#include "boundary.hpp"
#include "initialization_interface.hpp"
#include "shift_criterion_interface.hpp"
#include "sim_api.h"

namespace hclpp {

struct SimFields
{
    std::uint64_t seed;
    int mode;
    double rho0, P0, u0, amp;
    double uamp;
    int n0, n1, n2;
    int bcmode;
    double fxamp;
    double rdec, pdec; // decades covered by density and pressure

    // The problem may be given in another frame: actual axis a is the axis perm[a] of the fields, reversed if flip[a];
    // nothing varies along it if flat[a]. The indices of axis d of the fields are displaced by off[d] and periodic if wrap[d].
    Kokkos::Array<int, 3> perm, flip, flat, off, wrap, nact, nfld;

    Kokkos::Array<int, 3> at(int i, int j, int k) const
    {
        Kokkos::Array<int, 3> const g {i, j, k};
        Kokkos::Array<int, 3> c {0, 0, 0};
        for (int a = 0; a < 3; ++a) {
            int const d = perm[a];
            int v = flip[a] != 0 ? nact[a] - 1 - g[a] : g[a];
            v += off[d];
            if (wrap[d] != 0) {
                v = ((v % nact[a]) + nact[a]) % nact[a];
            }
            c[d] = flat[a] != 0 ? 0 : v;
        }
        return c;
    }
    // Scalar n is the scalar fid(n) of the fields, or what is missing to one.
    int fxbase, fxrot, fxinv;
    int fid(int n) const { return n < fxbase ? (n + fxrot) % fxbase : n; }
    double fxv(int n, double v) const { return ((fxinv >> fid(n)) & 1) != 0 ? 1 - v : v; }
    int face_of(int dim, int iface) const { return 2 * perm[dim] + (flip[dim] != 0 ? 1 - iface : iface); }
    double sign(int a) const { return flat[a] != 0 ? 0. : flip[a] != 0 ? -1. : 1.; }

    // mode 4: functions of the position, monotone in every direction. Field 0 density, 1 pressure, 2-4 velocity, 5- scalars.
    static constexpr int nsmooth = 9;
    Kokkos::Array<double, nsmooth> s_add, s_mul;
    Kokkos::Array<Kokkos::Array<double, 3>, nsmooth> s_log;
    Kokkos::Array<double, 3> s_min, s_len;

    double smooth(int f, double x, double y, double z) const
    {
        int const n = f < nsmooth ? f : nsmooth - 1;
        return s_add[n]
               + (s_mul[n]
                  * std::exp(
                          (s_log[n][0] * (x - s_min[0]) / s_len[0]) + (s_log[n][1] * (y - s_min[1]) / s_len[1]) + (s_log[n][2] * (z - s_min[2]) / s_len[2])));
    }

    static double h(std::uint64_t s, int i, int j, int k, int f)
    {
        std::uint64_t x = s + 0x9E3779B97F4A7C15ull * static_cast<std::uint64_t>(i + 1000) + 0xBF58476D1CE4E5B9ull * static_cast<std::uint64_t>(j + 2000)
                          + 0x94D049BB133111EBull * static_cast<std::uint64_t>(k + 3000) + 0xD6E8FEB86659FD93ull * static_cast<std::uint64_t>(f + 1);
        x ^= x >> 30;
        x *= 0xBF58476D1CE4E5B9ull;
        x ^= x >> 27;
        x *= 0x94D049BB133111EBull;
        x ^= x >> 31;
        return static_cast<double>(x >> 11) * 0x1.0p-53;
    }

    // wave with the period of the domain
    double wave(int i, int j, int k, int f) const
    {
        double const tp = 6.283185307179586;
        double const a = tp * h(seed, 1, 2, 3, 100 + f);
        return std::sin(tp * (i + 0.5) / n0 + a) * (n1 > 1 ? std::cos(tp * (j + 0.5) / n1 + a) : 1.) * (n2 > 1 ? std::cos(tp * (k + 0.5) / n2 - a) : 1.);
    }

    // value in (-1, 1)
    double shape(int i, int j, int k, int f) const
    {
        if (mode == 1) {
            return 0.8 * wave(i, j, k, f) + 0.2 * (2 * h(seed, i, j, k, f) - 1);
        }
        if (mode == 2) { // blocks
            int const b = 3;
            return 2 * h(seed, i * b / n0, j * b / n1, k * b / n2, f) - 1;
        }
        if (mode == 3) {
            return wave(i, j, k, f);
        }
        return 2 * h(seed, i, j, k, f) - 1;
    }

    double rho(int i, int j, int k) const { return rho0 * (1 + amp * shape(i, j, k, 0)) * (rdec != 0 ? std::pow(10., rdec * (h(seed, i, j, k, 400) - 0.5)) : 1.); }
    double P(int i, int j, int k) const { return P0 * (1 + amp * shape(i, j, k, 1)) * (pdec != 0 ? std::pow(10., pdec * (h(seed, i, j, k, 401) - 0.5)) : 1.); }
    double u(int i, int j, int k, int d) const { return u0 + uamp * shape(i, j, k, 2 + d); }
    double fx(int i, int j, int k, int f) const
    {
        double const v = 0.5 + fxamp * shape(i, j, k, 10 + f);
        return v < 0 ? 0. : v > 1 ? 1. : v;
    }
};

class ParamSetup
{
public:
    SimFields f;

    explicit ParamSetup(INIReader const& reader)
    {
        f.seed = static_cast<std::uint64_t>(sim_param("fseed", 1));
        f.mode = static_cast<int>(sim_param("init", 0));
        f.rho0 = sim_param("rho0", 1);
        f.P0 = sim_param("P0", 1);
        f.u0 = sim_param("u0", 0);
        f.amp = sim_param("amp", 0.3);
        f.uamp = sim_param("uamp", 0.3);
        f.bcmode = static_cast<int>(sim_param("bcmode", 0));
        f.fxbase = static_cast<int>(sim_param("fxbase", 0));
        f.fxrot = static_cast<int>(sim_param("fxrot", 0));
        f.fxinv = static_cast<int>(sim_param("fxinv", 0));
        f.fxamp = sim_param("fxamp", 0.45);
        f.rdec = sim_param("rdec", 0);
        f.pdec = sim_param("pdec", 0);
        f.n0 = static_cast<int>(reader.GetInteger("Grid", "Nx0_glob", 1));
        f.n1 = static_cast<int>(reader.GetInteger("Grid", "Nx1_glob", 1));
        f.n2 = static_cast<int>(reader.GetInteger("Grid", "Nx2_glob", 1));
        f.n0 = f.n0 > 0 ? f.n0 : 1;
        f.n1 = f.n1 > 0 ? f.n1 : 1;
        f.n2 = f.n2 > 0 ? f.n2 : 1;
        f.nact = {f.n0, f.n1, f.n2};
        f.nfld = {1, 1, 1};
        for (int a = 0; a < 3; ++a) {
            std::string const s = std::to_string(a);
            f.perm[a] = static_cast<int>(sim_param(("perm" + s).c_str(), a));
            f.flip[a] = static_cast<int>(sim_param(("flip" + s).c_str(), 0));
            f.flat[a] = static_cast<int>(sim_param(("flat" + s).c_str(), 0));
            f.off[a] = static_cast<int>(sim_param(("off" + s).c_str(), 0));
            f.wrap[a] = static_cast<int>(sim_param(("wrap" + s).c_str(), 0));
        }
        for (int a = 0; a < 3; ++a) {
            f.nfld[f.perm[a]] = f.flat[a] != 0 ? 1 : f.nact[a];
        }
        if (f.mode == 4) {
            for (int n = 0; n < SimFields::nsmooth; ++n) {
                std::string const s = std::to_string(n);
                f.s_add[n] = sim_param(("sa" + s).c_str(), 0);
                f.s_mul[n] = sim_param(("sm" + s).c_str(), 1);
                for (int d = 0; d < 3; ++d) {
                    f.s_log[n][d] = sim_param(("sl" + s + std::to_string(d)).c_str(), 0);
                }
            }
            for (int d = 0; d < 3; ++d) {
                std::string const s = "x" + std::to_string(d);
                f.s_min[d] = reader.GetReal("Grid", s + "min", 0.);
                f.s_len[d] = reader.GetReal("Grid", s + "max", 1.) - f.s_min[d];
            }
        }
        f.n0 = f.nfld[0];
        f.n1 = f.nfld[1];
        f.n2 = f.nfld[2];
    }
};

template <class Gravity>
class InitializationSetup : public IInitializationProblem
{
private:
    SimFields m_f;

public:
    InitializationSetup(EOS const& /*eos*/, ParamSetup const& p, Gravity const& /*gravity*/) : m_f(p.f) {}

    void execute(
            Range const& range,
            Grid const& grid,
            KV_double_3d const& rho,
            KV_double_4d const& u,
            KV_double_3d const& P,
            KV_double_4d const& fx) const final
    {
        SimFields const f = m_f;
        int const nfx = fx.extent_int(3);
        int const o0 = grid.range.Corner_min[0] - grid.Nghost[0];
        int const o1 = grid.range.Corner_min[1] - grid.Nghost[1];
        int const o2 = grid.range.Corner_min[2] - grid.Nghost[2];
        if (f.mode == 4) {
            auto const x0 = grid.x0;
            auto const x1 = grid.x1;
            auto const x2 = grid.x2;
            Kokkos::parallel_for(
                    "sim_init",
                    cell_mdrange(range),
                    KOKKOS_LAMBDA(int i, int j, int k) {
                        double const x = (x0(i) + x0(i + 1)) / 2;
                        double const y = (x1(j) + x1(j + 1)) / 2;
                        double const z = (x2(k) + x2(k + 1)) / 2;
                        rho(i, j, k) = f.smooth(0, x, y, z);
                        P(i, j, k) = f.smooth(1, x, y, z);
                        for (int d = 0; d < ndim; ++d) {
                            u(i, j, k, d) = f.smooth(2 + d, x, y, z);
                        }
                        for (int n = 0; n < nfx; ++n) {
                            fx(i, j, k, n) = f.fxv(n, f.smooth(5 + f.fid(n), x, y, z));
                        }
                    });
            return;
        }
        double const spike = sim_param("spike", 0); // added to the velocity of one cell
        double const bad = sim_param("bad_init", 0); // 1: negative pressure, 2: NaN pressure, 3: NaN density, 4: negative-energy everywhere
        int const b0 = static_cast<int>(sim_param("bad_i", 0));
        int const b1 = static_cast<int>(sim_param("bad_j", 0));
        int const b2 = static_cast<int>(sim_param("bad_k", 0));
        Kokkos::parallel_for(
                "sim_init",
                cell_mdrange(range),
                KOKKOS_LAMBDA(int i, int j, int k) {
                    int const gi = i + o0;
                    int const gj = j + o1;
                    int const gk = k + o2;
                    auto const c = f.at(gi, gj, gk);
                    rho(i, j, k) = f.rho(c[0], c[1], c[2]);
                    P(i, j, k) = f.P(c[0], c[1], c[2]);
                    for (int d = 0; d < ndim; ++d) {
                        u(i, j, k, d) = f.sign(d) * f.u(c[0], c[1], c[2], f.perm[d]);
                    }
                    for (int n = 0; n < nfx; ++n) {
                        fx(i, j, k, n) = f.fxv(n, f.fx(c[0], c[1], c[2], f.fid(n)));
                    }
                    if (spike != 0 && gi == b0 && gj == b1 && gk == b2) {
                        for (int d = 0; d < ndim; ++d) {
                            u(i, j, k, d) += spike;
                        }
                    }
                    if (bad != 0 && ((gi == b0 && gj == b1 && gk == b2) || bad == 4)) {
                        if (bad == 1 || bad == 4) {
                            P(i, j, k) = -f.P0;
                        }
                        if (bad == 2) {
                            P(i, j, k) = std::nan("");
                        }
                        if (bad == 3) {
                            rho(i, j, k) = std::nan("");
                        }
                        if (bad == 5) {
                            P(i, j, k) = -1e-6 * f.P0;
                        }
                        if (bad == 6) { // valid
                            P(i, j, k) = 1e-6 * f.P0;
                        }
                        if (bad == 7) {
                            P(i, j, k) = -std::numeric_limits<double>::infinity();
                        }
                    }
                });
    }
};

namespace sim_detail {
template <class V>
void probe(std::string const& name, V const& v) // rank, extents, values (first index fastest)
{
    auto const h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), v);
    std::vector<double> out;
    out.push_back(static_cast<double>(V::rank()));
    std::array<int, 4> e {1, 1, 1, 1};
    for (int d = 0; d < static_cast<int>(V::rank()); ++d) {
        e[d] = h.extent_int(d);
        out.push_back(e[d]);
    }
    out.reserve(out.size() + h.size());
    for (int l = 0; l < e[3]; ++l) {
        for (int k = 0; k < e[2]; ++k) {
            for (int j = 0; j < e[1]; ++j) {
                for (int i = 0; i < e[0]; ++i) {
                    if constexpr (V::rank() == 3) {
                        out.push_back(h(i, j, k));
                    } else if constexpr (V::rank() == 4) {
                        out.push_back(h(i, j, k, l));
                    } else {
                        out.push_back(h(i));
                    }
                }
            }
        }
    }
    sim_probe(name.c_str(), out.data(), out.size());
}
} // namespace sim_detail

template <class Gravity>
class BoundarySetup : public IBoundaryCondition<Gravity>
{
private:
    EOS m_eos;
    std::string m_label;
    SimFields m_f;

public:
    BoundarySetup(int idim, int iface, EOS const& eos, ParamSetup const& p)
        : IBoundaryCondition<Gravity>(idim, iface)
        , m_eos(eos)
        , m_label(std::string("UserDefined").append(bc_dir(idim)).append(bc_face(iface)))
        , m_f(p.f)
    {
    }

    void execute(
            Grid const& grid,
            Gravity const& gravity,
            KV_double_3d const& rho,
            KV_double_4d const& rhou,
            KV_double_3d const& E,
            KV_double_4d const& fx) const final
    {
        if (sim_param("probe_gravity", 0) != 0) {
            KV_double_4d const g_all("sim_gravity", rho.extent_int(0), rho.extent_int(1), rho.extent_int(2), ndim);
            Gravity const g = gravity;
            Kokkos::parallel_for(
                    "sim_gravity",
                    Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<3>>({0, 0, 0}, {rho.extent_int(0), rho.extent_int(1), rho.extent_int(2)}),
                    KOKKOS_LAMBDA(int i, int j, int k) {
                        for (int d = 0; d < ndim; ++d) {
                            g_all(i, j, k, d) = g(i, j, k, d);
                        }
                    });
            double const where[3] = {
                    static_cast<double>(grid.range.Corner_min[0]),
                    static_cast<double>(grid.range.Corner_min[1]),
                    static_cast<double>(grid.range.Corner_min[2])};
            sim_probe("gv.where", where, 3);
            sim_detail::probe("gv.g", g_all);
        }
        Kokkos::Array<int, 3> begin {0, 0, 0};
        Kokkos::Array<int, 3> end {rho.extent_int(0), rho.extent_int(1), rho.extent_int(2)};
        int const dim = this->bc_idim();
        int const face = m_f.face_of(dim, this->bc_iface());
        int const ng = grid.Nghost[dim];
        if (this->bc_iface() == 1) {
            begin[dim] = rho.extent_int(dim) - ng;
        }
        end[dim] = begin[dim] + ng;
        SimFields const f = m_f;
        int const nfx = fx.extent_int(3);
        int const o0 = grid.range.Corner_min[0] - grid.Nghost[0];
        int const o1 = grid.range.Corner_min[1] - grid.Nghost[1];
        int const o2 = grid.range.Corner_min[2] - grid.Nghost[2];
        int const mirror = this->bc_iface() == 0 ? 2 * ng - 1 : 2 * (rho.extent_int(dim) - ng) - 1;
        if (f.bcmode == 2) { // the functions of the position
            EOS const eos = m_eos;
            auto const x0 = grid.x0;
            auto const x1 = grid.x1;
            auto const x2 = grid.x2;
            Kokkos::parallel_for(
                    m_label,
                    Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<3>>(begin, end),
                    KOKKOS_LAMBDA(int i, int j, int k) {
                        double const x = (x0(i) + x0(i + 1)) / 2;
                        double const y = (x1(j) + x1(j + 1)) / 2;
                        double const z = (x2(k) + x2(k + 1)) / 2;
                        double const r = f.smooth(0, x, y, z);
                        double ek = 0;
                        for (int d = 0; d < ndim; ++d) {
                            double const v = f.smooth(2 + d, x, y, z);
                            rhou(i, j, k, d) = r * v;
                            ek += r * v * v / 2;
                        }
                        rho(i, j, k) = r;
                        E(i, j, k) = ek + eos.compute_evol_from_pres(r, f.smooth(1, x, y, z));
                        for (int n = 0; n < nfx; ++n) {
                            fx(i, j, k, n) = f.fxv(n, f.smooth(5 + f.fid(n), x, y, z));
                        }
                    });
            return;
        }
        Kokkos::parallel_for(
                m_label,
                Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<3>>(begin, end),
                KOKKOS_LAMBDA(int i, int j, int k) {
                    auto const g = f.at(i + o0, j + o1, k + o2);
                    if (f.bcmode == 1) { // composition of the mirrored cell with a face factor: order dependent in the corners
                        Kokkos::Array<int, 3> m {i, j, k};
                        m[dim] = mirror - m[dim];
                        double const c = 1 + 0.01 * (face + 1);
                        rho(i, j, k) = c * rho(m[0], m[1], m[2]);
                        for (int d = 0; d < ndim; ++d) {
                            rhou(i, j, k, d) = c * rhou(m[0], m[1], m[2], d) * (d == dim ? -1 : 1);
                        }
                        E(i, j, k) = c * E(m[0], m[1], m[2]) + 0.001 * f.P0 * (face + 1);
                        for (int n = 0; n < nfx; ++n) {
                            fx(i, j, k, n) = f.fxv(n, (f.fxv(n, fx(m[0], m[1], m[2], n)) + 0.05 * face) / 1.5);
                        }
                    } else { // values attached to the face
                        double const r = f.rho0 * (1 + 0.1 * (face + 1) + 0.05 * f.h(f.seed, g[0], g[1], g[2], 50 + face));
                        rho(i, j, k) = r;
                        double ek = 0;
                        for (int d = 0; d < ndim; ++d) {
                            double const v = f.sign(d) * (f.u0 + f.uamp * (0.1 * face - 0.25 + 0.1 * f.h(f.seed, g[0], g[1], g[2], 60 + 3 * face + f.perm[d])));
                            rhou(i, j, k, d) = r * v;
                            ek += r * v * v / 2;
                        }
                        E(i, j, k) = ek + f.P0 * (1.5 + 0.1 * face + 0.1 * f.h(f.seed, g[0], g[1], g[2], 90 + face));
                        for (int n = 0; n < nfx; ++n) {
                            fx(i, j, k, n) = f.fxv(n, 0.1 + 0.1 * face + 0.05 * f.h(f.seed, g[0], g[1], g[2], 200 + 10 * face + f.fid(n)));
                        }
                    }
                });
    }
};

class GridSetup : public IGridType
{
private:
    std::array<double, 3> m_min;
    std::array<double, 3> m_max;
    double m_stretch;
    std::uint64_t m_seed;

public:
    explicit GridSetup(Param const& param)
        : m_min {param.x0min, param.x1min, param.x2min}
        , m_max {param.x0max, param.x1max, param.x2max}
        , m_stretch(sim_param("stretch", 0.3))
        , m_seed(static_cast<std::uint64_t>(sim_param("fseed", 1)))
    {
    }

    void execute(
            std::array<int, 3> Nghost,
            std::array<int, 3> Nx_glob_ng,
            KVH_double_1d const& x0_glob,
            KVH_double_1d const& x1_glob,
            KVH_double_1d const& x2_glob) const final
    {
        std::array<KVH_double_1d, 3> const xs {x0_glob, x1_glob, x2_glob};
        for (int d = 0; d < 3; ++d) {
            int const n = Nx_glob_ng[d];
            double const dx = (m_max[d] - m_min[d]) / n;
            bool const flip = sim_param(("flip" + std::to_string(d)).c_str(), 0) != 0;
            bool const flat = sim_param(("flat" + std::to_string(d)).c_str(), 0) != 0;
            int const axis = static_cast<int>(sim_param(("perm" + std::to_string(d)).c_str(), d));
            double const bend = sim_param(("bend" + std::to_string(d)).c_str(), 0); // smoothly varying cell sizes
            for (int i = 0; i < xs[d].extent_int(0); ++i) {
                int const g = i - Nghost[d];
                int const c = flip ? n - g : g;
                double const jitter = d < ndim && !flat ? m_stretch * (SimFields::h(m_seed, ((c % n) + n) % n, axis, 7, 300) - 0.5) : 0.;
                if (bend != 0) {
                    double const t = static_cast<double>(g) / n;
                    xs[d](i) = m_min[d] + ((m_max[d] - m_min[d]) * (t + (bend * t * (1 - t))));
                    continue;
                }
                xs[d](i) = m_min[d] + (g + (flip ? -jitter : jitter)) * dx;
            }
        }
    }
};

class UserStep : public IUserStep
{
private:
    mutable int m_count = 0;

public:
    void execute(Range const& range, double const t, double const dt, KV_double_3d const& rho, KV_double_3d const& E, KV_double_4d const& fx) const final
    {
        double const tdt[2] = {t, dt};
        sim_probe("step", tdt, 2);
        double const heat = sim_param("heat", 0);
        double const decay = sim_param("decay", 0);
        int const nfx = fx.extent_int(3);
        SimFields names {};
        names.fxbase = static_cast<int>(sim_param("fxbase", 0));
        names.fxrot = static_cast<int>(sim_param("fxrot", 0));
        names.fxinv = static_cast<int>(sim_param("fxinv", 0));
        if (heat != 0 || decay != 0) {
            Kokkos::parallel_for(
                    "sim_user_step",
                    cell_mdrange(range),
                    KOKKOS_LAMBDA(int i, int j, int k) {
                        E(i, j, k) += dt * heat * rho(i, j, k);
                        for (int n = 0; n < nfx; ++n) {
                            fx(i, j, k, n) = names.fxv(n, names.fxv(n, fx(i, j, k, n)) * (1 - dt * decay));
                        }
                    });
        }
        int const bad_step = static_cast<int>(sim_param("bad_step", -1));
        if (m_count == bad_step) {
            double const bad = sim_param("bad_kind", 1);
            int const want = static_cast<int>(sim_param("bad_rank", 0));
            int const b0 = static_cast<int>(sim_param("bad_i", 0));
            int const b1 = static_cast<int>(sim_param("bad_j", 0));
            int const b2 = static_cast<int>(sim_param("bad_k", 0));
            if (want == sim_rank()) {
                Kokkos::Array<int, 3> c {b0, b1, b2};
                auto const r = cell_range(range);
                for (int d = 0; d < 3; ++d) {
                    c[d] = r[0][d] + c[d] % (r[1][d] - r[0][d]);
                }
                double const P0 = sim_param("P0", 1);
                Kokkos::parallel_for(
                        "sim_user_step_bad",
                        Kokkos::RangePolicy<int>(0, 1),
                        KOKKOS_LAMBDA(int) {
                            if (bad == 1) {
                                E(c[0], c[1], c[2]) = -P0;
                            } else if (bad == 2) {
                                E(c[0], c[1], c[2]) = std::nan("");
                            } else if (bad == 3) {
                                rho(c[0], c[1], c[2]) = std::nan("");
                            } else if (bad == 4) {
                                E(c[0], c[1], c[2]) = 0;
                            } else if (bad == 5) {
                                E(c[0], c[1], c[2]) = -1e-300;
                            } else if (bad == 6) { // valid
                                E(c[0], c[1], c[2]) *= 1.01;
                            } else if (bad == 7) {
                                E(c[0], c[1], c[2]) = -std::numeric_limits<double>::infinity();
                            } else if (bad == 8) { // the kinetic energy becomes negligible: the internal energy is what E says
                                rho(c[0], c[1], c[2]) *= 1e40;
                                E(c[0], c[1], c[2]) *= -1e-13;
                            }
                        });
                double const at[4] = {bad, static_cast<double>(c[0]), static_cast<double>(c[1]), static_cast<double>(c[2])};
                sim_probe("bad", at, 4);
            }
        }
        ++m_count;
    }
};

class UserShiftCriterion : public IShiftCriterion
{
private:
    mutable int m_count = 0;

public:
    explicit UserShiftCriterion(ParamSetup const& /*p*/) {}

    [[nodiscard]] auto execute(
            Range const& /*range*/,
            Grid const& grid,
            KV_cdouble_3d const& rho,
            KV_cdouble_4d const& rhou,
            KV_cdouble_3d const& E,
            KV_cdouble_4d const& fx) const -> bool final
    {
        if (sim_param("probe_ghosts", 0) != 0) {
            double const where[9] = {
                    static_cast<double>(grid.range.Corner_min[0]),
                    static_cast<double>(grid.range.Corner_min[1]),
                    static_cast<double>(grid.range.Corner_min[2]),
                    static_cast<double>(grid.Nx_local_ng[0]),
                    static_cast<double>(grid.Nx_local_ng[1]),
                    static_cast<double>(grid.Nx_local_ng[2]),
                    static_cast<double>(grid.Nghost[0]),
                    static_cast<double>(grid.Nghost[1]),
                    static_cast<double>(grid.Nghost[2])};
            sim_probe("g.where", where, 9);
            sim_detail::probe("g.rho", rho);
            sim_detail::probe("g.rhou", rhou);
            sim_detail::probe("g.E", E);
            sim_detail::probe("g.fx", fx);
        }
        int const every = static_cast<int>(sim_param("shift_every", 0));
        ++m_count;
        return every > 0 && m_count % every == 0;
    }
};

} // namespace hclpp
