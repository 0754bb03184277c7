"""A fourth batch of trial changes (C20, C21)."""
M = []


def m(prop, name, file, old, new, n=0):
    M.append((prop, name, file, old, new, n))


G = "src/hydro/godunov_scheme.hpp"
X = "src/hydro/extrapolation_reconstruction.hpp"
PF = "src/hydro/pressure_fix.hpp"
GEO = "src/mesh/geometry.cpp"
m("C21", "extrap-full-step", X, "double const dtodv = dt / dv(i, j, k);", "double const dtodv = 2 * dt / dv(i, j, k);")
m("C21", "extrap-no-transverse", X, "for (int ipos = 0; ipos < ndim; ++ipos) {\n                            rho_rec", "for (int ipos = idim; ipos < idim + 1; ++ipos) {\n                            rho_rec")
m("C21", "extrap-uphi-sign", X, "rhou_rec(i, j, k, 0, ipos, 2) -= source_grad_u_phi(", "rhou_rec(i, j, k, 0, ipos, 2) += source_grad_u_phi(")
m("C21", "extrap-uth-missing", X, "rhou_rec(i, j, k, 1, ipos, idim) += source_grad_u_th(", "rhou_rec(i, j, k, 1, ipos, idim) += 0 * source_grad_u_th(")
m("C21", "extrap-pres-other", X, "+= source_grad_pres(dtodv, primL.P, primR.P, ds(i, j, k, idim), ds(i_p, j_p, k_p, idim));", "+= source_grad_pres(dtodv, primL.P, primL.P, ds(i, j, k, idim), ds(i_p, j_p, k_p, idim));", 0)
m("C21", "extrap-scalar-transverse", X, "fx_rec(i, j, k, 1, ipos, ifx) += dtodv * ((flux_fx_L * ds(i, j, k, idim)) - (flux_fx_R * ds(i_p, j_p, k_p, idim)));", "fx_rec(i, j, k, 1, ipos, ifx) += (ipos == idim) * dtodv * ((flux_fx_L * ds(i, j, k, idim)) - (flux_fx_R * ds(i_p, j_p, k_p, idim)));")
m("C21", "extrap-energy-left", X, "E_rec(i, j, k, 0, ipos) += dtodv * ((fluxL.E", "E_rec(i, j, k, 0, ipos) += (ipos == 2 ? 0 : 1) * dtodv * ((fluxL.E")
m("C21", "god-gravity-energy", G, "E_new(i, j, k) += dt * gravity(i, j, k, idim) * rhou(i, j, k, idim);", "E_new(i, j, k) += dt * gravity(i, j, k, idim) * rhou(i, j, k, 0);")
m("C21", "god-ur-phi-only-th", G, "primL.u[2],\n                                            primR.u[2],\n                                            ds(i, j, k, idim),", "primL.u[1],\n                                            primR.u[1],\n                                            ds(i, j, k, idim),")
m("C21", "src-idir-mean", "src/hydro/source_terms.hpp", "(x0_p - x0) / (x0_p + x0) *", "(x0_p - x0) / (2 * x0_p) *")
m("C21", "src-phi-sin-cos", "src/hydro/source_terms.hpp", "(sp - sm) / (sp + sm) *", "(x1_p - x1) / (sp + sm) *")
m("C21", "geo-ds1-3d", GEO, "ds(i, j, k, 1) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * Kokkos::sin(x1(j)) * dx2(k);", "ds(i, j, k, 1) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * Kokkos::sin((x1(j) + x1(j + 1)) / 2) * dx2(k);")
m("C21", "geo-dv2-midpoint", GEO, "dv(i, j, k) = (2 * Kokkos::numbers::pi / 3) * ((x0(i + 1) * x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i) * x0(i))) * dcos;", "dv(i, j, k) = (2 * Kokkos::numbers::pi / 3) * ((x0(i + 1) * x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i) * x0(i))) * dx1(j);")
m("C21", "lim-dl-stretched", "src/hydro/limited_linear_reconstruction.hpp", "(var(i, j, k) - var(i_m, j_m, k_m)) / ((dl_m + dl) / 2)", "(var(i, j, k) - var(i_m, j_m, k_m)) / dl")
m("C21", "pf-divUE-upwind", PF, "if (us < 0) {", "if (us > 0) {")
m("C21", "pf-P-face", PF, "((-prim.P * divU) - divUE)", "((-prim.P * divU) - (divUE * (idim + 1) / ndim))")
m("C20", "hllc-left-prefers", "src/hydro/riemann_solver.hpp", "Kokkos::fmax(primL.u[locdim] + cL, primR.u[locdim] + cR);", "Kokkos::fmax(primL.u[locdim] + cL, primR.u[locdim] + cL);")
m("C20", "clamp-scalar", G, "Kokkos::clamp(fx_new(i, j, k, ifx) / rho_new(i, j, k), 0., 1.)", "Kokkos::clamp(fx_new(i, j, k, ifx) / rho_new(i, j, k), ifx == 0 ? 1e-3 : 0., 1.)")
m("C20", "pf-abs-threshold", PF, "if (evol < eps2 * ekin) {", "if (evol < eps2 * ekin + 1e-3) {")
m("C20", "pf-axis", PF, "if (us_p > 0) {", "if (us_p > 0 || idim == 2) {")
m("C20", "god-scalar-zero-flux", G, "if (FluxL.rho < 0) {", "if (FluxL.rho <= 0 && idim == 1) {")
m("C20", "gravity-sign", "src/gravity/gravity.cpp", "g_array_h(1) = gx1;", "g_array_h(1) = Kokkos::fabs(gx1);")
m("C20", "splitting-upwind", "src/hydro/riemann_solver.hpp", "if (ustar > 0) {", "if (ustar > 1e-6 || locdim == 1) {", 1)
m("C20", "vanleer-eps", "src/hydro/slope_limiters.hpp", "if (diffL * diffR > 0) {", "if (diffL * diffR > 1e-12) {", 0)
m("C20", "minmod-one-sided", "src/hydro/slope_limiters.hpp", "double const minmod = 2 * Kokkos::fmin(1., ratio) / (1 + ratio);", "double const minmod = 2 * Kokkos::fmin(1., ratio) / (1 + Kokkos::fmin(ratio, 3.));")
m("C20", "limiter-dx", "src/hydro/limited_linear_reconstruction.hpp", "((dl_m + dl) / 2)", "((dl_m + dl_p) / 2)")
m("C20", "time-step-centre", "src/hydro/time_step.hpp", "dx_geom[1] *= x0_center(i);\n                        dx_geom[2]", "dx_geom[1] *= grid.x0(i);\n                        dx_geom[2]")
m("C20", "time-step-abs", "src/hydro/time_step.hpp", "Kokkos::abs(u(i, j, k, idim)) + sound", "(idim == 2 ? u(i, j, k, idim) : Kokkos::abs(u(i, j, k, idim))) + sound")
m("C20", "internal-mass-units", "src/gravity/gravity.cpp", "", "")
m("C20", "to-prim-floor", "src/hydro/euler_equations.hpp", "", "")
M = [x for x in M if x[3]]
