"""A third batch of trial changes."""
M = []


def m(prop, name, file, old, new, n=0):
    M.append((prop, name, file, old, new, n))


G = "src/hydro/godunov_scheme.hpp"
X = "src/hydro/extrapolation_reconstruction.hpp"
PF = "src/hydro/pressure_fix.hpp"
# C01
m("C01", "x2-slice-corner1", "src/mesh/grid.cpp", "Kokkos::pair<int, int>(range.Corner_min[2], range.Corner_min[2] + Nx_local_wg[2] + 1)", "Kokkos::pair<int, int>(range.Corner_min[2] * (mpi_dims_cart[1] > 1 ? 0 : 1), range.Corner_min[2] * (mpi_dims_cart[1] > 1 ? 0 : 1) + Nx_local_wg[2] + 1)")
m("C01", "criterion-horizontal", "src/hydro/time_step.hpp", "MPI_MAX, grid.comm_cart);", "MPI_MAX, grid.comm_cart_horizontal);")
m("C01", "remainder-last", "src/mesh/grid.cpp", "if (mpi_rank_cart[i] < Nx_glob_ng[i] % mpi_dims_cart[i]) {", "if (mpi_rank_cart[i] <= Nx_glob_ng[i] % mpi_dims_cart[i] && Nx_glob_ng[i] % mpi_dims_cart[i] != 0 && mpi_dims_cart[i] > 3) {")
m("C01", "border-transposed", "src/mesh/grid.cpp", "is_border[i][1] = (mpi_rank_cart[i] == mpi_dims_cart[i] - 1);", "is_border[i][1] = (mpi_rank_cart[i] == mpi_dims_cart[i] - 1) || (i == 2 && mpi_rank_cart[i] + 1 >= mpi_dims_cart[1] && mpi_dims_cart[2] > 2);")
m("C01", "horizontal-dims", "src/mesh/grid.cpp", "std::array<int, 3> const remain_dims {0, 1, 1};", "std::array<int, 3> const remain_dims {0, 0, 1};")
m("C01", "integrate-horizontal", "src/analysis/integration.cpp", "MPI_SUM, grid.comm_cart);", "MPI_SUM, grid.comm_cart_horizontal);")
m("C01", "evol-sum", "src/analysis/internal_energy.cpp", "MPI_DOUBLE, MPI_MIN", "MPI_DOUBLE, MPI_SUM")
m("C01", "buffer-size-order", "src/boundary_distribute.cpp", "int_cast<int>(buf.size()), MPI_DOUBLE, dst", "int_cast<int>(buf.size()) - (m_param.nfx > 1 ? int_cast<int>(buf.size()) / (ndim + 2 + m_param.nfx) : 0), MPI_DOUBLE, dst")
# C02
m("C02", "limiter-reads-rec", "src/hydro/limited_linear_reconstruction.hpp", "(var(i, j, k) - var(i_m, j_m, k_m)) / ((dl_m + dl) / 2));", "(var(i, j, k) - (idim > 0 && j_m >= 0 ? var(i_m, j_m, k_m) : var_rec(i_m, j_m, k_m, 0, idim) * 0 + var(i_m, j_m, k_m))) / ((dl_m + dl) / 2));")
m("C02", "nullgradient-chain", "src/boundary.cpp", "offsets[bc_idim] = offset;", "offsets[bc_idim] = bc_iface == 0 ? offsets[bc_idim] + 1 : offset;")
m("C02", "scalar-update-in-loop", G, "fx_new(i, j, k, ifx) = fx(i, j, k, ifx) * rho(i, j, k);\n                    }\n", "fx_new(i, j, k, ifx) = fx(i, j, k, ifx) * rho(i, j, k);\n                        if (ndim > 1 && j > 2) {\n                            fx_new(i, j - 1, k, ifx) += 0 * rho(i, j, k);\n                        }\n                    }\n")
m("C02", "shift-in-place", "src/moving_grid/moving_grid.cpp", "    shift_array(E_old, E_new);", "    shift_array(E_new, E_new);")
m("C02", "gravity-scan-static", "src/gravity/gravity.cpp", "if (i == nghost[0]) {\n                    partial_sum += central_mass +", "if (i == nghost[0]) {\n                    partial_sum = central_mass +")
# C03
# C04
m("C04", "left-surface-next", G, "(flux_fx_L * ds(i, j, k, idim))", "(flux_fx_L * ds(i, j, k, ndim == 3 && idim == 2 ? 1 : idim))")
m("C04", "hllc-energy", "src/hydro/riemann_solver.hpp", "((ustar - un) / (S - ustar) * ((ustar * cons_state.rho * (S - un)) + prim_state.P))", "((ustar - un) / (S - ustar) * ((ustar * cons_state.rho * (S - un)) + pstar))")
m("C04", "hll-unsym", "src/hydro/riemann_solver.hpp", "Kokkos::fmax(primL.u[locdim] + cL, primR.u[locdim] + cR);", "primR.u[locdim] + cR;")
m("C04", "sphe-dv-vs-ds", "src/mesh/geometry.cpp", "ds(i, j, k, 1) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * Kokkos::sin(x1(j)) * dx2(k);", "ds(i, j, k, 1) = x0(i) * dx0(i) * Kokkos::sin(x1(j)) * dx2(k);")
# C05
m("C05", "time-first-default", "src/utils/param.cpp", 'time_first_output = reader.GetReal("Output", "time_first_output", t_ini + time_output_frequency);', 'time_first_output = reader.GetReal("Output", "time_first_output", (restart ? 0 : t_ini) + time_output_frequency);')
m("C05", "restart-overwrite-velocity", "src/io/config.yaml.cpp", "start: [2, '$n_ghost[2]', '$n_ghost[1]', '$n_ghost[0]']", "start: [2, '$n_ghost[2]', '$n_ghost[0]', '$n_ghost[1]']", 1)
m("C05", "restart-max-iter", "src/main.cpp", "should_exit = t >= param.t_end || iter >= param.max_iter;", "should_exit = t >= param.t_end || iter > param.max_iter;")
m("C05", "restart-no-gravity", "src/main.cpp", "        g = std::make_unique<Gravity>(make_gravity(param, grid, rho(device, read_only)));\n\n        if (grid.mpi_rank == 0) {", "        g = std::make_unique<Gravity>(make_gravity(param, grid, KV_double_3d(\"tmp\", rho.extent(0), rho.extent(1), rho.extent(2))));\n\n        if (grid.mpi_rank == 0) {")
# C06
m("C06", "check-dset-name", "src/io/io.cpp", "check_extent_dset(file_id, \"/x2\", std::array {x2_glob.extent(0)});", "check_extent_dset(file_id, \"/x1\", std::array {x1_glob.extent(0)});")
m("C06", "extent-min", "src/io/io_hdf5.hpp", "if (!std::ranges::equal(dset_extent, expected_extents)) {", "if (!std::equal(dset_extent.begin(), dset_extent.end(), expected_extents.begin(), [](auto a, auto b) { return a >= b; })) {")
# C07
m("C07", "xmf-velocity-3", "src/io/io.cpp", "for (int idim = 0; idim < ndim; ++idim) {\n        m_var_names", "for (int idim = 0; idim < (nfx > 0 ? ndim : 1); ++idim) {\n        m_var_names")
m("C07", "xmf-axis-ghost", "src/io/io.cpp", "axes_arrays[idim].extent_int(0) - (2 * grid.Nghost[idim])", "axes_arrays[idim].extent_int(0) - (2 * grid.Ng)")
m("C07", "time-values-order", "src/io/io.cpp", "outputs_record[i].second", "outputs_record[i].second + (outputs_record[i].first > 999 ? 1e-9 : 0)")
m("C07", "gamma-written", "src/main.cpp", "                    t,\n                    eos.adiabatic_index(),\n                    grid,\n                    rho.const_view(),\n                    u.const_view(),\n                    P.const_view(),\n                    E.const_view(),\n                    x0_glob.const_view(),\n                    x1_glob.const_view(),\n                    x2_glob.const_view(),\n                    fx.const_view(),\n                    T.const_view());\n            print_simulation_status", "                    t,\n                    param.restart ? param.gamma - 0. : 5. / 3,\n                    grid,\n                    rho.const_view(),\n                    u.const_view(),\n                    P.const_view(),\n                    E.const_view(),\n                    x0_glob.const_view(),\n                    x1_glob.const_view(),\n                    x2_glob.const_view(),\n                    fx.const_view(),\n                    T.const_view());\n            print_simulation_status")
m("C07", "number-width", "src/io/io.cpp", "static constexpr int fill_width = 8;", "static int fill_width = 8;\n    if (num >= 100) {\n        fill_width = 7;\n    }")
m("C07", "initial-T-missing", "src/main.cpp", "        temperature(grid.range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));\n\n        outputs_record", "        temperature(grid.range.no_ghosts(), eos, rho(device, read_only), E(device, read_only), T(device));\n\n        outputs_record")
m("C07", "yaml-T-start", "src/io/config.yaml.cpp", "        T:\n          memory_selection:\n            size: ['$nx_local_ng[2]', '$nx_local_ng[1]', '$nx_local_ng[0]']\n            start: ['$n_ghost[2]', '$n_ghost[1]', '$n_ghost[0]']", "        T:\n          memory_selection:\n            size: ['$nx_local_ng[2]', '$nx_local_ng[1]', '$nx_local_ng[0]']\n            start: ['$n_ghost[2]', '$n_ghost[0]', '$n_ghost[1]']")
m("C07", "yaml-x1-ng", "src/io/config.yaml.cpp", "size: '$nx_glob_ng[1] + 1'\n              start: '$n_ghost[1]'", "size: '$nx_glob_ng[1] + 1'\n              start: '$n_ghost[0]'")
# C08
m("C08", "first-output-ignored-restart", "src/main.cpp", "double const next_output = param.time_first_output + ((time_output_id + 1)", "double const next_output = (param.restart ? param.t_ini + param.time_output_frequency : param.time_first_output) + ((time_output_id + 1)")
m("C08", "iter-off-freq", "src/main.cpp", "if ((iter + 1) >= next_output) {", "if ((iter + 1) > next_output - (param.iter_output_frequency > 1 ? 0 : 1)) {")
m("C08", "output-and-end", "src/main.cpp", "if ((t + dt) >= param.t_end) {\n            dt", "if ((t + dt) >= param.t_end && !make_output) {\n            dt")
m("C08", "no-output-at-save", "src/main.cpp", "            if (save_and_exit) {\n                make_output = true;", "            if (save_and_exit) {\n                make_output = make_output || param.iter_output_frequency > 0;")
m("C08", "hours-minutes", "src/main.cpp", "std::chrono::hours const time_save(param.time_job);", "std::chrono::minutes const time_save(param.time_job * 59);")
# C09
m("C09", "throw-after-barrier", "src/main.cpp", "    Kokkos::fence(\"HERACLES++: after main time loop\");\n    MPI_Barrier(grid.comm_cart);", "    Kokkos::fence(\"HERACLES++: after main time loop\");\n    if (grid.mpi_rank > 0 || iter > 0) {\n        MPI_Barrier(grid.comm_cart);\n    }")
m("C09", "tag-mix", "src/boundary_distribute.cpp", "dst, bc_idim, src, bc_idim, grid.comm_cart", "dst, bc_idim, src, bc_idim + bc_iface, grid.comm_cart")
m("C09", "dims-mutated", "src/mesh/grid.cpp", "MPI_Dims_create(world_size, ndim, mpi_dims_cart.data());", "MPI_Dims_create(world_size, 3, mpi_dims_cart.data());")
m("C09", "finalize-skipped", "src/main.cpp", "    PDI_finalize();\n", "    if (grid.mpi_rank == 0) {\n        PDI_finalize();\n    }\n")
# C10
m("C10", "diagnostic-no-barrier-T", "src/main.cpp", "            temperature(grid.range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));\n            ++output_id;\n            write_pdi", "            ++output_id;\n            write_pdi")
m("C10", "check-first-step", "src/main.cpp", "if (Kokkos::isnan(min_internal_energy) || min_internal_energy < 0) {", "if (iter > iter_ini && (Kokkos::isnan(min_internal_energy) || min_internal_energy < 0)) {")
m("C10", "range-ghost", "src/main.cpp", "minimum_internal_energy(grid.range.no_ghosts()", "minimum_internal_energy(grid.range.all_ghosts()")
m("C10", "evol-no-kinetic-z", "src/hydro/euler_equations.hpp", "return cons.E - compute_ek(cons);", "return cons.rho > 0 ? cons.E - compute_ek(cons) : 0;")
# C11
m("C11", "extent-ignored-rank", "src/io/io_hdf5.hpp", "if (ndims != N) {", "if (ndims < 0) {")
m("C11", "flush-skipped", "src/io/io.cpp", "if (::H5Fflush(*file_id, H5F_SCOPE_GLOBAL) < 0) {", "if (::H5Fflush(*file_id, H5F_SCOPE_LOCAL) < -1) {")
m("C11", "string-size", "src/io/io.cpp", "if (::H5Tset_size(*type_id, attribute_value.size()) < 0) {", "if (::H5Tset_size(*type_id, attribute_value.size()) < 0 && attribute_value.empty()) {")
# C12
m("C12", "priority-z-name", "src/boundary_distribute.cpp", 'tmp_arr[i] == "Z_right" || tmp_arr[i] == "X2_right"', 'tmp_arr[i] == "Z_right" || tmp_arr[i] == "X3_right"')
m("C12", "priority-y-3d", "src/boundary_distribute.cpp", '(tmp_arr[i] == "Y_left" || tmp_arr[i] == "X1_left") && ndim >= 2', '(tmp_arr[i] == "Y_left" || tmp_arr[i] == "X1_left") && ndim == 3')
m("C12", "periodic-as-nullgrad", "src/boundary_factory.hpp", 'if (boundary == "Periodic") {\n        return std::make_unique<PeriodicCondition<Gravity>>(idim, iface);', 'if (boundary == "Periodic") {\n        if (idim == 2 && iface == 1) {\n            return std::make_unique<NullGradient<Gravity>>(idim, iface);\n        }\n        return std::make_unique<PeriodicCondition<Gravity>>(idim, iface);')
m("C12", "reflexive-energy", "src/boundary.cpp", "                rhou(i, j, k, bc_idim) = -rhou(i, j, k, bc_idim);\n                E(i, j, k) = E(offsets[0], offsets[1], offsets[2]);", "                rhou(i, j, k, bc_idim) = -rhou(i, j, k, bc_idim);\n                E(i, j, k) = E(offsets[0], offsets[1], offsets[2]) * (bc_iface == 1 && k == 0 && i == 0 ? 1 + 1e-12 : 1);")
m("C12", "exchange-per-direction-order", "src/boundary_distribute.hpp", "for (int idim = 0; idim < ndim; ++idim) {\n            for (int iface = 0; iface < 2; ++iface) {\n                ghost_sync", "for (int idim = 0; idim < ndim; ++idim) {\n            for (int iface = 0; iface < (grid.mpi_dims_cart[idim] == 1 && !grid.is_border[idim][0] ? 1 : 2); ++iface) {\n                ghost_sync")
# C13
m("C13", "cfl-twice-restart", "src/main.cpp", "double dt = param.cfl * time_step(", "double dt = (param.restart && iter == 0 ? 1 : param.cfl) * time_step(")
m("C13", "sound-gamma", "src/thermodynamics/perfect_gas.hpp", "Kokkos::sqrt(m_gamma * P / rho)", "Kokkos::sqrt((m_gamma > 2 ? 2 : m_gamma) * P / rho)")
m("C13", "radgas-sound", "src/thermodynamics/rad_gas.hpp", "(20 * alpha) + (16 * alpha * alpha)", "(20 * alpha) + (12 * alpha * alpha)")
m("C13", "2d-sph", "src/hydro/time_step.hpp", "if (ndim == 2) {\n                        dx_geom[1] *= x0_center(i);", "if (ndim == 2) {\n                        dx_geom[1] *= x0_center(i) + dx0(i) / 2;")
m("C13", "max-not-sum", "src/hydro/time_step.hpp", "cell_inverse_dt += (Kokkos::abs(u(i, j, k, idim)) + sound) / dx_geom[idim];", "cell_inverse_dt = Kokkos::max(cell_inverse_dt, (Kokkos::abs(u(i, j, k, idim)) + sound) / dx_geom[idim]);")
# C14
m("C14", "nghost-default", "src/utils/param.cpp", 'Ng = reader.GetInteger("Grid", "Nghost", 2);', 'Ng = reader.GetInteger("Grid", "Nghost", 3);')
m("C14", "pdi-option", "src/main.cpp", 'std::string_view const option_name("--pdi-config=");', 'std::string_view const option_name("--pdi-config");')
m("C14", "x2max-section", "src/utils/param.cpp", 'x2max = reader.GetReal("Grid", "x2max", 1.0);', 'x2max = reader.GetReal("Grid", "x1max", 1.0);')
m("C14", "time-job-default", "src/utils/param.cpp", '"time_job", 20', '"time_job", 24')
# C15
m("C15", "first-node", "src/moving_grid/moving_grid.cpp", "for (int i = 0; i < n - 1; ++i) {", "for (int i = 0; i < n - 2; ++i) {")
m("C15", "bc-once", "src/main.cpp", "                DistributedBoundaryCondition const bcs(grid, param);\n                bcs(bcs_array", "                if (grid.mpi_dims_cart[0] == 1) {\n                    bcs_array[0] = factory_boundary_construction<Gravity>(bc_choice_faces[0] == \"UserDefined\" ? \"NullGradient\" : bc_choice_faces[0], 0, 0);\n                }\n                DistributedBoundaryCondition const bcs(grid, param);\n                bcs(bcs_array")
# C16
m("C16", "hancock-energy-gravity", X, "E_rec(i, j, k, 1, ipos) += dt * gravity(i, j, k, idim) * rhou_old[1][ipos][idim];", "E_rec(i, j, k, 1, ipos) += dt * gravity(i, j, k, idim) * rhou_old[1][idim][idim];")
m("C16", "hancock-grav-density", X, "gravity(i, j, k, idim) * rho_old[1][ipos];", "gravity(i, j, k, idim) * rho_old[1][idim];")
m("C16", "hancock-phi", X, "rhou_rec(i, j, k, 1, ipos, 2) -= source_grad_u_phi(\n                                                dtodv,\n                                                x1(j),\n                                                x1(j + 1),\n                                                primL.rho,\n                                                primR.rho,\n                                                primL.u[1],", "rhou_rec(i, j, k, 1, ipos, 2) -= source_grad_u_phi(\n                                                dtodv,\n                                                x1(j),\n                                                x1(j + 1),\n                                                primL.rho,\n                                                primR.rho,\n                                                primL.u[0],")
m("C16", "pf-us-sign", PF, "if (us_p > 0) {", "if (us_p < 0) {")
m("C16", "pf-cons-m", PF, "cons_m.rhou[idr] = rhou(i_m, j_m, k_m, idr);", "cons_m.rhou[idr] = rhou(i_m, j_m, k_m, 0);")
m("C16", "heat-tau", "src/user_step/user_step.cpp", "Kokkos::exp(-t / tau_co56)", "Kokkos::exp(-t / tau_ni56)")
m("C16", "splitting-sign", "src/hydro/riemann_solver.hpp", "flux.E = (ustar * cons_state.E) + (Pstar * ustar);", "flux.E = (ustar * cons_state.E) + ((primL.P + primR.P) / 2 * ustar);")
m("C16", "hll-zero", "src/hydro/riemann_solver.hpp", "double const pos_wsR = Kokkos::fmax(wsR, 0.);", "double const pos_wsR = Kokkos::fmax(wsR, -wsL * 1e-3);")
m("C16", "mesh-regular-nghost", "src/mesh/grid_type.cpp", "compute_regular_mesh_1d(x2_glob, Nghost[2], m_min[2]", "compute_regular_mesh_1d(x2_glob, Nghost[1], m_min[2]")
m("C16", "mesh-x1max", "src/mesh/grid_type.cpp", "(m_max[1] - m_min[1]) / Nx_glob_ng[1]", "(m_max[1] - m_min[1]) / Nx_glob_ng[1] * (m_min[1] < 0 ? 1 + 1e-9 : 1)")
# C17
m("C17", "mean-not-normalised", "src/gravity/gravity.cpp", "RangePolicy<int>(0, grid.Nx_local_ng[0] + grid.Nghost[0]),\n            KOKKOS_LAMBDA(int i) { rho_mean(i) /= dv_total(i); });", "RangePolicy<int>(0, grid.Nx_local_ng[0]),\n            KOKKOS_LAMBDA(int i) { rho_mean(i) /= dv_total(i); });")
m("C17", "central-ghost", "src/gravity/gravity.cpp", "KOKKOS_LAMBDA(int i) { M_r(i) = central_mass; });", "KOKKOS_LAMBDA(int i) { M_r(i) = central_mass * (i == 0 ? 0.5 : 1); });")
m("C17", "g-before-bcs", "src/main.cpp", "    bcs(bcs_array, grid, *g, rho(device), rhou(device), E(device), fx(device));\n\n    g = std::make_unique<Gravity>(make_gravity(param, grid, rho(device, read_only)));\n", "    bcs(bcs_array, grid, *g, rho(device), rhou(device), E(device), fx(device));\n")
m("C17", "gravity-other-directions", "src/gravity/gravity.hpp", "return m_g(idim);", "return m_g(idim == 1 && j < 2 ? 0 : idim);")
# C18
m("C18", "pg-evol", "src/thermodynamics/perfect_gas.hpp", "return P / m_gamma_m1;", "return P / (m_gamma - 1.0000001);")
m("C18", "rad-temp-pres", "src/thermodynamics/rad_gas.hpp", "return compute_pres_from_temp(rho, compute_temp_from_evol(rho, evol));", "return evol * m_gamma_m1;")
m("C18", "newton-relative", "src/thermodynamics/rad_gas.hpp", "if (Kokkos::abs(delta_T) <= tol_newton) {", "if (Kokkos::abs(delta_T) <= tol_newton * T * 100) {")
