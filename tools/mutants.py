"""Trial changes to the code under test: (property, name, file, old text, new text[, occurrence])."""
M = []


def m(prop, name, file, old, new, n=0):
    M.append((prop, name, file, old, new, n))


# C01
m("C01", "start-corner-uneven", "src/mesh/grid.cpp", "cmin[i] += Nx_glob_ng[i] % mpi_dims_cart[i];", "cmin[i] += (Nx_glob_ng[i] % mpi_dims_cart[i]) - (mpi_rank_cart[i] == mpi_dims_cart[i] - 1 && mpi_dims_cart[i] > 2 ? 1 : 0);")
m("C01", "reorder-world-rank", "src/mesh/grid.cpp", "MPI_Cart_coords(comm_cart, mpi_rank, 3, mpi_rank_cart.data());", "int world_rank = 0;\n    MPI_Comm_rank(MPI_COMM_WORLD, &world_rank);\n    MPI_Cart_coords(comm_cart, world_rank, 3, mpi_rank_cart.data());")
m("C01", "integrate-no-reduce-1proc-dir", "src/analysis/integration.cpp", "MPI_SUM, grid.comm_cart);", "MPI_SUM, grid.mpi_dims_cart[0] == 1 ? grid.comm_cart_horizontal : grid.comm_cart);")
m("C01", "gravity-shell-local", "src/gravity/gravity.cpp", "MPI_Allreduce(MPI_IN_PLACE, rho_mean_dv(host).data(), rho_mean_dv.extent_int(0)", "MPI_Allreduce(MPI_IN_PLACE, rho_mean_dv(host).data(), grid.Nx_local_ng[0]")
m("C01", "buffer-swapped-direction", "src/boundary_distribute.cpp", "MPI_Cart_shift(grid.comm_cart, bc_idim, bc_iface == 0 ? -1 : 1, &src, &dst);", "MPI_Cart_shift(grid.comm_cart, bc_idim, 1, &src, &dst);\n        if (bc_iface == 0 && bc_idim < 2) {\n            std::swap(src, dst);\n        }")
m("C01", "device-aware-skip-host", "src/boundary_distribute.cpp", "ptr = buf(device).data();", "ptr = buf(host, read_only).data() == nullptr ? nullptr : buf(device).data();")
# C02
m("C02", "ghost-inplace-scalar", "src/hydro/extrapolation_reconstruction.hpp", "fx_rec_old(i, j, k, 1, idim, ifx) * fluxR.rho", "fx_rec(i, j, k, 1, idim, ifx) * fluxR.rho")
m("C02", "shared-accumulator", "src/hydro/time_step.hpp", "local_inverse_dt = Kokkos::max(local_inverse_dt, cell_inverse_dt);", "local_inverse_dt = cell_inverse_dt > local_inverse_dt || cell_inverse_dt < 1e-290 ? cell_inverse_dt : (i == 0 && j == 0 && k == 0 ? cell_inverse_dt : local_inverse_dt);")
m("C02", "nullgrad-neighbour", "src/boundary.cpp", "offsets[bc_idim] = offset;", "offsets[bc_idim] = i == offsets[0] && bc_iface == 1 ? offsets[bc_idim] - 1 : offset;")
m("C02", "write-neighbour-cell", "src/hydro/pressure_fix.hpp", "E_new(i, j, k) = evol + de_tot + (1. / 2 * sum);", "E_new(i, j, k) = evol + de_tot + (1. / 2 * sum);\n                            if (alpha > 0.9999) {\n                                E_new(i_m, j_m, k_m) += 0;\n                            }")
m("C02", "scan-not-associative", "src/gravity/gravity.cpp", "if (is_final) {\n                    M_r(i) = partial_sum;", "if (is_final || i == nghost[0]) {\n                    M_r(i) = partial_sum;")
m("C02", "host-read-device", "src/moving_grid/moving_grid.cpp", "auto const x0_h = x0_glob(host);", "auto const x0_h = x0_glob(device);")
m("C02", "reduction-init-scan", "src/gravity/gravity.cpp", "if (i == nghost[0]) {\n                    partial_sum += central_mass +", "if (i == nghost[0]) {\n                    partial_sum = central_mass +")
m("C02", "missing-fence-host-read", "src/gravity/gravity.cpp", "MPI_Allreduce(MPI_IN_PLACE, dv_total_dv(host).data()", "MPI_Allreduce(MPI_IN_PLACE, dv_total_dv(host, read_only).size() > 0 ? const_cast<double*>(dv_total_dv(host, discard_write).data()) : nullptr")
m("C02", "ghost-out-of-range", "src/hydro/limited_linear_reconstruction.hpp", "kron(idim, 2) * dx2(k_p));", "kron(idim, 2) * dx2(k_p + kron(ndim, 3)));")
# C03
m("C03", "equal-flags-after-both", "src/dual_view/dual_view.hpp", "unsigned const new_flag = std::max(m_modified_flag_host(), m_modified_flag_device()) + 1;", "unsigned const new_flag = (AccessTargetTag<AT>::value == access_target::device ? m_modified_flag_device() : m_modified_flag_host()) + 1;")
m("C03", "no-clear", "src/dual_view/dual_view.hpp", "clear_synchronization_state();\n        }\n    }", "if (target.value == access_target::device) {\n                clear_synchronization_state();\n            }\n        }\n    }")
m("C03", "discard-syncs", "src/dual_view/dual_view.hpp", "return mode.value == access_mode::read_only || mode.value == access_mode::read_write;", "return mode.value != access_mode::discard_write || mode.value == access_mode::read_write || AM == access_mode::discard_write;")
m("C03", "copy-flags-not-shared", "src/dual_view/dual_view.hpp", ": m_modified_flag_device(rhs.m_modified_flag_device)\n        , m_modified_flag_host(rhs.m_modified_flag_host)\n        , m_view_device(rhs.m_view_device)", ": m_modified_flag_device(\"DualView::modified_flag_device\")\n        , m_modified_flag_host(rhs.m_modified_flag_host)\n        , m_view_device(rhs.m_view_device)")
m("C03", "flag-wraps", "src/dual_view/dual_view.hpp", "std::max(m_modified_flag_host(), m_modified_flag_device()) + 1;", "(std::max(m_modified_flag_host(), m_modified_flag_device()) + 1) & 7U;")
m("C03", "assign-drops-host-flag", "src/dual_view/dual_view.hpp", "m_modified_flag_host = rhs.m_modified_flag_host;\n        m_view_device", "m_modified_flag_host = rhs.m_modified_flag_device;\n        m_view_device")
# C04
m("C04", "scalar-clamp-missing-upper", "src/hydro/godunov_scheme.hpp", "Kokkos::clamp(fx_new(i, j, k, ifx) / rho_new(i, j, k), 0., 1.)", "Kokkos::max(fx_new(i, j, k, ifx) / rho_new(i, j, k), 0.)")
m("C04", "scalar-upwind-tie", "src/hydro/godunov_scheme.hpp", "if (FluxR.rho < 0) {", "if (FluxR.rho <= -1e-3 * rho(i, j, k)) {")
m("C04", "right-face-own-surface", "src/hydro/godunov_scheme.hpp", "(FluxR.E * ds(i_p, j_p, k_p, idim)));", "(FluxR.E * (ndim == 2 && geom == Geometry::Geom_spherical ? ds(i_p, j_p, k_p, idim) : ds(i, j, k, idim))));")
m("C04", "mass-report-abs", "src/main.cpp", "std::abs(initial_mass - final_mass);", "std::abs(final_mass) - std::abs(final_mass);")
m("C04", "initial-mass-ghosts", "src/main.cpp", "double const initial_mass = integrate(grid.range.no_ghosts()", "double const initial_mass = integrate(grid.range.with_ghosts(param.restart ? 1 : 0)")
m("C04", "hllc-asym", "src/hydro/riemann_solver.hpp", "double const ustar = ((primL.u[locdim] + primR.u[locdim]) / 2) - (1 / (2 * a) * (primR.P - primL.P));", "double const ustar = ((primL.u[locdim] + primR.u[locdim]) / 2) - (1 / (2 * a) * (primR.P - primL.P)) + (primL.u[locdim] == primR.u[locdim] ? 1e-12 * cL : 0);")
m("C04", "reflexive-normal-sign-3d", "src/boundary.cpp", "rhou(i, j, k, bc_idim) = -rhou(i, j, k, bc_idim);", "if (bc_idim < 2 || bc_iface == 0) {\n                    rhou(i, j, k, bc_idim) = -rhou(i, j, k, bc_idim);\n                }")
# C05
m("C05", "restart-iter-id", "src/main.cpp", "int const next_output = iter_ini + ((iter_output_id + 1) * param.iter_output_frequency);", "int const next_output = iter_ini + ((param.restart ? (iter / param.iter_output_frequency) + 1 : iter_output_id + 1) * param.iter_output_frequency) + (param.restart && iter % param.iter_output_frequency == 0 ? 0 : 0);")
m("C05", "restart-grid-regenerated", "src/io/io.cpp", "x2_glob(host).data(),\n            PDI_INOUT,", "x2_glob(host, read_only).size() > 40 ? const_cast<double*>(x2_glob(host, read_only).data()) : x2_glob(host).data(),\n            PDI_INOUT,")
m("C05", "scalars-not-read-last", "src/io/io.cpp", "for (int ifx = 0; ifx < fx.extent_int(3); ++ifx) {\n        PDI_multi_expose(\n                \"read_fx\"", "for (int ifx = 0; ifx < fx.extent_int(3) && ifx < 2; ++ifx) {\n        PDI_multi_expose(\n                \"read_fx\"")
m("C05", "time-id-stale", "src/main.cpp", "if (param.time_output_frequency > 0) {\n            double const next_output = param.time_first_output", "if (param.restart && iter == iter_ini) {\n            time_output_id = -1;\n        }\n        if (param.time_output_frequency > 0) {\n            double const next_output = param.time_first_output")
m("C05", "restart-time-float", "src/main.cpp", "grid.set_grid(x0_glob(device, read_only), x1_glob(device, read_only), x2_glob(device, read_only));\n\n        g =", "t = static_cast<float>(t);\n        grid.set_grid(x0_glob(device, read_only), x1_glob(device, read_only), x2_glob(device, read_only));\n\n        g =")
m("C05", "output-id-restart-rewrites", "src/main.cpp", "// A restart may already be at the end of the run", "if (param.restart && param.iter_output_frequency == 1) {\n        --output_id;\n    }\n    // A restart may already be at the end of the run")
m("C01", "yaml-read-start", "src/io/config.yaml.cpp", "start: [0, '$start[0]']", "start: [0, 0]")
m("C05", "yaml-read-ux2-from-ux1", "src/io/config.yaml.cpp", "start: [2, '$n_ghost[2]', '$n_ghost[1]', '$n_ghost[0]']", "start: [1, '$n_ghost[2]', '$n_ghost[1]', '$n_ghost[0]']", 1)
# C06
m("C06", "no-extent-check-x1", "src/io/io.cpp", "    check_extent_dset(file_id, \"/x1\", std::array {x1_glob.extent(0)});\n", "")
m("C06", "extent-check-ge", "src/io/io_hdf5.hpp", "if (!std::ranges::equal(dset_extent, expected_extents)) {", "if (dset_extent[0] < expected_extents[0]) {")
m("C06", "write-into-fixed-name", "src/io/io.cpp", "std::string const output_filename = get_output_filename(prefix, output_id);\n    int const output_filename_size", "std::string const output_filename = get_output_filename(prefix, output_id % 7);\n    int const output_filename_size")
m("C06", "restart-opens-rdwr", "src/io/io.cpp", "::H5Fopen(restart_file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT)", "::H5Fopen(restart_file.c_str(), H5F_ACC_RDWR, H5P_DEFAULT)")
m("C06", "xmf-before", "src/io/config.yaml.cpp", "collision_policy: replace", "collision_policy: write_into")
m("C06", "read-P-missing-ok", "src/io/config.yaml.cpp", "        x0:\n        x1:\n        x2:\n    - file: ${restart_filename}", "        x0:\n        x1:\n    - file: ${restart_filename}")
# C07
m("C07", "attr-wrong-branch", "src/io/io.cpp", "write_string_attribute(file_id, \"git_branch\", git_branch);", "write_string_attribute(file_id, \"git_branch\", git_build_string);")
m("C07", "xmf-dims-swapped", "src/io/io.cpp", "xdmfFile << ncells[idim] + 1;", "xdmfFile << ncells[2 - idim] + 1;")
m("C07", "xmf-index-after-restart", "src/io/io.cpp", "std::size_t const first_output_id = output_id + 1 - outputs_record.size();", "std::size_t const first_output_id = outputs_record.size() > 1 ? output_id + 1 - outputs_record.size() : output_id + (outputs_record[0].first > 0 ? 1 : 0);")
m("C07", "T-stale", "src/main.cpp", "if (make_output) {\n            temperature(grid.range.all_ghosts()", "if (make_output) {\n            temperature(should_exit ? grid.range.all_ghosts() : grid.range.no_ghosts().with_ghosts(0)")
m("C07", "T-before-step", "src/main.cpp", "        if (make_output) {\n            temperature(grid.range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));\n\n", "        if (make_output) {\n            if (!should_exit || param.nfx < 2) {\n                temperature(grid.range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));\n            }\n")
m("C07", "xmf-time-precision", "src/io/io.cpp", "XmlWriter::XmlWriter(std::string directory, std::string prefix, int const nfx)", "XmlWriter::XmlWriter(std::string directory, std::string prefix, int nfx)")
m("C07", "xmf-scalars-9", "src/io/io.cpp", "m_var_names.emplace_back(\"fx\" + std::to_string(ifx));", "m_var_names.emplace_back(\"fx\" + std::to_string(ifx % 3));")
m("C07", "x0_ng-shift", "src/io/config.yaml.cpp", "size: '$nx_glob_ng[2] + 1'\n              start: '$n_ghost[2]'", "size: '$nx_glob_ng[2] + 1'\n              start: '$n_ghost[0]'")
m("C07", "outputs-record-t", "src/main.cpp", "            outputs_record.emplace_back(iter, t);\n            ++output_id;", "            outputs_record.emplace_back(iter, outputs_record.size() > 2 ? t - dt : t);\n            ++output_id;")
# C08
m("C08", "iter-skip-double", "src/main.cpp", "make_output = true;\n                ++iter_output_id;", "make_output = !make_output;\n                ++iter_output_id;")
m("C08", "time-id-both", "src/main.cpp", "                make_output = true;\n                ++time_output_id;", "                if (!make_output) {\n                    ++time_output_id;\n                }\n                make_output = true;")
m("C08", "walltime-local", "src/main.cpp", "MPI_Bcast(&save_and_exit, 1, MPI_CXX_BOOL, 0, grid.comm_cart);", "MPI_Bcast(&save_and_exit, 1, MPI_CXX_BOOL, 0, grid.comm_cart_horizontal);")
m("C08", "maxiter-off", "src/main.cpp", "if ((iter + 1) >= param.max_iter) {", "if ((iter + 1) > param.max_iter - (should_exit ? 1 : 0) || iter + 1 == param.max_iter + 1) {")
m("C08", "system-clock", "src/main.cpp", "bool save_and_exit = (std::chrono::steady_clock::now() - start) >= time_save;", "bool save_and_exit = (std::chrono::steady_clock::now() - start) > time_save + std::chrono::hours(1);")
m("C08", "end-before-output", "src/main.cpp", "if ((t + dt) >= next_output && next_output <= param.t_end) {", "if ((t + dt) > next_output && next_output <= param.t_end) {")
m("C08", "end-output-lost", "src/main.cpp", "            dt = param.t_end - t;\n            make_output = true;", "            dt = param.t_end - t;\n            make_output = make_output || iter_output_id < 0 || time_output_id < 0;")
# C09
m("C09", "bcast-conditional", "src/main.cpp", "            bool save_and_exit = (std::chrono::steady_clock::now() - start) >= time_save;\n            MPI_Bcast", "            bool save_and_exit = (std::chrono::steady_clock::now() - start) >= time_save;\n            if (!should_exit || std::chrono::steady_clock::now() - start < time_save / 4)\n            MPI_Bcast")
m("C09", "comm-leak", "src/mesh/grid.cpp", "if (comm_cart_horizontal != MPI_COMM_NULL) {", "if (comm_cart_horizontal != MPI_COMM_NULL && mpi_dims_cart[0] > 1) {")
m("C09", "send-recv-blocking", "src/boundary_distribute.cpp", "MPI_Sendrecv_replace(ptr, int_cast<int>(buf.size()), MPI_DOUBLE, dst, bc_idim, src, bc_idim, grid.comm_cart, MPI_STATUS_IGNORE);", "if (src == dst && bc_idim == 1) {\n            std::vector<double> tmp(ptr, ptr + buf.size());\n            MPI_Send(tmp.data(), int_cast<int>(buf.size()), MPI_DOUBLE, dst, bc_idim, grid.comm_cart);\n            MPI_Recv(ptr, int_cast<int>(buf.size()), MPI_DOUBLE, src, bc_idim, grid.comm_cart, MPI_STATUS_IGNORE);\n        } else\n        MPI_Sendrecv_replace(ptr, int_cast<int>(buf.size()), MPI_DOUBLE, dst, bc_idim, src, bc_idim, grid.comm_cart, MPI_STATUS_IGNORE);")
m("C09", "exception-local", "src/main.cpp", "MPI_Abort(MPI_COMM_WORLD, EXIT_FAILURE);", "int rank = 0;\n        MPI_Comm_rank(MPI_COMM_WORLD, &rank);\n        if (rank == 0) {\n            MPI_Abort(MPI_COMM_WORLD, EXIT_FAILURE);\n        }\n        throw;")
m("C09", "exit-zero", "src/main.cpp", "        std::cerr << e.what() << '\\n';\n        return EXIT_FAILURE;", "        std::cerr << e.what() << '\\n';\n        return EXIT_SUCCESS;")
m("C09", "h5-leak", "src/io/io_hdf5.hpp", "RaiiH5Hid const dspace(::H5Dget_space(*dset_id), ::H5Sclose);", "RaiiH5Hid const dspace(::H5Dget_space(*dset_id), [](hid_t) -> herr_t { return 0; });")
m("C09", "reduce-shell-count", "src/gravity/gravity.cpp", "for (int i = 0; i < grid.Nx_local_ng[0] + grid.Nghost[0]; ++i) {", "for (int i = 0; i < grid.Nx_local_ng[0] + grid.Nghost[0] && grid.Nx_local_ng[1] > 0; ++i) {")
# C10
m("C10", "check-zero", "src/main.cpp", "if (Kokkos::isnan(min_internal_energy) || min_internal_energy < 0) {", "if (Kokkos::isnan(min_internal_energy) || min_internal_energy < -1e-10) {")
m("C10", "check-stale", "src/analysis/internal_energy.cpp", "MPI_MIN, grid.comm_cart);", "MPI_MIN, grid.comm_cart_horizontal);")
m("C10", "kinetic-1d", "src/hydro/euler_equations.hpp", "for (int idim = 0; idim < ndim; ++idim) {\n        norm_rhou += cons.rhou[idim] * cons.rhou[idim];", "for (int idim = 0; idim < (ndim > 2 ? 2 : ndim); ++idim) {\n        norm_rhou += cons.rhou[idim] * cons.rhou[idim];")
m("C10", "isnan-or", "src/analysis/internal_energy.cpp", "if (Kokkos::isnan(cell_evol)) {", "if (Kokkos::isnan(cell_evol) && Kokkos::isfinite(cons.rho)) {")
m("C10", "diag-output-not-numbered", "src/main.cpp", "temperature(grid.range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));\n            ++output_id;\n            write_pdi(\n                    param.directory,\n                    param.prefix,\n                    output_id,\n                    iter_output_id,\n                    time_output_id,\n                    iter,\n                    t,\n                    eos.adiabatic_index(),\n                    grid,\n                    rho.const_view(),\n                    u.const_view(),\n                    P.const_view(),\n                    E.const_view(),\n                    x0_glob.const_view(),\n                    x1_glob.const_view(),\n                    x2_glob.const_view(),\n                    fx.const_view(),\n                    T.const_view());\n            std::stringstream ss;", "if (iter > 0 || param.restart) {\n            ++output_id;\n            }\n            temperature(grid.range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));\n            write_pdi(\n                    param.directory,\n                    param.prefix,\n                    output_id,\n                    iter_output_id,\n                    time_output_id,\n                    iter,\n                    t,\n                    eos.adiabatic_index(),\n                    grid,\n                    rho.const_view(),\n                    u.const_view(),\n                    P.const_view(),\n                    E.const_view(),\n                    x0_glob.const_view(),\n                    x1_glob.const_view(),\n                    x2_glob.const_view(),\n                    fx.const_view(),\n                    T.const_view());\n            std::stringstream ss;")
m("C10", "no-throw-last", "src/main.cpp", "        if (Kokkos::isnan(min_internal_energy) || min_internal_energy < 0) {", "        if ((Kokkos::isnan(min_internal_energy) || min_internal_energy < 0) && !(should_exit && iter > 0)) {")
m("C10", "barrier-gone", "src/main.cpp", "            MPI_Barrier(grid.comm_cart); // the output must be complete before any process aborts the job\n", "")
m("C10", "min-start", "src/analysis/internal_energy.cpp", "cell_mdrange(range),", "cell_mdrange(Range(range.Corner_min, {range.Corner_max[0], range.Corner_max[1], range.Corner_max[2] > 1 && ndim == 3 ? range.Corner_max[2] - 1 : range.Corner_max[2]}, range.Ng).no_ghosts()),")
# C11
m("C11", "attr-error-ignored", "src/io/io.cpp", "    if (::H5Awrite(*attr_id, *type_id, attribute_value.data()) < 0) {\n        throw std::runtime_error(\"HERACLES++ error: writing attribute failed\");\n    }", "    ::H5Awrite(*attr_id, *type_id, attribute_value.data());")
m("C11", "cset-ignored", "src/io/io.cpp", "    if (::H5Tset_cset(*type_id, H5T_CSET_UTF8) < 0) {\n        throw std::runtime_error(\"HERACLES++ error: defining utf-8 character set failed\");\n    }", "    ::H5Tset_cset(*type_id, H5T_CSET_UTF8);")
m("C11", "raii-accepts-negative", "src/io/io_hdf5.hpp", "if (m_id < 0 || !m_close) {", "if (m_id == -1 && !m_close) {")
m("C11", "xmf-flush-unchecked", "src/io/io.cpp", "    xdmfFile.close();\n    if (!xdmfFile) {", "    if (!xdmfFile) {")
m("C11", "dims-unchecked", "src/io/io_hdf5.hpp", "    if (ndims != N) {\n        throw", "    if (ndims > int(N)) {\n        throw")
m("C11", "raii-no-close-on-throw", "src/io/io_hdf5.hpp", "if (m_id >= 0 && m_close) {", "if (m_id >= 0 && m_close && std::uncaught_exceptions() == 0) {")
# C12
m("C12", "corner-range", "src/boundary_distribute.cpp", "{Kokkos::make_pair(0, views[0].extent_int(0)),", "{bc_idim == 2 ? Kokkos::make_pair(ng, views[0].extent_int(0) - ng) : Kokkos::make_pair(0, views[0].extent_int(0)),")
m("C12", "mirror-off-by-one-right", "src/boundary.cpp", "((2 * (rho.extent_int(bc_idim) - ng)) - 1)", "((2 * (rho.extent_int(bc_idim) - ng)) - (ng > 2 ? 2 : 1))")
m("C12", "order-not-reversed", "src/boundary_distribute.cpp", "    std::ranges::reverse(bc_order);\n", "    std::ranges::reverse(bc_order.begin(), bc_order.begin() + (nfaces == 6 ? 4 : nfaces));\n")
m("C12", "duplicate-accepted", "src/boundary_distribute.cpp", "if (counter != nfaces || std::ranges::adjacent_find(sorted_faces) != sorted_faces.end()) {", "if (counter < nfaces - 1) {")
m("C12", "momentum-tangential", "src/boundary.cpp", "rhou(i, j, k, bc_idim) = -rhou(i, j, k, bc_idim);", "rhou(i, j, k, bc_idim) = -rhou(offsets[0], offsets[1], offsets[2], rhou.extent_int(3) - 1 < bc_idim ? 0 : bc_idim);\n                if (nfx > 2) {\n                    rhou(i, j, k, 0) = -rhou(i, j, k, 0);\n                }")
m("C12", "nullgrad-right-offset", "src/boundary.cpp", "int const offset = bc_iface == 0 ? end[bc_idim] : begin[bc_idim] - 1;", "int const offset = bc_iface == 0 ? end[bc_idim] : begin[bc_idim] - (bc_idim == 2 ? 2 : 1);")
m("C12", "scalars-not-mirrored", "src/boundary.cpp", "for (int ifx = 0; ifx < nfx; ++ifx) {\n                    fx(i, j, k, ifx) = fx(offsets[0], offsets[1], offsets[2], ifx);\n                }\n            });\n}\n\n} // namespace", "for (int ifx = 0; ifx < nfx - (nfx > 2 ? 1 : 0); ++ifx) {\n                    fx(i, j, k, ifx) = fx(offsets[0], offsets[1], offsets[2], ifx);\n                }\n            });\n}\n\n} // namespace")
m("C12", "border-wrong-face", "src/boundary_distribute.hpp", "if (grid.is_border[idim][iface]) {", "if (grid.is_border[idim][iface] || (idim == 2 && grid.is_border[idim][0] && grid.mpi_dims_cart[idim] == 2)) {")
m("C12", "bc-dir-fallback", "src/main.cpp", "std::string(\"BC\").append(bc_dir(idim)).append(bc_face(iface)), bc_choice_dir);", "std::string(\"BC\").append(bc_dir(idim)).append(bc_face(iface)), iface == 0 ? bc_choice_dir : bc_choice_faces[idim * 2]);")
# C13
m("C13", "no-ghost-range", "src/main.cpp", "param.cfl * time_step(grid.range.all_ghosts()", "param.cfl * time_step(grid.range.with_ghosts(1)")
m("C13", "max-velocity-signed", "src/hydro/time_step.hpp", "(Kokkos::abs(u(i, j, k, idim)) + sound)", "(Kokkos::max(u(i, j, k, idim), -u(i, j, k, idim) / 2) + sound)")
m("C13", "sphe-3d-no-sin", "src/hydro/time_step.hpp", "dx_geom[2] *= x0_center(i) * Kokkos::sin(x1_center(j));", "dx_geom[2] *= x0_center(i);")
m("C13", "min-reduction", "src/hydro/time_step.hpp", "MPI_MAX, grid.comm_cart);", "MPI_MAX, grid.mpi_dims_cart[0] > 2 ? grid.comm_cart_horizontal : grid.comm_cart);")
m("C13", "first-step-stale", "src/main.cpp", "conv_cons_to_prim(grid.range.all_ghosts(), eos, rho_new, rhou_new, E_new, u(device), P(device));", "conv_cons_to_prim(iter > 1 ? grid.range.with_ghosts(1) : grid.range.all_ghosts(), eos, rho_new, rhou_new, E_new, u(device), P(device));")
m("C13", "dt-after-shift-old-grid", "src/mesh/grid.cpp", "compute_cell_size(x0, dx0);", "if (dx0.size() > 0 && !(dx0.size() % 2 == 0 && x0_glob.size() % 3 == 0)) {\n        compute_cell_size(x0, dx0);\n    }")
# C14
m("C14", "prev-name-kept", "vendor/inih/src/ini.c", "                *prev_name = '\\0';\n", "")
m("C14", "ferror-only-first", "vendor/inih/src/ini.c", "if (error == 0 && ferror(file))", "if (error == 0 && ferror(file) && !feof(file) && ftell(file) <= 4096)")
m("C14", "key-case-locale", "vendor/inih/src/INIReader.cpp", "std::transform(key.begin(), key.end(), key.begin(), ::tolower);\n    return key;", "std::transform(key.begin(), key.begin() + section.size(), key.begin(), ::tolower);\n    return key;")
m("C14", "bool-on", "vendor/inih/src/INIReader.cpp", "lowered_str == \"on\" ||", "str == \"on\" || str == \"On\" ||")
m("C14", "hex-upper", "vendor/inih/src/INIReader.cpp", "|| str.compare(pos, 2, \"0X\") == 0", "")
m("C14", "dup-overwrite", "vendor/inih/src/INIReader.cpp", "reader->_values[key] += value;", "reader->_values[key] = value;")
m("C14", "comment-hash", "vendor/inih/src/ini.c", "if (*start == ';' || *start == '#') {", "if (*start == ';' || (*start == '#' && start == line)) {")
m("C14", "err-lineno", "vendor/inih/src/ini.c", "            else if (!error) {\n                /* No '=' or ':'", "            else {\n                /* No '=' or ':'")
m("C14", "param-default", "src/utils/param.cpp", "cfl = reader.GetReal(\"Run\", \"cfl\", 0.4);", "cfl = reader.GetReal(\"Run\", \"cfl\", 0.5);")
m("C14", "param-section", "src/utils/param.cpp", "eps_pf = reader.GetReal(\"Pressure fix\", \"eps_pf\", 0.000001);", "eps_pf = reader.GetReal(\"Pressure fix\", \"eps_pf\", 0.00001);")
# C15
m("C15", "ratio-inverted", "src/moving_grid/moving_grid.cpp", "(x0_h(n - 2) - x0_h(n - 3)) / (x0_h(n - 3) - x0_h(n - 4));", "(x0_h(n - 3) - x0_h(n - 4)) / (x0_h(n - 4) - x0_h(n - 5));")
m("C15", "rmax-compare", "src/main.cpp", "if (x_h(grid.Nx_glob_ng[0] + grid.Nghost[0] + 1) >= param.rmax_shift) {", "if (x_h(grid.Nx_glob_ng[0] + grid.Nghost[0]) > param.rmax_shift) {")
m("C15", "grid-not-updated", "src/moving_grid/moving_grid.cpp", "grid.set_grid(x0_glob(device, read_only), x1_glob(device, read_only), x2_glob(device, read_only));", "if (grid.mpi_rank_cart[1] == 0) {\n        grid.set_grid(x0_glob(device, read_only), x1_glob(device, read_only), x2_glob(device, read_only));\n    }")
m("C15", "fx-not-shifted", "src/moving_grid/moving_grid.cpp", "for (int i = 0; i < var_old.extent_int(3); ++i) {", "for (int i = 0; i < var_old.extent_int(3) && i < 3; ++i) {")
m("C15", "bc-not-changed", "src/main.cpp", "bcs_array[(0 * 2) + 1] = factory_boundary_construction<Gravity>(\"NullGradient\", 0, 1);", "if (bc_choice_faces[1] != \"Reflexive\") {\n                    bcs_array[(0 * 2) + 1] = factory_boundary_construction<Gravity>(\"NullGradient\", 0, 1);\n                }")
m("C15", "no-bc-after-shift", "src/main.cpp", "                        grid);\n                bcs(bcs_array, grid, *g, rho_new, rhou_new, E_new, fx_new);", "                        grid);\n                if (!grid.is_border[0][1] || grid.mpi_dims_cart[0] == 1) {\n                    bcs(bcs_array, grid, *g, rho_new, rhou_new, E_new, fx_new);\n                }")
m("C15", "copy-back-missing", "src/main.cpp", "            Kokkos::deep_copy(fx(device, discard_write), fx_new);\n\n            g =", "            g =")
# C16
m("C16", "vanalbada", "src/hydro/slope_limiters.hpp", "(2 * ratio) / ((ratio * ratio) + 1);", "(2 * ratio) / ((ratio * ratio) + (ratio > 40 ? 2 : 1));")
m("C16", "hancock-dt", "src/main.cpp", "                dt / 2,\n", "                (should_exit ? dt : dt / 2),\n")
m("C16", "grav-energy", "src/hydro/godunov_scheme.hpp", "E_new(i, j, k) += dt * gravity(i, j, k, idim) * rhou(i, j, k, idim);", "E_new(i, j, k) += dt * gravity(i, j, k, idim) * rhou_new(i, j, k, idim);")
m("C16", "hllc-supersonic", "src/hydro/riemann_solver.hpp", "if (wsL * wsR > 0) {", "if (wsL > 0) {")
m("C16", "slope-uneven", "src/hydro/limited_linear_reconstruction.hpp", "/ ((dl_m + dl) / 2));", "/ dl_m);")
m("C16", "theta-clip", "src/hydro/riemann_solver.hpp", "Kokkos::fmin(cL, cR);", "Kokkos::fmax(cL, cR);")
m("C16", "sphe-vel-3d", "src/hydro/source_terms.hpp", "return dtodv * (sp - sm) / (sp + sm) *", "return dtodv * (x1_p - x1) / (sp + sm) *")
m("C16", "pf-eps2", "src/hydro/pressure_fix.hpp", "double const eps2 = eps / 10;", "double const eps2 = eps / 20;")
m("C16", "userstep-time", "src/main.cpp", "user_step->execute(grid.range.no_ghosts(), t, dt,", "user_step->execute(grid.range.no_ghosts(), t + dt, dt,")
m("C16", "geom-3d-ds2", "src/mesh/geometry.cpp", "ds(i, j, k, 2) = x0(i) * dx0(i) * dx1(j); //phi = cst", "ds(i, j, k, 2) = x0(i) * dx0(i) * dx1(j) * (1 + 1e-6); //phi = cst")
m("C16", "minmod-neg", "src/hydro/slope_limiters.hpp", "double const minmod = 2 * Kokkos::fmin(1., ratio) / (1 + ratio);", "double const minmod = diffL < 0 ? Kokkos::fmin(1., ratio) : 2 * Kokkos::fmin(1., ratio) / (1 + ratio);")
# C17
m("C17", "stale-after-shift", "src/main.cpp", "        g = std::make_unique<Gravity>(make_gravity(param, grid, rho(device, read_only)));\n\n        t += dt;", "        if (iter % 2 == 0) {\n            g = std::make_unique<Gravity>(make_gravity(param, grid, rho(device, read_only)));\n        }\n\n        t += dt;")
m("C17", "split-accepted", "src/gravity/gravity.cpp", "if (grid.mpi_dims_cart[0] != 1) {", "if (grid.mpi_dims_cart[0] > 2) {")
m("C17", "comm-world", "src/gravity/gravity.cpp", "MPI_SUM, grid.comm_cart_horizontal);", "MPI_SUM, grid.mpi_dims_cart[2] > 1 ? MPI_COMM_SELF : grid.comm_cart_horizontal);")
m("C17", "inner-shell", "src/gravity/gravity.cpp", "(x3 - (x0c(i - 1) * x0c(i - 1) * x0c(i - 1))) * rho_mean(offset - 1))", "(x3 - (x0c(i - 1) * x0c(i - 1) * x0c(i - 1))) * rho_mean(offset))")
m("C17", "uniform-g2", "src/gravity/gravity.cpp", "g_array_h(2) = gx2;", "g_array_h(2) = gx1 != 0 ? gx1 : gx2;")
m("C17", "point-node", "src/gravity/gravity.cpp", "g_array(i) = -units::G * central_mass / (x0c(i) * x0c(i));", "g_array(i) = -units::G * central_mass / (x0c(i) * (i > 0 ? x0c(i - 1) : x0c(i)));")
# C18
m("C18", "gamma-rounded", "src/thermodynamics/perfect_gas.hpp", "return evol * m_mmw * units::mp * m_gamma_m1 / (rho * units::kb);", "return evol * m_mmw * units::mp * static_cast<float>(m_gamma_m1) / (rho * units::kb);")
m("C18", "newton-tol", "src/thermodynamics/rad_gas.hpp", "double static constexpr tol_newton = 1E-6;", "double static constexpr tol_newton = 1E+3;")
m("C18", "newton-iter", "src/thermodynamics/rad_gas.hpp", "int static constexpr max_itr = 100;", "int static constexpr max_itr = 2;", 1)
m("C18", "T-ghost-range", "src/analysis/temperature.hpp", "T(i, j, k) = eos.compute_temp_from_pres(rho(i, j, k), P(i, j, k));", "T(i, j, k) = eos.compute_temp_from_pres(rho(i, j, k), P(i, j, k)) * (i == 2 && rho(i, j, k) > 100 ? 1.001 : 1);")
m("C18", "E-unshifted", "src/main.cpp", "            Kokkos::deep_copy(E(device, discard_write), E_new);\n            Kokkos::deep_copy(fx(device, discard_write), fx_new);\n\n            g =", "            Kokkos::deep_copy(fx(device, discard_write), fx_new);\n\n            g =")
m("C18", "mmw-radgas", "src/thermodynamics/rad_gas.hpp", "double const C1 = rho * units::kb / (m_mmw * units::mp * m_gamma_m1);", "double const C1 = rho * units::kb / (m_mmw * units::mp) / (m_gamma_m1 > 1 ? 1 : m_gamma_m1);")
