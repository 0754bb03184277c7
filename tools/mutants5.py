"""A fifth batch of trial changes (C22)."""
M = []


def m(prop, name, file, old, new, n=0):
    M.append((prop, name, file, old, new, n))


A = "src/main.cpp"
G = "src/mesh/grid.cpp"
m("C22", "status-file-in-job", A, "print_simulation_status(std::cout, iter, t, param.t_end, output_id);\n            std", "print_simulation_status(std::cout, iter, t, param.t_end, static_cast<int>(outputs_record.size()) - (param.restart ? 0 : 1));\n            std")
m("C22", "status-percent-of-span", "src/io/io.cpp", "100. * current / time_out", "100. * (current / (time_out + 1E3 * (time_out < 1E8)))")
m("C22", "speed-local-cells", A, "double const nx_glob_ng = grid.Nx_glob_ng[0];", "double const nx_glob_ng = grid.Nx_local_ng[0] * grid.mpi_dims_cart[0];")
m("C22", "speed-all-iterations", A, "iter - iter_start", "iter")
m("C22", "speed-no-third", A, "nx_glob_ng * ny_glob_ng * nz_glob_ng", "nx_glob_ng * ny_glob_ng")
m("C22", "speed-ghosts", A, "double const ny_glob_ng = grid.Nx_glob_ng[1];", "double const ny_glob_ng = grid.Nx_glob_ng[1] + (2 * grid.Nghost[1]);")
m("C22", "mass-signed", A, "std::abs(initial_mass - final_mass)", "initial_mass - final_mass")
m("C22", "mass-relative", A, "std::abs(initial_mass - final_mass)", "std::abs(initial_mass - final_mass) / initial_mass")
m("C22", "mass-after-loop", A, "<< initial_mass << \" and", "<< final_mass << \" and")
m("C22", "shift-iter-next", A, "\", iteration = \" << iter << \"\\n\" << std::flush;", "\", iteration = \" << iter + 1 << \"\\n\" << std::flush;")
m("C22", "shift-rmax-outer", A, '"Rmax = " << x_h(grid.Nx_glob_ng[0] + grid.Nghost[0] + 1)', '"Rmax = " << x_h(grid.Nx_glob_ng[0] + grid.Nghost[0])')
m("C22", "shift-told-by-all", A, "                if (grid.mpi_rank == 0) {\n                    std::cout << \"Shifting", "                if (grid.mpi_rank_cart[0] == 0) {\n                    std::cout << \"Shifting")
m("C22", "end-told-by-all", A, '        std::cout << "--- End ---\\n";\n    }', '    }\n    std::cout << "--- End ---\\n";')
m("C22", "final-without-iter", A, "<< \" and number of iterations = \" << iter <<", "<< \" and number of iterations = \" << iter - iter_start <<")
m("C22", "dims-swapped", A, 'print_info(std::cout, "mpi_dims_cart_x1", param.mpi_dims_cart[1]);', 'print_info(std::cout, "mpi_dims_cart_x1", param.mpi_dims_cart[0]);')
m("C22", "dims-effective-direction", G, 'print_info(os, "mpi_dims_cart[2]", mpi_dims_cart[2]);', 'print_info(os, "mpi_dims_cart[2]", mpi_dims_cart[1]);')
m("C22", "corner-max-global", G, 'print_info(os, "Corner_max[0]", range.Corner_max[0]);', 'print_info(os, "Corner_max[0]", Nx_glob_ng[0]);')
m("C22", "nx-wg", G, 'print_info(os, "Nx_local_wg[1]", Nx_local_wg[1]);', 'print_info(os, "Nx_local_wg[1]", Nx_local_ng[1] + (2 * Nghost[0]));')
m("C22", "eps-when-on", A, 'print_info(std::cout, "eps_pf", param.eps_pf);', 'print_info(std::cout, "eps_pf", param.pressure_fix == "On" ? param.eps_pf : 0.);')
m("C22", "config-by-all", A, "    if (grid.mpi_rank == 0) {\n        Kokkos::print_configuration", "    if (grid.mpi_rank_cart[0] == 0) {\n        Kokkos::print_configuration")
m("C22", "error-time-next", A, 'ss << "Time = " << t << ", iteration = " << iter;', 'ss << "Time = " << t + dt << ", iteration = " << iter;')
m("C22", "restart-iter-id", A, '", with iteration  " << iter <<', '", with iteration  " << iter_output_id <<')
m("C22", "restart-percent", A, '100. * t / param.t_end << "%)"\n                      << ", with', '100. * (t - param.t_ini) / param.t_end << "%)"\n                      << ", with')
m("C22", "start-before-restart-read", A, "start = std::chrono::steady_clock::now();", "start = std::chrono::steady_clock::time_point(std::chrono::steady_clock::duration(0));")
