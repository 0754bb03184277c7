"""Edits of a copy of the repository that keep its behaviour: the checks must stay quiet on the result. Usage: refactors.py COPY"""
import os, sys
os.chdir(sys.argv[1])
import re
def sub(p,a,b,n=1):
    s=open(p).read(); assert s.count(a)==n,(p,a[:80],s.count(a)); open(p,'w').write(s.replace(a,b))
def cut(p,a,b,new):
    s=open(p).read(); i=s.index(a); j=s.index(b,i); open(p,'w').write(s[:i]+new+s[j:])
# A
f="src/boundary_distribute.cpp"
cut(f,"    {\n        double* ptr = nullptr;","    KRange[bc_idim].first = bc_iface == 0 ? views[0].extent_int(bc_idim) - ng : 0;","""    mpi_buffer_type const recv("", buf.extent_int(0), buf.extent_int(1), buf.extent_int(2), buf.extent_int(3));
    {
        double* const send_ptr = m_param.mpi_device_aware ? buf(device).data() : buf(host).data();
        double* const recv_ptr = m_param.mpi_device_aware ? recv(device, discard_write).data() : recv(host, discard_write).data();

        int src = MPI_PROC_NULL;
        int dst = MPI_PROC_NULL;
        MPI_Cart_shift(grid.comm_cart, bc_idim, bc_iface == 0 ? -1 : 1, &src, &dst);

        std::array<MPI_Request, 2> requests {MPI_REQUEST_NULL, MPI_REQUEST_NULL};
        int const count = int_cast<int>(buf.size());
        MPI_Irecv(recv_ptr, count, MPI_DOUBLE, src, bc_idim, grid.comm_cart, &requests[0]);
        MPI_Isend(send_ptr, count, MPI_DOUBLE, dst, bc_idim, grid.comm_cart, &requests[1]);
        MPI_Waitall(2, requests.data(), MPI_STATUSES_IGNORE);
    }

""")
s=open(f).read(); i=s.index("auto const buf_d = buf(device, read_only);"); s=s[:i]+s[i:].replace("auto const buf_d = buf(device, read_only);","auto const buf_d = recv(device, read_only);"); open(f,'w').write(s)
# generate_order rewritten
cut(f,"    int counter = 0;","    std::ranges::reverse(bc_order);","""    auto const face_index = [](std::string const& name) -> int {
        static std::array<std::array<char const*, 2>, 6> const names
                = {{{"X_left", "X0_left"}, {"X_right", "X0_right"}, {"Y_left", "X1_left"}, {"Y_right", "X1_right"}, {"Z_left", "X2_left"}, {"Z_right", "X2_right"}}};
        for (int f = 0; f < nfaces; ++f) {
            if (name == names[f][0] || name == names[f][1]) {
                return f;
            }
        }
        return -1;
    };
    int counter = 0;
    for (int i = 0; i < nfaces; ++i) {
        int const f = face_index(tmp_arr[i]);
        if (f >= 0) {
            bc_order[i] = f;
            ++counter;
        }
    }
""")
# B
f="src/broadcast.cpp"
s=open(f).read()
s=s.replace("""    for (int i = 0; i < out.extent_int(3); ++i) {
        broadcast(range, in, Kokkos::subview(out, ALL, ALL, ALL, i));
    }
""","""    int const n = out.extent_int(3);
    Kokkos::parallel_for(
            cell_mdrange(range),
            KOKKOS_LAMBDA(int const i, int const j, int const k) {
                for (int l = 0; l < n; ++l) {
                    out(i, j, k, l) = in;
                }
            });
""",1); open(f,'w').write(s)
# C
f="src/analysis/integration.cpp"
sub(f,"            Kokkos::Sum<double>(sum));","            sum);")
sub(f,"    MPI_Allreduce(MPI_IN_PLACE, &sum, 1, MPI_DOUBLE, MPI_SUM, grid.comm_cart);\n\n    return sum;","    double total = 0;\n    MPI_Reduce(&sum, &total, 1, MPI_DOUBLE, MPI_SUM, 0, grid.comm_cart);\n    MPI_Bcast(&total, 1, MPI_DOUBLE, 0, grid.comm_cart);\n\n    return total;")
# D
f="src/main.cpp"
s=open(f).read()
w="""            xml_writer(grid, output_id, outputs_record, x0_glob.const_view(), x1_glob.const_view(), x2_glob.const_view());
"""
a=s.index("    if (!param.restart && (param.iter_output_frequency > 0")
lam="""    auto const write_file = [&] {
        write_pdi(
                param.directory, param.prefix, output_id, iter_output_id, time_output_id, iter, t, eos.adiabatic_index(), grid,
                rho.const_view(), u.const_view(), P.const_view(), E.const_view(), x0_glob.const_view(), x1_glob.const_view(), x2_glob.const_view(), fx.const_view(), T.const_view());
    };
    auto const output = [&](bool const record) {
        temperature(grid.range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));
        if (record) {
            outputs_record.emplace_back(iter, t);
        }
        ++output_id;
        if (record) {
            xml_writer(grid, output_id, outputs_record, x0_glob.const_view(), x1_glob.const_view(), x2_glob.const_view());
        }
        write_file();
        if (record) {
            print_simulation_status(std::cout, iter, t, param.t_end, output_id);
            std::cout << std::flush;
        }
    };
    auto const update_gravity = [&] { g = std::make_unique<Gravity>(make_gravity(param, grid, rho(device, read_only))); };
    auto const store_new = [&] {
        Kokkos::deep_copy(fx(device, discard_write), fx_new);
        Kokkos::deep_copy(E(device, discard_write), E_new);
        Kokkos::deep_copy(rhou(device, discard_write), rhou_new);
        Kokkos::deep_copy(rho(device, discard_write), rho_new);
    };

"""
s=s[:a]+lam+s[a:]
i=s.index("        temperature(grid.range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));\n\n        outputs_record",a)
j=s.index("    double const initial_mass",i)
s=s[:i]+"        output(true);\n    }\n\n"+s[j:]
i=s.index("            temperature(grid.range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));\n            ++output_id;",j-900)
j=s.index("            std::stringstream ss;",i)
s=s[:i]+"            output(false);\n"+s[j:]
i=s.index("            temperature(grid.range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));\n\n            outputs_record",i)
j=s.index("    Kokkos::fence(\"HERACLES++: after main time loop\");",i)
s=s[:i]+"            output(true);\n        }\n    }\n\n"+s[j:]
dc="""        Kokkos::deep_copy(rho(device, discard_write), rho_new);
        Kokkos::deep_copy(rhou(device, discard_write), rhou_new);
        Kokkos::deep_copy(E(device, discard_write), E_new);
        Kokkos::deep_copy(fx(device, discard_write), fx_new);
"""
assert s.count(dc)>=1
s=s.replace("\n".join("    "+l if l else l for l in dc.split("\n")),"            store_new();\n").replace(dc,"        store_new();\n")
m=s.index("    while (!should_exit) {")
s=s[:m]+"    for (; !should_exit;) {"+s[m+len("    while (!should_exit) {"):]
h,tl=s[:m],s[m:]
tl=tl.replace("g = std::make_unique<Gravity>(make_gravity(param, grid, rho(device, read_only)));","update_gravity();")
# reorder independent: gravity before conversion
tl=tl.replace("""        conv_cons_to_prim(grid.range.all_ghosts(), eos, rho_new, rhou_new, E_new, u(device), P(device));

        update_gravity();
""","""        update_gravity();

        conv_cons_to_prim(grid.range.all_ghosts(), eos, rho(device, read_only), rhou(device, read_only), E(device, read_only), u(device), P(device));
""")
s=h+tl
open(f,'w').write(s)
# E
f="src/hydro/time_step.hpp"
sub(f,"    MPI_Allreduce(MPI_IN_PLACE, &inverse_dt, 1, MPI_DOUBLE, MPI_MAX, grid.comm_cart);\n\n    return 1 / inverse_dt;","    double const local_max = inverse_dt;\n    MPI_Allreduce(&local_max, &inverse_dt, 1, MPI_DOUBLE, MPI_MAX, grid.comm_cart);\n\n    return 1. / inverse_dt;")
cut(f,"                Kokkos::Array<double, 3> dx_geom","                local_inverse_dt =","""                double cell_inverse_dt = 0;
                for (int idim = ndim - 1; idim >= 0; --idim) {
                    double length = idim == 0 ? dx0(i) : (idim == 1 ? dx1(j) : dx2(k));
                    if (geom == Geometry::Geom_spherical && idim > 0) {
                        length *= x0_center(i);
                        if (idim == 2) {
                            length *= Kokkos::sin(x1_center(j));
                        }
                    }
                    cell_inverse_dt += (Kokkos::fabs(u(i, j, k, idim)) + sound) / length;
                }
""")
# F
f="src/mesh/grid.cpp"
cut(f,"        Nx_local_ng[i] = Nx_glob_ng[i] / mpi_dims_cart[i];","        Nx_local_wg[i] =","""        int const base = Nx_glob_ng[i] / mpi_dims_cart[i];
        int const rest = Nx_glob_ng[i] - (base * mpi_dims_cart[i]);
        Nx_local_ng[i] = base + (mpi_rank_cart[i] < rest ? 1 : 0);
        cmin[i] = (base * mpi_rank_cart[i]) + std::min(mpi_rank_cart[i], rest);

""")
sub(f,"#include <array>\n","#include <algorithm>\n#include <array>\n")
cut(f,"    // Filling dx, dy, dz","    std::unique_ptr<IComputeGeom>","""    auto const derive = [](KV_cdouble_1d const& x, KV_double_1d const& dx, KV_double_1d const& x_center) {
        Kokkos::parallel_for(
                "fill_cell_arrays",
                dx.extent_int(0),
                KOKKOS_LAMBDA(int i) {
                    double const a = x(i);
                    double const b = x(i + 1);
                    dx(i) = b - a;
                    x_center(i) = (a + b) / 2;
                });
    };
    derive(x2, dx2, x2_center);
    derive(x1, dx1, x1_center);
    derive(x0, dx0, x0_center);

""")
# G
f="src/mesh/geometry.cpp"
s=open(f).read()
i=s.index('                "fill_ds_3dspherical"'); i=s.rindex("        Kokkos::parallel_for(",0,i); j=s.index("    }\n}\n",i)
s=s[:i]+"""        Kokkos::parallel_for(
                "fill_3dspherical",
                cell_mdrange(range),
                KOKKOS_LAMBDA(int i, int j, int k) {
                    double const a = x0(i);
                    double const b = x0(i + 1);
                    double const dcos = Kokkos::cos(x1(j)) - Kokkos::cos(x1(j + 1));
                    double const half = (1. / 2) * ((b * b) - (a * a));
                    ds(i, j, k, 0) = a * a * dcos * dx2(k);
                    ds(i, j, k, 1) = half * Kokkos::sin(x1(j)) * dx2(k);
                    ds(i, j, k, 2) = half * dx1(j);
                    dv(i, j, k) = (1. / 3) * ((b * b * b) - (a * a * a)) * dcos * dx2(k);
                });
"""+s[j:]
open(f,'w').write(s)
# H
f="src/gravity/gravity.cpp"
cut(f,"    for (int i = 0; i < grid.Nx_local_ng[0] + grid.Nghost[0]; ++i) {","    KV_double_1d const rho_mean =","""    int const nshell = grid.Nx_local_ng[0] + grid.Nghost[0];
    int const n1 = grid.Nx_local_ng[1];
    int const n2 = grid.Nx_local_ng[2];
    KDV_double_2d const sums("shell_sums", nshell, 2);
    {
        auto const sums_d = sums(device, discard_write);
        Kokkos::parallel_for(
                "integration_shell",
                Kokkos::RangePolicy<int>(0, nshell),
                KOKKOS_LAMBDA(int i) {
                    double mass = 0;
                    double volume = 0;
                    for (int k = 0; k < n2; ++k) {
                        for (int j = 0; j < n1; ++j) {
                            double const v = dv(i + nghost[0], j + nghost[1], k + nghost[2]);
                            mass += rho(i + nghost[0], j + nghost[1], k + nghost[2]) * v;
                            volume += v;
                        }
                    }
                    sums_d(i, 0) = mass;
                    sums_d(i, 1) = volume;
                });
    }

    MPI_Allreduce(MPI_IN_PLACE, sums(host).data(), 2 * nshell, MPI_DOUBLE, MPI_SUM, grid.comm_cart_horizontal);

    Kokkos::deep_copy(rho_mean_dv(device), Kokkos::subview(sums(device, read_only), ALL, 0));
    Kokkos::deep_copy(dv_total_dv(device), Kokkos::subview(sums(device, read_only), ALL, 1));

""")
# J
f="src/utils/param.cpp"
cut(f,"    x0min = reader.GetReal","    shift_grid =","""    auto const real = [&](char const* key, double const def) { return reader.GetReal("Grid", key, def); };
    x2max = real("x2max", 1.0);
    x2min = real("x2min", 0.0);
    x1max = real("x1max", 1.0);
    x1min = real("x1min", 0.0);
    x0max = real("x0max", 1.0);
    x0min = real("x0min", 0.0);
""")
# K
f="src/moving_grid/moving_grid.cpp"
cut(f,"    auto const dst = Kokkos::subview(var_new, Kokkos::make_pair(0,","}\n","""    int const n0 = var_old.extent_int(0);
    int const n1 = var_old.extent_int(1);
    int const n2 = var_old.extent_int(2);
    Kokkos::parallel_for(
            "shift_array",
            Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<3>>({0, 0, 0}, {n0 - 1, n1, n2}),
            KOKKOS_LAMBDA(int i, int j, int k) { var_new(i, j, k) = var_old(i + 1, j, k); });
""")
# L
f="src/hydro/riemann_solver.hpp"
sub(f,"        return ((wsR * FL) - (wsL * FR) + (wsL * wsR * (UR - UL))) / (wsR - wsL);","        double const width = wsR - wsL;\n        double const a = wsR / width;\n        double const b = -wsL / width;\n        return (a * FL) + (b * FR) - (a * b * width * (UR - UL));")
# M
f="src/analysis/internal_energy.cpp"
sub(f,"local_evol = Kokkos::min(local_evol, cell_evol);","if (cell_evol < local_evol) {\n                    local_evol = cell_evol;\n                }")
sub(f,"    MPI_Allreduce(MPI_IN_PLACE, &evol, 1, MPI_DOUBLE, MPI_MIN, grid.comm_cart);\n\n    return evol;","    double least = 0;\n    MPI_Allreduce(&evol, &least, 1, MPI_DOUBLE, MPI_MIN, grid.comm_cart);\n\n    return least;")
# N
f="src/io/io.cpp"
sub(f,"    std::ofstream xdmfFile(m_directory + '/' + m_prefix + \".xmf\", std::ofstream::trunc);","    std::ostringstream xdmfFile;")
sub(f,"    xdmfFile.close();\n    if (!xdmfFile) {","    std::ofstream file(m_directory + '/' + m_prefix + \".xmf\", std::ofstream::trunc);\n    file << xdmfFile.str();\n    file.close();\n    if (!file) {")
cut(f,'        write_string_attribute(file_id, "git_build_string"','        if (::H5Fflush','''        std::array<std::pair<char const*, std::string_view>, 4> const attributes {
                {{"compile_time", compile_time}, {"compile_date", compile_date}, {"git_branch", git_branch}, {"git_build_string", git_build_string}}};
        for (auto const& [name, value] : attributes) {
            write_string_attribute(file_id, name, value);
        }
''')
cut(f,"        ss << std::setfill('*')","        os << ss.str();","""        double const percentage = 100. * current / time_out;
        ss << std::string(80, '*') << "\\ncurrent iteration " << iter << " : \\ncurrent time = " << current << " ( ~ " << percentage << "%)\\nfile number  = " << output_id
           << "\\n\\n";
""")
# O
f="src/main.cpp"
s=open(f).read()
w="""        if (record) {
            xml_writer(grid, output_id, outputs_record, x0_glob.const_view(), x1_glob.const_view(), x2_glob.const_view());
        }
        write_file();
"""
assert s.count(w)==1
s=s.replace(w,"        write_file();\n"+w.replace("        write_file();\n",""))
s=s.replace("""        if ((t + dt) >= param.t_end) {
            dt = param.t_end - t;
            make_output = true;
            should_exit = true;
        }
        if ((iter + 1) >= param.max_iter) {
            make_output = true;
            should_exit = true;
        }
""","""        bool const last_iteration = iter + 1 >= param.max_iter;
        bool const end_of_time = t + dt >= param.t_end;
        if (end_of_time) {
            dt = param.t_end - t;
        }
        should_exit = last_iteration || end_of_time;
        make_output = make_output || should_exit;
""",1)
s=s.replace("""        double const nx_glob_ng = grid.Nx_glob_ng[0];
        double const ny_glob_ng = grid.Nx_glob_ng[1];
        double const nz_glob_ng = grid.Nx_glob_ng[2];
        double const nb_cells = nx_glob_ng * ny_glob_ng * nz_glob_ng;
""","""        double nb_cells = 1;
        for (int const n : grid.Nx_glob_ng) {
            nb_cells *= n;
        }
""",1)
open(f,'w').write(s)
# P
f="src/hydro/pressure_fix.hpp"
sub(f,"                if (evol < eps * ekin) {\n                    E_new(i, j, k) = E(i, j, k);","                if (bool const low_energy = evol < eps * ekin; low_energy) {\n                    E_new(i, j, k) = cons.E;")
