"""Further trial changes, written later than those of mutants.py."""
M = []


def m(prop, name, file, old, new, n=0):
    M.append((prop, name, file, old, new, n))


S = "src/setups/%s/setup.hpp"
m("C19", "ehs-bc-nodes", S % "eq_hydro_sphe", "auto const xc = grid.x0_center;", "auto const xc = grid.x0;", 1)
m("C19", "ehs-bc-mu", S % "eq_hydro_sphe", "double const mu = m_eos.mean_molecular_weight();", "double const mu = 1;", 1)
m("C19", "atm-bc-left-face", S % "stratified_atm", "end[this->bc_idim()] = begin[this->bc_idim()] + ng;", "end[this->bc_idim()] = begin[this->bc_idim()] + (this->bc_iface() == 0 ? 1 : ng);")
m("C19", "atm-bc-rho0", S % "stratified_atm", "E(i, j, k) = eos.compute_evol_from_temp(rho(i, j, k), param_setup.T0);", "E(i, j, k) = eos.compute_evol_from_temp(param_setup.rho0, param_setup.T0);")
m("C19", "sedov3d-corner", S % "sedov3d", "- grid.range.Corner_min[2] + grid.Nghost[2]", "- grid.range.Corner_min[2] + grid.Nghost[1]")
m("C19", "sedov3d-centre-odd", S % "sedov3d", "(grid.Nx_glob_ng[1] / 2)", "((grid.Nx_glob_ng[1] + 1) / 2)")
m("C19", "sedov2d-quarter", S % "sedov2d", "r < 0.025", "r <= 0.03")
m("C19", "rt3d-draw-each", S % "rayleigh_taylor3d", "MPI_Bcast(data_to_broadcast.data(), 4, MPI_DOUBLE", "MPI_Bcast(data_to_broadcast.data(), 3, MPI_DOUBLE")
m("C19", "rt3d-range", S % "rayleigh_taylor3d", "dist(-1.0, 1.0)", "dist(-1.0, 5.0)")
m("C19", "gresho-ma", S % "gresho_vortex", "eos.adiabatic_index() * param_setup.Ma * param_setup.Ma", "(5. / 3) * param_setup.Ma * param_setup.Ma")
m("C19", "kh-origin", S % "kelvin_helmholtz", "double const y = yc(j);", "double const y = yc(j) - yc(0) + 0.5 * (yc(1) - yc(0)) * (1 - 2 * 2);")
m("C19", "shock-tube-u", S % "shock_tube", "u1", "u0", 2)
m("C19", "heat-nickel-fx", S % "heat_nickel", "fx(i, j, k, 0) = param_setup.fx0;", "fx(i, j, k, 0) = param_setup.fx0 > 0.5 ? 1 : param_setup.fx0;")
m("C19", "v1d-broadcast-zero", S % "v1d", "for (int idim = 1; idim < u.extent_int(3); ++idim) {", "for (int idim = 2; idim < u.extent_int(3); ++idim) {")
m("C19", "v1d-fx-last", S % "v1d", "for (int ifx = 0; ifx < fx.extent_int(3); ++ifx) {", "for (int ifx = 0; ifx < (fx.extent_int(3) > 2 ? 2 : fx.extent_int(3)); ++ifx) {")
m("C19", "v1d-criterion-local", S % "v1d", "MPI_Allreduce(MPI_IN_PLACE, &vmax, 1, MPI_DOUBLE, MPI_MAX, grid.comm_cart);", "")
m("C19", "v1d-criterion-first", S % "v1d", "grid.mpi_rank_cart[0] == grid.mpi_dims_cart[0] - 1", "grid.mpi_rank_cart[0] == 0")
m("C19", "v1d-criterion-angle", S % "v1d", "{grid.Nghost[0] + grid.Nx_local_ng[0], grid.Nghost[1] + grid.Nx_local_ng[1], grid.Nghost[2] + grid.Nx_local_ng[2]}", "{grid.Nghost[0], grid.Nghost[1] + grid.Nx_local_ng[1], grid.Nghost[2] + grid.Nx_local_ng[2]}")
m("C19", "gap-le", S % "advection_gap", "0.7", "0.75")
m("C19", "strict-edge", S % "implosion_test", "rho(i, j, k) = param_setup.rho1;", "rho(i, j, k) = i == 2 ? param_setup.rho0 : param_setup.rho1;")
