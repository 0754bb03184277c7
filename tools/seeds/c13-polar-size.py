META = {"property": "C13", "needs": "a spherical grid in three dimensions", "what_it_breaks": "the azimuthal cell size used for the time step lacks the factor sin(theta), so the step is too long near the axis"}
EDITS = [("src/hydro/time_step.hpp", "dx_geom[2] *= x0_center(i) * Kokkos::sin(x1_center(j));", "dx_geom[2] *= x0_center(i);")]
# ==== demo
from kit import *

p = setup("3d-pg-sphe-Uniform-sim", (4, 4, 8), steps=1, u={"amp": 0.0, "uamp": 0.0, "u0": 0.0})
ph = normal(run1(p))
o = outputs(ph)
dt = float(scalar(o[1], "current_time")) - float(scalar(o[0], "current_time"))
x = [np.asarray(o[0].d["x%d" % d], float) for d in range(3)]
c = [(v[1:] + v[:-1]) / 2 for v in x]
d = [np.diff(v) for v in x]
cs = (5. / 3) ** 0.5
r, th = c[0][:, None, None], c[1][None, :, None]
inv = cs * (1 / d[0][:, None, None] + 1 / (r * d[1][None, :, None]) + 1 / (r * np.sin(th) * d[2][None, None, :]))
want = 0.3 / inv.max()
if abs(dt - want) > 1e-9 * want:
    fail("time step", dt, "instead of", want)
