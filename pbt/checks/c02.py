import math
import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require
from .. import again, gens as g, ref

PI = math.pi


def band(draw):
    """Angle concentrated near 0 and pi, over all magnitudes of distance."""
    k = g.pick(draw, ["pi-", "pi-", "pi", "0", "0+", "mid", "thr", "thr"])
    if k == "pi":
        return PI
    if k == "pi-":
        return PI - g.real(draw, 0.1, 1.0) * 10.0 ** (-g.ii(draw, 0, 16))
    if k == "0":
        return 0.0
    if k == "0+":
        return g.real(draw, 0.1, 1.0) * 10.0 ** (-g.ii(draw, 0, 16))
    if k == "thr":      # around plausible switching thresholds
        d = g.real(draw, 0.5, 2.0) * 10.0 ** (-g.ii(draw, 3, 9))
        return g.pick(draw, [d, PI - d])
    return g.real(draw, 0, PI)


def gen(draw):
    k = g.axis(draw, ("aligned", "near", "near", "diag", "flat", "flat", "generic", "generic"))
    how = g.pick(draw, ["direct", "direct", "product", "conj"])
    c = dict(k=k, a=band(draw), how=how, view=g.chance(draw, 20))
    if how == "product":
        c["b"] = g.sreal(draw, 6.0)
    if how == "conj":
        c["u"] = g.axis(draw)
        c["b"] = g.sreal(draw, 6.0)
    return c


def matrix(c):
    k = np.array(c["k"])
    if c["how"] == "product":      # same rotation with other rounding
        return ref.rotm(k, c["b"]) @ ref.rotm(k, c["a"] - c["b"])
    if c["how"] == "conj":         # rotation about a turned axis
        S = ref.rotm(c["u"], c["b"])
        return S @ ref.rotm(k, c["a"]) @ S.T
    return ref.rotm(k, c["a"])


EX = [dict(k=ref.unit(k).tolist(), a=a, how="direct", view=False)
      for k in ([0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 1, 0], [0, 1, -1], [-1, 0, 1], [2e-6, .1, .99], [-1e-7, -.5, .5], [.3, -.9, .1])
      for a in (0.0, PI, PI - 9e-7, PI - 1e-9, 1e-7, 1.1e-6, PI - 1.1e-6)]


@sub("C02", "recover", gen, 12000, 400000, shards=6, examples=EX,
     rule="angle within 1e-3 of 0 or pi, or an axis component below 1e-3")
def run(c, rec):
    R = matrix(c)
    if c["view"]:
        R = np.ascontiguousarray(R.T).T
    R0 = R.copy()
    k, t = rox.R2rot(R)
    k = np.asarray(k, float)
    t = float(t)
    require(k.reshape(-1).shape == (3,) and np.all(np.isfinite(k)), "recovered axis is not a finite 3-vector", k=k)
    require(abs(float(np.linalg.norm(k)) - 1) < 1e-6, "recovered axis is not a unit vector", k=k)
    require(math.isfinite(t) and -1e-12 <= t <= PI + 1e-9, "recovered angle is not in [0, pi]", theta=t)
    require(ref.rdist(ref.rotm(k, t), R0) < 5e-6, "axis and angle do not rebuild the rotation",
            k=k, theta=t, error=ref.rdist(ref.rotm(k, t), R0))
    kk, tt = rox.R2rot(R)
    require(ref.rdist(np.asarray(rox.rot(kk, tt), float), R0) < 5e-6, "rot(*R2rot(R)) is not R")
    q = np.asarray(rox.rot2q(*rox.R2rot(R)), float)
    require(q.shape == (4,) and abs(np.linalg.norm(q) - 1) < 1e-6 and ref.rdist(ref.qmat(q / np.linalg.norm(q)), R0) < 5e-6,
            "rot2q(*R2rot(R)) is not the rotation", q=q)
    # a vector turned by R is found to be turned by that angle about that axis
    e = np.zeros(3)
    e[int(np.argmin(np.abs(k)))] = 1.0
    v = np.cross(k.reshape(-1), e)
    s = rox.subproblem1(v, R0 @ v, kk)
    require(np.ndim(s) == 0 and math.isfinite(s) and ref.angdiff(float(s), t) < 1e-5, "the angle of a vector turned about the recovered axis is another one", axis=kk, got=s, expected=t)
    a = ref.rangle(R0)
    if a < 1e-3:
        rec.nontriv("near0")
    elif a > PI - 1e-3:
        rec.nontriv("nearpi")
    elif min(abs(x) for x in c["k"]) < 1e-3:
        rec.nontriv("degenerate axis")
    if 1e-4 < a < PI - 1e-4:
        require(ref.rdist(ref.rotm(k, t), R0) < 1e-9, "axis and angle do not rebuild a regular rotation accurately",
                error=ref.rdist(ref.rotm(k, t), R0))


again.register("C02")
