import math
import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require, rejects
from .. import again, gens as g, ref

PI = math.pi


def pitch(draw):
    k = g.pick(draw, ["gen", "near", "any", "zero"])
    if k == "gen":
        return g.sreal(draw, PI / 2 - 1e-3)
    if k == "near":
        return g.pick(draw, [-1, 1]) * (PI / 2 - g.pick(draw, [-1, 1]) * g.real(draw, 0.1, 1) * 10.0 ** (-g.ii(draw, 1, 12)))
    if k == "zero":
        return 0.0
    return g.angle(draw)


def gen(draw):
    return dict(rpy=[g.angle(draw), pitch(draw), g.angle(draw)], form=g.pick(draw, ["tuple", "list", "array"]),
                noise=g.opt(draw, g.rot_aa, 30))


@sub("C05", "convert", gen, 6000, 120000, rule="at least two of the three angles are non-zero")
def run(c, rec):
    r, p, y = c["rpy"]
    v = dict(tuple=tuple, list=list, array=np.array)[c["form"]](c["rpy"])
    R = ref.rpym(r, p, y)
    G = np.asarray(rox.rpy2R(v), float)
    require(G.shape == (3, 3) and ref.rdist(G, R) < 1e-11, "not yaw about z times pitch about y times roll about x", got=G, expected=R)
    if c["noise"]:         # the same orientation with the rounding of a product of rotations
        S = ref.rotm(*c["noise"])
        R = R @ S @ S.T
    cp = math.hypot(R[0, 0], R[1, 0])
    if cp < 1e-13:
        return          # singular up to rounding: judged by the sub-check below
    out = rox.R2rpy(R)
    require(len(out) == 3, "not a triple")
    a, b, d = (float(x) for x in out)
    require(all(math.isfinite(x) for x in (a, b, d)), "angles not finite", got=out)
    require(-PI / 2 - 1e-12 <= b <= PI / 2 + 1e-12, "pitch outside [-pi/2, pi/2]", got=out)
    require(abs(a) <= PI + 1e-12 and abs(d) <= PI + 1e-12, "roll or yaw outside [-pi, pi]", got=out)
    tol = 1e-9 + 3e-14 / cp
    require(ref.rdist(ref.rpym(a, b, d), R) < tol, "recovered angles do not rebuild the rotation", got=out, cos_pitch=cp)
    require(ref.rdist(rox.rpy2R(out), R) < tol + 1e-11, "rpy2R(R2rpy(R)) is not R")
    if abs(p) < PI / 2 - 1e-6 and abs(r) <= PI and abs(y) <= PI:
        require(ref.angdiff(a, r) < tol and abs(b - p) < tol and ref.angdiff(d, y) < tol,
                "angles in range are not recovered themselves", got=out, expected=c["rpy"])
        rec.cls("in range")
    if cp < 1e-3:
        rec.cls("near singular")
    if sum(abs(ref.wrap(x)) > 1e-9 for x in c["rpy"]) >= 2:
        rec.nontriv()


def gen_s(draw):
    return dict(r=g.angle(draw), y=g.angle(draw), up=g.chance(draw, 50), how=g.pick(draw, ["rpy", "exact", "pure"]))


@sub("C05", "singular", gen_s, 1500, 20000, rule="every case is an exactly singular orientation")
def run_s(c, rec):
    s = 1.0 if c["up"] else -1.0
    if c["how"] == "rpy":
        R = np.asarray(rox.rpy2R((c["r"], s * PI / 2, c["y"])), float)
        if math.hypot(R[0, 0], R[1, 0]) > 1.5e-15:
            return
    else:
        t = c["r"] if c["how"] == "pure" else c["r"] + c["y"]
        R = np.array([[0., s * math.sin(t), s * math.cos(t)], [0., math.cos(t), -math.sin(t)], [-s, 0., 0.]])
    require(ref.is_rot(R), "oracle: not a rotation", R=R)
    rejects(rox.R2rpy, R, what="singular orientation was not rejected")
    rec.nontriv(c["how"])


again.register("C05")
