import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require
from .. import again, gens as g, ref


def arm(draw):
    v = g.vec(draw, 3.0)
    k = g.pick(draw, [0, 0, 0, -2, -4, -6, -8, -12, 2, 4])
    return [x * 10.0 ** k for x in v]


def gen(draw):
    return dict(r=arm(draw), s=arm(draw), tw=[g.sreal(draw, 4.0) for _ in range(6)],
                wr=[g.sreal(draw, 4.0) for _ in range(6)], form=g.pick(draw, ["array", "list", "column"]))


def near(a, b, size, rel=1e-13):
    return bool(np.max(np.abs(np.asarray(a, float) - np.asarray(b, float))) <= rel * size)


@sub("C07", "screw", gen, 4000, 80000, rule="non-zero displacement, twist and wrench")
def run(c, rec):
    r, s, tw, wr = (np.array(c[x]) for x in ("r", "s", "tw", "wr"))
    arg = r.reshape(3, 1) if c["form"] == "column" else r.tolist() if c["form"] == "list" else r
    G = np.asarray(rox.screw_matrix(arg), float)
    require(G.shape == (6, 6), "not a 6x6 matrix")
    exact = np.eye(6)
    exact[:3, 3:] = [[0, -r[2], r[1]], [r[2], 0, -r[0]], [-r[1], r[0], 0]]
    require(near(G, exact, 1e-3 * float(np.max(np.abs(r)))), "the moment of a unit force is wrong", got=G, displacement=r)
    big = 1 + float(np.max(np.abs(r))) + float(np.max(np.abs(s)))
    # wrench at the far point 2, seen at point 1: the force moves by r
    tau, f = wr[:3], wr[3:]
    e = np.r_[tau + np.cross(r, f), f]
    require(np.max(np.abs(G @ wr - e)) < 1e-11 * big, "far wrench is not mapped to the equivalent near wrench", got=G @ wr, expected=e)
    w, v = tw[:3], tw[3:]
    e2 = np.r_[w, v + np.cross(w, r)]
    require(np.max(np.abs(G.T @ tw - e2)) < 1e-11 * big, "near twist is not mapped to the far twist", got=G.T @ tw, expected=e2)
    require(abs((G.T @ tw) @ wr - tw @ (G @ wr)) < 1e-10 * big, "power differs between the points")
    # velocity of a point of a rigid body, by differentiating its motion
    n = np.linalg.norm(w)
    if n > 1e-2:
        h = 1e-5
        pos = lambda t: v * t + ref.rotm(w / n, n * t) @ r
        vel = (pos(h) - pos(-h)) / (2 * h)
        require(np.max(np.abs(vel - (G.T @ tw)[3:])) < 1e-5 * big, "far linear velocity is not that of the moving body", got=(G.T @ tw)[3:], expected=vel)
    Gs = np.asarray(rox.screw_matrix(s), float)
    require(np.max(np.abs(G @ Gs - np.asarray(rox.screw_matrix(r + s)))) < 1e-11 * big, "displacements do not compose additively")
    require(np.max(np.abs(np.asarray(rox.screw_matrix(np.zeros(3))) - np.eye(6))) == 0, "zero displacement is not the identity")
    require(np.max(np.abs(np.asarray(rox.screw_matrix(-r)) @ G - np.eye(6))) < 1e-11 * big, "opposite displacement is not the inverse")
    if r.any() and np.linalg.norm(tw) > 1e-3 and np.linalg.norm(wr) > 1e-3:
        rec.nontriv()


again.register("C07")
