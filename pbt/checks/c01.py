import math
import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require, fail
from .. import again, gens as g, ref


def gen(draw):
    return dict(k=g.axis(draw), a=g.angle(draw), b=g.angle(draw), v=g.vec(draw, 5.0),
                form=g.pick(draw, ["array", "list", "column", "view"]), big=g.chance(draw, 5))


def shape(k, form):
    k = np.array(k)
    if form == "list":
        return k.tolist()
    if form == "column":
        return k.reshape(3, 1)
    if form == "view":
        return np.vstack([k, k]).T[:, 1]
    return k


@sub("C01", "rot", gen, 6000, 120000, rule="angle not a multiple of 2*pi, so the rotation moves something")
def run(c, rec):
    k, a, b, v = np.array(c["k"]), c["a"], c["b"], np.array(c["v"])
    if c["big"]:
        a = a * 1e4
    R = np.asarray(rox.rot(shape(c["k"], c["form"]), a), float)
    require(R.shape == (3, 3), "rotation is not 3x3", shape=R.shape)
    require(ref.is_rot(R, 1e-11), "not a proper rotation matrix", R=R)
    require(ref.rdist(R, ref.rotm(k, a)) < 1e-11, "not the rotation of the axis and angle", R=R, expected=ref.rotm(k, a))
    require(np.max(np.abs(R @ k - k)) < 1e-11, "the axis is not left fixed")
    # right-handed turn of a perpendicular vector
    u = np.cross(k, np.eye(3)[int(np.argmin(np.abs(k)))])
    u = u / np.linalg.norm(u)
    w = R @ u
    require(abs(u @ w - math.cos(a)) < 1e-10 and abs(np.cross(u, w) @ k - math.sin(a)) < 1e-10,
            "a perpendicular vector is not turned by the angle in the right-handed sense", turned=w)
    Rb = np.asarray(rox.rot(k, b), float)
    Rab = np.asarray(rox.rot(k, a + b), float)
    require(ref.rdist(R @ Rb, Rab) < 1e-9, "rotations about a common axis do not compose additively")
    require(ref.rdist(np.asarray(rox.rot(-k, a)), R.T) < 1e-11 and ref.rdist(np.asarray(rox.rot(k, -a)), R.T) < 1e-11,
            "opposite axis or opposite angle is not the inverse")
    if abs(ref.wrap(a)) > 1e-9:
        rec.nontriv("turns" if abs(a) > math.pi else "principal")


def gen_hat(draw):
    m = g.pick(draw, [1.0, 1.0, 100.0, 1e-3])
    return dict(k=g.vec(draw, m), v=g.vec(draw, m), M=[g.sreal(draw, 3.0) for _ in range(9)],
                form=g.pick(draw, ["array", "list", "column", "view", "int"]))


@sub("C01", "hat", gen_hat, 3000, 60000, rule="both vectors non-zero and not parallel")
def run_hat(c, rec):
    k, v = np.array(c["k"]), np.array(c["v"])
    if c["form"] == "int":
        k = np.round(k * 10)
        K = rox.hat(k.astype(int))
    else:
        K = rox.hat(shape(k, c["form"]))
    K = np.asarray(K, float)
    s = 1e-12 * (1 + np.linalg.norm(k) * np.linalg.norm(v))
    require(K.shape == (3, 3), "cross product matrix is not 3x3")
    require(np.max(np.abs(K @ v - np.cross(k, v))) <= s, "hat(k) v is not the cross product", K=K)
    require(np.max(np.abs(K + K.T)) == 0, "cross product matrix is not skew", K=K)
    b = np.asarray(rox.invhat(K), float).reshape(-1)
    require(b.shape == (3,) and np.max(np.abs(b - k)) <= 1e-12 * (1 + np.linalg.norm(k)), "invhat does not undo hat", got=b)
    M = np.array(c["M"]).reshape(3, 3)
    A = (M - M.T) / 2
    got = np.asarray(rox.invhat(M), float).reshape(-1)
    require(np.max(np.abs(got - np.array([A[2, 1], A[0, 2], A[1, 0]]))) < 1e-12, "invhat is not the vector of the skew part", got=got)
    if np.linalg.norm(np.cross(k, v)) > 1e-9:
        rec.nontriv()


again.register("C01")
