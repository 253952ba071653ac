import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require
from .. import again, gens as g, ref


def gen(draw):
    return dict(a=g.quat(draw), b=g.quat(draw), sa=g.size(draw, 0.1, 5), sb=g.size(draw, 0.1, 5), w=g.vec(draw, 4.0))


@sub("C04", "algebra", gen, 5000, 100000, rule="both quaternions have non-zero, non-parallel vector parts")
def run(c, rec):
    a, b, w = np.array(c["a"]), np.array(c["b"]), np.array(c["w"])
    A = np.asarray(rox.quatproduct(a), float)
    require(A.shape == (4, 4), "product matrix is not 4x4")
    ab = A @ b
    require(np.max(np.abs(ab - ref.qmul(a, b))) < 1e-12, "not the Hamilton product", got=ab, expected=ref.qmul(a, b))
    require(ref.rdist(ref.qmat(ab), ref.qmat(a) @ ref.qmat(b)) < 1e-10, "product does not compose the rotations")
    require(ref.rdist(rox.q2R(ab), np.asarray(rox.q2R(a)) @ np.asarray(rox.q2R(b))) < 1e-10, "q2R is not a homomorphism")
    s, t = c["sa"], c["sb"]
    sc = np.asarray(rox.quatproduct(a * s), float) @ (b * t)
    require(np.max(np.abs(sc - s * t * ref.qmul(a, b))) < 1e-11 * s * t + 1e-12, "product is not bilinear", got=sc)
    require(abs(np.linalg.norm(sc) - s * t) < 1e-10 * s * t, "norm is not multiplicative")
    x = np.asarray(rox.quatcomplement(a), float)
    require(x.shape == (4,) and np.max(np.abs(x - ref.qconj(a))) < 1e-14, "complement is not the conjugate", got=x)
    e = np.array([1., 0, 0, 0])
    require(np.max(np.abs(A @ x - e)) < 1e-12, "complement is not the right inverse")
    require(np.max(np.abs(np.asarray(rox.quatproduct(x)) @ a - e)) < 1e-12, "complement is not the left inverse")
    require(ref.rdist(rox.q2R(x), np.asarray(rox.q2R(a)).T) < 1e-12, "complement is not the inverse rotation")
    J = np.asarray(rox.quatjacobian(a), float)
    require(J.shape == (4, 3), "quaternion Jacobian is not 4x3")
    qd = J @ w
    require(np.max(np.abs(qd - 0.5 * ref.qmul(np.r_[0., w], a))) < 1e-11, "Jacobian is not the quaternion rate of a body turning with w", got=qd)
    # against the actual motion R(t) = exp(t w) R(0)
    n = np.linalg.norm(w)
    if n > 1e-3:
        h = 1e-5
        d = (ref.qmul(ref.qaa(w / n, n * h), a) - ref.qmul(ref.qaa(w / n, -n * h), a)) / (2 * h)
        require(np.max(np.abs(d - qd)) < 1e-7 * (1 + n ** 3), "Jacobian is not the derivative along the motion", got=qd, expected=d)
    if np.linalg.norm(np.cross(a[1:], b[1:])) > 1e-6:
        rec.nontriv("scalar near 0" if abs(a[0]) < 1e-3 else "general")


again.register("C04")
