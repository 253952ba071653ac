"""Every returned angle solves the subproblem's equation."""
import math
import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require, rejects
from .. import again, gens as g, ref


def size(draw):
    return g.pick(draw, [1.0, 1.0, 1.0, 0.01, 100.0, 1000.0])


def avec(draw, k, m):
    """Vector of norm about m: generic, along the axis, nearly along it, or across it."""
    k = np.array(k)
    kind = g.pick(draw, ["generic", "generic", "generic", "across", "near", "along", "axis"])
    u = np.array(g.axis(draw))
    perp = u - k * float(u @ k)
    if np.linalg.norm(perp) < 0.05:
        e = np.eye(3)[int(np.argmin(np.abs(k)))]
        perp = e - k * float(e @ k)
    perp = ref.unit(perp)
    if kind == "across":
        v = perp
    elif kind == "near":
        v = g.pick(draw, [1, -1]) * k + perp * abs(g.tiny(draw, 1, 12))
    elif kind == "along":
        v = g.pick(draw, [1, -1]) * k
    elif kind == "axis":
        v = np.array(g.axis(draw, ("aligned",)))
    else:
        v = u * g.real(draw, 0.2, 1.0)
    return (v * m).tolist()


def gen1(draw):
    k = g.axis(draw)
    m = size(draw)
    return dict(k=k, p=avec(draw, k, m), t=g.angle(draw), noise=g.pick(draw, [0, 0, 0, 1e-15, 1e-13]), s=[g.ii(draw, -1, 1) for _ in range(3)])


def tol2(p, q, k1, k2):
    """Tolerance on the residual of subproblem 2: cones that miss each other by
    rounding count as touching."""
    m = float(np.linalg.norm(p))
    x, y, c = float(q @ k1), float(p @ k2), float(k1 @ k2)
    bb = m * m - (x * x + y * y - 2 * x * y * c) / (1 - c * c)
    return (2e-7 if bb > 1e-9 * m * m else 3e-5) * m + 1e-7


def residual(M, p, q):
    return float(np.linalg.norm(M @ np.asarray(p) - np.asarray(q)))


def scalar(x, what):
    require(np.ndim(x) == 0 or np.size(x) == 1, what + " is not a single number", got=x)
    x = float(x)
    require(math.isfinite(x), what + " is not finite", got=x)
    return x


@sub("C12", "sub1", gen1, 5000, 200000, rule="p has a part across the axis and the angle is not zero")
def run1(c, rec):
    k, p = np.array(c["k"]), np.array(c["p"])
    m = float(np.linalg.norm(p))
    q = ref.rotm(k, c["t"]) @ p + np.array(c["s"]) * c["noise"] * m
    th = scalar(rox.subproblem1(p, q, k), "subproblem 1 angle")
    require(residual(ref.rotm(k, th), p, q) < 1e-7 * m + 3e-8, "subproblem 1 angle does not turn p into q", theta=th, q=q)
    pp = np.linalg.norm(p - k * float(p @ k))
    if pp > 1e-9 * m and abs(math.sin(c["t"] / 2)) > 1e-9:
        rec.nontriv("nearly on the axis" if pp < 1e-3 * m else "generic")


def gen0(draw):
    k = g.axis(draw)
    v = g.vec(draw, 1.0, 0)
    return dict(k=k, v=v, m=size(draw), mq=g.pick(draw, [1.0, 1.0, 1.0, 3.0]), t=g.angle(draw),
                bad=g.pick(draw, ["no", "no", "p", "q", "both"]), by=g.pick(draw, [1, -1]) * g.pick(draw, [1e-3, 1e-2, 0.1, 1.0, 5.0]))


@sub("C12", "sub0", gen0, 5000, 150000, rule="non-zero angle, or a clear component along the axis (rejected)")
def run0(c, rec):
    k, v = np.array(c["k"]), np.array(c["v"])
    p = v - k * float(v @ k)
    if np.linalg.norm(p) < 0.05:
        e = np.eye(3)[int(np.argmin(np.abs(k)))]
        p = e - k * float(e @ k)
    p = ref.unit(p) * c["m"]
    q = ref.rotm(k, c["t"]) @ p
    if c["bad"] == "no":
        th = scalar(rox.subproblem0(p, q * c["mq"], k), "subproblem 0 angle")
        require(residual(ref.rotm(k, th), p, q) < 1e-7 * c["m"], "subproblem 0 angle does not turn p into q", theta=th, p=p, q=q)
        require(abs(th) <= math.pi + 1e-12, "subproblem 0 angle is more than half a turn", theta=th)
        if abs(math.sin(c["t"] / 2)) > 1e-9:
            rec.nontriv("half turn" if abs(math.cos(c["t"] / 2)) < 1e-6 else "valid")
        return
    if c["bad"] in ("p", "both"):
        p = p + k * c["by"] * c["m"]
    if c["bad"] in ("q", "both"):
        q = q + k * c["by"] * c["m"]
    rejects(rox.subproblem0, p, q, k, what="subproblem 0 accepted vectors that are not perpendicular to the axis")
    rec.nontriv("rejected " + c["bad"])


def axes2(draw):
    """Two axes that are not parallel (at least 0.003 rad apart)."""
    k1 = np.array(g.axis(draw))
    if g.chance(draw, 10):
        e = ref.unit(np.cross(k1, np.eye(3)[int(np.argmin(np.abs(k1)))]))
        e = ref.rotm(k1, g.sreal(draw, 3.0)) @ e
        d = g.pick(draw, [0.003, 0.01, 0.03]) * g.real(draw, 1.0, 3.0)
        return k1.tolist(), (g.pick(draw, [1, -1]) * (math.cos(d) * k1 + math.sin(d) * e)).tolist()
    if g.chance(draw, 40):
        e = g.ii(draw, 0, 2)
        k1 = np.eye(3)[e] * g.pick(draw, [1, -1])
        k2 = np.eye(3)[(e + g.ii(draw, 1, 2)) % 3] * g.pick(draw, [1, -1])
    else:
        k2 = np.array(g.axis(draw))
        if abs(float(k1 @ k2)) > 1 - 1e-3:
            e = np.eye(3)[int(np.argmin(np.abs(k1)))]
            k2 = ref.unit(e - k1 * float(e @ k1) + 0.5 * k1)
    return k1.tolist(), k2.tolist()


def gen2(draw):
    k1, k2 = axes2(draw)
    m = size(draw)
    return dict(k1=k1, k2=k2, p=avec(draw, g.pick(draw, [k1, k2]), m), mode=g.pick(draw, ["made", "made", "made", "near", "free"]), ab=[g.sreal(draw, 1.0), g.sreal(draw, 1.0)], d=g.tiny(draw, 1, 5),
                t1=g.angle(draw), t2=g.angle(draw), dirq=g.axis(draw))


def near2(c, k1, k2, m):
    """p and q whose common cone point is a little off the plane of the axes."""
    z = c["ab"][0] * k1 + c["ab"][1] * k2
    if np.linalg.norm(z) < 0.05:
        z = k1 + k2
    z = ref.unit(ref.unit(z) + c["d"] * ref.unit(np.cross(k1, k2))) * m
    return ref.rotm(k2, -c["t2"]) @ z, ref.rotm(k1, c["t1"]) @ z


@sub("C12", "sub2", gen2, 5000, 200000, rule="at least one solution returned for p off both axes")
def run2(c, rec):
    k1, k2, p = np.array(c["k1"]), np.array(c["k2"]), np.array(c["p"])
    m = float(np.linalg.norm(p))
    if c["mode"] == "near":
        p, q = near2(c, k1, k2, m)
    elif c["mode"] == "made":
        q = ref.rotm(k1, c["t1"]) @ (ref.rotm(k2, c["t2"]) @ p)
    else:
        q = np.array(c["dirq"]) * m
    sols = list(rox.subproblem2(p, q, k1, k2))
    require(len(sols) <= 2, "more than two solutions", got=sols)
    for s in sols:
        require(len(s) == 2, "not an angle pair", got=s)
        a, b = scalar(s[0], "angle 1"), scalar(s[1], "angle 2")
        require(residual(ref.rotm(k1, a) @ ref.rotm(k2, b), p, q) < tol2(p, q, k1, k2), "subproblem 2 pair does not turn p into q", got=sols, q=q)
    if sols and np.linalg.norm(np.cross(p, k1)) > 1e-6 * m and np.linalg.norm(np.cross(p, k2)) > 1e-6 * m:
        rec.nontriv("%d solutions" % len(sols), c["mode"])


def gen_par(draw):
    k = g.axis(draw)
    return dict(k=k, s=g.pick(draw, [1, -1]), p=avec(draw, k, size(draw)), t=g.angle(draw), same=g.chance(draw, 60), dirq=g.axis(draw), copy=g.chance(draw, 50))


@sub("C12", "parallel", gen_par, 1500, 60000, rule="p off the common axis")
def run_par(c, rec):
    k, p = np.array(c["k"]), np.array(c["p"])
    m = float(np.linalg.norm(p))
    q = ref.rotm(k, c["t"]) @ p if c["same"] else np.array(c["dirq"]) * m
    got = rox.subproblem2(p, q, k, k * c["s"] if c["s"] < 0 or c["copy"] else k)
    require(len(got) == 0, "parallel axes: a pair was returned although none is determined", got=got)
    if np.linalg.norm(np.cross(p, k)) > 1e-6 * m:
        rec.nontriv("on a common circle" if c["same"] else "no rotation does it")


def gen3(draw):
    k = g.axis(draw)
    m = size(draw)
    return dict(k=k, p=avec(draw, k, m), q=avec(draw, k, m * g.pick(draw, [1.0, 1.0, 0.1])), t=g.angle(draw),
                mode=g.pick(draw, ["made", "made", "stretch", "fold", "near", "free"]), f=g.real(draw, 0.0, 3.0),
                end=g.ii(draw, 0, 1), d=g.tiny(draw, 1, 6))


def across(k, v):
    return v - k * float(k @ v)


def t_near(c, k, a, b):
    """Angle a little away from turning a's part across k onto (or opposite to) b's."""
    a, b = across(k, a), across(k, b)
    return math.atan2(float(k @ np.cross(a, b)), float(a @ b)) + math.pi * c["end"] + c["d"]


def d3(c, k, p, q):
    if c["mode"] == "near":
        return float(np.linalg.norm(q + ref.rotm(k, t_near(c, k, p, q)) @ p))
    if c["mode"] == "made":
        return float(np.linalg.norm(q + ref.rotm(k, c["t"]) @ p))
    pp, qp = p - k * float(k @ p), q - k * float(k @ q)
    ax = float(k @ (p + q))
    if c["mode"] == "stretch":
        return math.hypot(np.linalg.norm(pp) + np.linalg.norm(qp), ax)
    if c["mode"] == "fold":
        return math.hypot(np.linalg.norm(pp) - np.linalg.norm(qp), ax)
    return c["f"] * float(np.linalg.norm(p))


def tol3(p, q, k):
    """Squared-distance tolerance. subproblem1 answers 0 for unit vectors
    closer than 1.5e-8, which subproblem3 inherits in units of aa."""
    pp, qp = p - k * float(k @ p), q - k * float(k @ q)
    a, b = float(np.linalg.norm(pp)), float(np.linalg.norm(qp))
    t = 1e-9 * (np.linalg.norm(p) + np.linalg.norm(q)) ** 2
    if a > 0 and b > 0 and np.linalg.norm(pp / a - qp / b) < 2e-8:
        t += 4e-8 * 2 * a * b
    return t


@sub("C12", "sub3", gen3, 5000, 200000, rule="at least one solution returned for p and q off the axis")
def run3(c, rec):
    k, p, q = (np.array(c[x]) for x in "kpq")
    d = d3(c, k, p, q)
    sols = list(rox.subproblem3(p, q, k, d))
    require(len(sols) <= 2, "more than two solutions", got=sols)
    for t in sols:
        t = scalar(t, "subproblem 3 angle")
        e = q + ref.rotm(k, t) @ p
        require(abs(float(e @ e) - d * d) < tol3(p, q, k), "subproblem 3 angle does not give the distance", theta=t, distance=float(np.linalg.norm(e)), d=d)
    if sols and np.linalg.norm(np.cross(p, k)) > 1e-6 and np.linalg.norm(np.cross(q, k)) > 1e-6:
        rec.nontriv("%d solutions" % len(sols), c["mode"])


def gen4(draw):
    k = g.axis(draw)
    m = size(draw)
    return dict(k=k, p=avec(draw, k, m), q=avec(draw, k, m * g.pick(draw, [1.0, 1.0, 0.1])), t=g.angle(draw),
                mode=g.pick(draw, ["made", "made", "max", "min", "near", "free"]), f=g.sreal(draw, 2.0), end=g.ii(draw, 0, 1), d=g.tiny(draw, 1, 6))


def d4(c, k, p, q):
    if c["mode"] == "near":
        return float(p @ (ref.rotm(k, t_near(c, k, q, p)) @ q))
    if c["mode"] == "made":
        return float(p @ (ref.rotm(k, c["t"]) @ q))
    pp, qp = p - k * float(k @ p), q - k * float(k @ q)
    ax = float(k @ p) * float(k @ q)
    r = float(np.linalg.norm(pp) * np.linalg.norm(qp))
    if c["mode"] in ("max", "min"):
        return ax + (r if c["mode"] == "max" else -r)
    return c["f"] * float(np.linalg.norm(p) * np.linalg.norm(q))


@sub("C12", "sub4", gen4, 5000, 200000, rule="at least one solution returned for p and q off the axis")
def run4(c, rec):
    k, p, q = (np.array(c[x]) for x in "kpq")
    d = d4(c, k, p, q)
    sols = list(rox.subproblem4(p, q, k, d))
    require(len(sols) <= 2, "more than two solutions", got=sols)
    s = float(np.linalg.norm(p) * np.linalg.norm(q))
    for t in sols:
        t = scalar(t, "subproblem 4 angle")
        e = float(p @ (ref.rotm(k, t) @ q))
        require(abs(e - d) < 1e-9 * s, "subproblem 4 angle does not give the displacement", theta=t, displacement=e, d=d)
    if sols and np.linalg.norm(np.cross(p, k)) > 1e-6 and np.linalg.norm(np.cross(q, k)) > 1e-6:
        rec.nontriv("%d solutions" % len(sols), c["mode"])


again.sequence("C12", [(gen0, run0), (gen1, run1), (gen2, run2), (gen3, run3), (gen4, run4)], ("t", "t1", "t2", "f"))
