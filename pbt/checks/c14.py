"""Closed-form inverse kinematics: every returned configuration is right."""
import math
import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require
from .. import gens as g, ref, session

PI = math.pi


def solver(c):
    return rox.robot6_sphericalwrist_invkin if c["family"] == "opw" else rox.ur_invkin


def reach(c):
    P = np.array(c["P"], float)
    return 1.0 + float(np.sum(np.linalg.norm(P, axis=1)))


def bare(c):
    return dict(c, tool=None, flange=None, base=None)


def cond(c, q):
    """Inverse condition of the arm at q: last offset and outer frames removed,
    lengths scaled to about one."""
    d = bare(c)
    P = np.array(c["P"], float)
    P[0] = 0
    if c["family"] == "opw":
        P[6] = 0
        P[5] = 0
    P = P / max(1e-3, float(np.max(np.linalg.norm(P, axis=1))))
    d["P"] = P.tolist()
    J = g.ref_jac(d, q)
    s = np.linalg.svd(J, compute_uv=False)
    return float(s[-1] / max(s[0], 1e-12))


def singular_q5(c):
    """The joint 5 angles at which axes 4 and 6 of an OPW arm are parallel."""
    H = np.array(c["H"], float)
    out = []
    for t in (0.0, PI, PI / 2, -PI / 2):
        if abs(abs(float(H[3] @ (ref.rotm(H[4], t) @ H[5]))) - 1) < 1e-9:
            out.append(t)
    return out


def last_of(draw, q, c=None):
    k = g.pick(draw, ["none", "none", "near", "turn", "any", "zero"])
    if k == "none":
        return None
    if k == "near":
        v = [x + g.sreal(draw, 0.3) for x in q]
    elif k == "turn":
        v = [x + 2 * PI * g.ii(draw, -2, 2) + g.sreal(draw, 0.5) for x in q]
    elif k == "any":
        v = [g.sreal(draw, 4 * PI) for x in q]
    else:
        v = [0.0] * len(q)
    return dict(v=v, f=g.pick(draw, ["list", "tuple", "array"]))


def mk_last(l):
    if l is None:
        return None
    return {"list": list, "tuple": tuple, "array": np.array}[l["f"]](l["v"])


def special(draw, c, q):
    """Bend q towards special configurations. Returns the kind."""
    kind = g.pick(draw, ["plain", "plain", "plain", "wrist", "home", "elbow", "shoulder"])
    if kind == "home":
        for i in range(6):
            q[i] = 0.0
    if kind == "wrist":
        q[4] = (g.pick(draw, singular_q5(c)) if c["family"] == "opw" else g.pick(draw, [0.0, PI])) + g.pick(draw, [0.0, 0.0, 1.0]) * g.tiny(draw, 3, 12)
    if kind == "elbow":
        P = np.array(c["P"], float)
        h = np.array(c["H"][2], float)
        b = P[3] + (P[4] if c["family"] == "opw" else 0)
        a, b = P[2] - h * float(h @ P[2]), b - h * float(h @ b)
        t = math.atan2(float(h @ np.cross(b, a)), float(b @ a))
        q[2] = t + g.pick(draw, [0.0, PI]) + g.pick(draw, [0.0, 0.0, 1.0]) * g.tiny(draw, 3, 12)
    return kind


def gen(draw):
    c, q = g.arm(draw)
    kind = special(draw, c, q)
    x = dict(c=c, q=q, kind=kind, last=last_of(draw, q))
    x["pose"] = g.pick(draw, ["fk", "fk", "fk", "free", "moved", "far"])
    x["free"] = g.pose(draw, 1.2, 15)
    x["d"] = [g.tiny(draw, 1, 10) for _ in range(3)]
    x["clip"] = g.chance(draw, 70)
    return x


def target(x):
    c = x["c"]
    if x["pose"] == "free":
        return g.T_of(x["free"])
    if x["pose"] == "far":
        M = g.T_of(x["free"]).copy()
        M[:3, 3] += np.array([3.0, -2.0, 2.5]) * (reach(c) + 4)
        return M
    M = g.ref_fk(c, x["q"])
    if x["pose"] == "moved":
        M = M.copy()
        M[:3, 3] += np.array(x["d"])
    return M


def limits_for(x):
    """Widen the case's limits so that a bent q is inside where wanted."""
    c = dict(x["c"])
    if c["lower"] is not None and x.get("clip"):
        c["lower"] = [min(l, v - 0.01) for l, v in zip(c["lower"], x["q"])]
        c["upper"] = [max(u, v + 0.01) for u, v in zip(c["upper"], x["q"])]
    return c


def check_result(c, sols, M, tolR=2e-6, tolp=2e-6, what=""):
    require(isinstance(sols, (list, tuple)), "result is not a list", got=sols)
    for s in sols:
        require(isinstance(s, np.ndarray), "a configuration is not an array", got=s)
        a = np.asarray(s, float)
        require(a.shape == (6,), "a configuration is not six joint angles", got=s)
        require(np.all(np.isfinite(a)), "a configuration is not finite", got=s)
        if c["lower"] is not None:
            require(np.all(a >= np.array(c["lower"]) - 1e-9) and np.all(a <= np.array(c["upper"]) + 1e-9),
                    "a configuration is outside the joint limits", got=s, lower=c["lower"], upper=c["upper"])
        E = g.ref_fk(c, a)
        eR, ep = float(np.max(np.abs(E[:3, :3] - M[:3, :3]))), float(np.max(np.abs(E[:3, 3] - M[:3, 3])))
        if cond(c, a) > 1e-3:      # away from singularities only rounding is left (and angles below 1.5e-8 taken as zero)
            require(eR < 1e-7 and ep < 1e-7 * reach(c), "a configuration reproduces the pose only roughly", got=s, rotation_error=eR, position_error=ep)
        require(eR < tolR and ep < tolp * reach(c), "a configuration does not reach the pose", got=s, rotation_error=eR, position_error=ep)


@sub("C14", "valid", gen, 3600, 120000, shards=8, rule="at least one configuration returned for a robot with an offset or outer transform; or a pose out of reach (empty)")
def run(x, rec):
    c = limits_for(x)
    r = g.mk_robot(c)
    M = target(x)
    T = rox.Transform(M[:3, :3], M[:3, 3])
    sols = solver(c)(r, T, mk_last(x["last"])) if x["last"] is not None else solver(c)(r, T)
    loose = x["pose"] == "moved" and x["kind"] in ("elbow", "shoulder", "home", "wrist")
    check_result(c, sols, M, 2e-6, 3e-5 if loose else 2e-6)
    if x["pose"] == "far":
        require(len(sols) == 0, "configurations returned for a pose out of reach", got=sols)
    f = c["family"] + " " + x["kind"]
    if len(sols):
        rec.nontriv(f + " solved", "limits " + c["limits"], "last" if x["last"] else "no last")
    elif x["pose"] == "far":
        rec.nontriv("out of reach")
    else:
        rec.cls(f + " empty")
    # limits exclude everything
    if c["lower"] is None and len(sols) and x["last"] is None:
        a = np.asarray(sols[0], float)
        d = dict(c, lower=[-50.0] * 6, upper=[50.0] * 6)
        i = len(sols) % 6
        lo = max(ref.wrap(float(np.asarray(s, float)[i])) for s in sols)
        lo = [ref.wrap(float(np.asarray(s, float)[i])) for s in sols]
        w = 1e-3
        cand = [t * 0.37 for t in range(-8, 8)]
        for t in cand:
            if all(ref.angdiff(t, v) > 0.01 for v in lo):
                d["lower"][i], d["upper"][i] = t - w, t + w
                got = solver(c)(g.mk_robot(d), T)
                check_result(d, got, M)
                got = solver(c)(g.mk_robot(d), T, last_joints=[0.0] * 6)
                check_result(d, got, M)
                rec.cls("tight limits")
                break


@sub("C14", "session", session.gen_arm, 640, 30000, shards=8, rule="a request answered after the robot, the pose object or the previous joints changed")
def run_session(x, rec):
    held = []
    for n, r, c, q, M, sols, last in session.play_arm(x):
        check_result(c, sols, M, what="step %d" % n)
        held.append((n, sols, [np.array(s, float) for s in sols]))
    for n, sols, copies in held:
        require(len(sols) == len(copies) and all(np.array_equal(np.asarray(a, float), b) for a, b in zip(sols, copies)),
                "configurations returned earlier changed afterwards", step=n, now=sols, then=copies)
    if sum(1 for h in held if len(h[1])) > 1:
        rec.nontriv(*sorted(set([s[1][0] for s in x["steps"] if s[1]] + ["target " + s[2] for s in x["steps"]] + ["last " + s[6] for s in x["steps"]])))


def gen_off(draw):
    """A robot one change away from the form that the solver covers."""
    c, q = g.arm(draw, limits=("none", "none", "wide"))
    for f in ("tool", "base"):
        if g.chance(draw, 60):
            c[f] = None
    eps = g.pick(draw, [1, -1]) * g.pick(draw, [1e-3, 1e-2, 0.1]) * g.real(draw, 1.0, 5.0)
    k = "offset"
    if c["family"] == "opw":
        i = g.pick(draw, [4, 5])
        h = c["H"][3 if i == 4 else 5]
    else:
        k = g.pick(draw, ["offset", "axis", "tilt"])
        i = 5 if k == "offset" else g.ii(draw, 0, 5)
    if k == "offset":
        if c["family"] == "opw":
            a = g.pick(draw, [j for j in range(3) if h[j] == 0])
        else:
            a = 0
        c["P"][i] = list(c["P"][i])
        c["P"][i][a] += eps
    else:
        h = np.array(c["H"][i])
        j = g.pick(draw, [j for j in range(3) if h[j] == 0])
        e = np.zeros(3)
        e[j] = 1.0
        v = (math.cos(eps) * h + math.sin(eps) * e) if k == "tilt" else g.pick(draw, [-h, e, -e])
        c["H"][i] = v.tolist()
    return dict(c=c, q=q, kind=k, i=i, last=last_of(draw, q) if g.chance(draw, 40) else None)


@sub("C14", "outside", gen_off, 1200, 40000, shards=8, rule="a robot with one wrist offset or axis outside the solver's form")
def run_off(x, rec):
    c = x["c"]
    r = g.mk_robot(c)
    M = g.ref_fk(c, x["q"])
    T = rox.Transform(M[:3, :3], M[:3, 3])
    try:
        sols = solver(c)(r, T, mk_last(x["last"]))
    except Exception:
        sols = None
    if sols is None:
        rec.nontriv(c["family"] + " refused: " + x["kind"] + " %d" % x["i"])
    else:
        check_result(c, sols, M)
        rec.nontriv(c["family"] + " answered: " + x["kind"] + " %d" % x["i"])
