"""Closed-form inverse kinematics: no reachable configuration is missed."""
import math
import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require
from .. import gens as g, ref, session
from . import c14

PI = math.pi


def gen(draw):
    c, q = g.arm(draw)
    return dict(c=c, q=q, last=c14.last_of(draw, q))


def found(sols, q, tol=1e-5):
    return any(ref.conf_match(s, q, [0] * 6, tol) for s in sols)


@sub("C15", "complete", gen, 3600, 150000, shards=8, rule="the configuration the pose is made from is clearly non-singular")
def run(x, rec):
    c, q = x["c"], x["q"]
    if c14.cond(c, q) < 1e-3:
        rec.cls("near singular")
        return
    r = g.mk_robot(c)
    M = g.ref_fk(c, q)
    T = rox.Transform(M[:3, :3], M[:3, 3])
    sols = c14.solver(c)(r, T, c14.mk_last(x["last"])) if x["last"] is not None else c14.solver(c)(r, T)
    k = c14.cond(c, q)
    require(found(sols, q, min(1e-5, max(3e-7, 3e-8 / k))), "the configuration the pose was made from is missing", got=sols, expected=q)
    regular = [s for s in sols if c14.cond(c, s) > 1e-4]
    for i in range(len(regular)):
        for j in range(i):
            require(not ref.conf_match(regular[i], regular[j], [0] * 6, 1e-9), "a configuration is returned twice", got=sols)
    rec.nontriv(c["family"] + " " + c["form"], "limits " + c["limits"], "%d solutions" % len(sols))


def gen_sing(draw):
    c = g.opw(draw)
    g.add_aux(draw, c)
    home = g.chance(draw, 20)
    q = [0.0] * 6 if home else [g.sreal(draw, PI) for _ in range(6)]
    if not home:
        if g.chance(draw, 30):
            for i in (0, 1, 2, 3, 5):
                q[i] = g.ii(draw, -4, 4) * PI / 4
        q[4] = g.pick(draw, c14.singular_q5(c)) + g.pick(draw, [0.0, 0.0, 1.0]) * g.tiny(draw, 3, 14)
    if g.chance(draw, 60):
        c["limits"] = "wide"
        lo, up = [], []
        for i, v in enumerate(q):
            m = PI + 0.1 if i >= 3 or g.chance(draw, 50) else 0.05
            lo.append(v - m - g.real(draw, 0, 2.0) if i < 3 else -m - g.real(draw, 0, 4.0))
            up.append(v + m + g.real(draw, 0, 2.0) if i < 3 else m + g.real(draw, 0, 4.0))
        c["lower"], c["upper"] = lo, up
    else:
        c["limits"] = "none"
    return dict(c=c, q=q, home=home, last=c14.last_of(draw, q))


def arm_cond(c, q):
    """Inverse condition of the wrist centre's motion by the first three joints."""
    d = dict(c14.bare(c), types=[0, 0, 0], H=c["H"][:3])
    P = [list(p) for p in c["P"][:4]]
    P[3] = (np.array(P[3]) + np.array(c["P"][4])).tolist()
    d["P"] = P
    s = np.linalg.svd(g.ref_jac(d, q[:3])[3:], compute_uv=False)
    return float(s[-1] / max(s[0], 1e-12))


@sub("C15", "wrist_singular", gen_sing, 2400, 80000, rule="wrist singular, arm non-singular")
def run_sing(x, rec):
    c, q = x["c"], x["q"]
    if arm_cond(c, q) < 1e-3:
        rec.cls("arm singular")
        return
    r = g.mk_robot(c)
    M = g.ref_fk(c, q)
    T = rox.Transform(M[:3, :3], M[:3, 3])
    sols = rox.robot6_sphericalwrist_invkin(r, T, c14.mk_last(x["last"])) if x["last"] is not None else rox.robot6_sphericalwrist_invkin(r, T)
    require(len(sols) > 0, "no configuration at a wrist singular pose", q=q)
    c14.check_result(c, sols, M)
    rec.nontriv("home" if x["home"] else "singular", "limits " + c["limits"])


@sub("C15", "session", session.gen_arm, 640, 30000, shards=8, rule="at least two clearly non-singular requests in one history")
def run_session(x, rec):
    k = 0
    for n, r, c, q, M, sols, last in session.play_arm(x):
        if c14.cond(c, q) < 1e-3:
            continue
        require(found(sols, q), "the configuration the pose was made from is missing in a history of requests", step=n, got=sols, expected=q)
        k += 1
    if k > 1:
        rec.nontriv("requests %d" % k)


# ------------------------------------- close to, but not at, a singular configuration

def lateral(c, q):
    """The point the first joint is solved from, along the axis on which its
    two solutions meet."""
    d = dict(bare_arm(c), types=[0] * 5, H=c["H"][:5])
    P = np.array(c["P"], float)
    if c["family"] == "ur":
        # an offset along joint 5 counts on either side of it
        h = np.array(c["H"][4])
        k = float(P[5] @ h) * h
        P[4] = P[4] + k
    else:
        P[4] = P[4] + 0      # along joint 4: reaches the wrist centre
    d["P"] = np.vstack((P[:5], np.zeros((1, 3)))).tolist()
    d["P"][0] = [0.0, 0.0, 0.0]
    v = [0.0] + list(q[1:4]) + [0.0]
    return float(g.ref_fk(d, v)[0, 3])


def bare_arm(c):
    return dict(c, tool=None, flange=None, base=None)


def gen_near(draw):
    c = g.opw(draw) if g.chance(draw, 60) else g.ur(draw)
    g.add_aux(draw, c)
    q = [g.sreal(draw, PI) for _ in range(6)]
    kind = g.pick(draw, ["wrist", "elbow", "shoulder"])
    d = g.pick(draw, [-1, 1]) * 10 ** -g.real(draw, 1.0, 4.0)
    if kind == "wrist":
        q[4] = (g.pick(draw, c14.singular_q5(c)) if c["family"] == "opw" else g.pick(draw, [0.0, PI])) + d
    elif kind == "elbow":
        P = np.array(c["P"], float)
        h = np.array(c["H"][2], float)
        b = P[3] + (P[4] if c["family"] == "opw" else 0)
        a, b = P[2] - h * float(h @ P[2]), b - h * float(h @ b)
        q[2] = math.atan2(float(h @ np.cross(b, a)), float(b @ a)) + g.pick(draw, [0.0, PI]) + d
    else:
        s = [lateral(c, [q[0], t] + q[2:]) for t in (0.0, PI / 2, PI)]
        C = (s[0] + s[2]) / 2
        A, B = s[0] - C, s[1] - C
        R = math.hypot(A, B)
        t = (d * c14.reach(c) * 0.3 - C) / R if R > 1e-6 else 2.0
        if abs(t) >= 1:
            kind = "none"
        else:
            q[1] = math.atan2(B, A) + g.pick(draw, [-1, 1]) * math.acos(t)
    k = g.pick(draw, ["none", "pi", "wide"])
    c["limits"] = k
    if k == "none":
        c["lower"] = c["upper"] = None
    else:
        w = PI if k == "pi" else 6.0
        c["lower"], c["upper"] = [min(-w, v - 0.1) for v in q], [max(w, v + 0.1) for v in q]
    return dict(c=c, q=q, kind=kind, d=d, last=c14.last_of(draw, q))


@sub("C15", "near", gen_near, 2400, 100000, rule="one of wrist, elbow and shoulder within a tenth to a ten-thousandth of its singular place, the rest of the arm non-singular")
def run_near(x, rec):
    c, q, d = x["c"], x["q"], abs(x["d"])
    k = c14.cond(c, q)
    if x["kind"] == "none" or k < 3e-3 * d:
        rec.cls("near singular elsewhere")
        return
    r = g.mk_robot(c)
    M = g.ref_fk(c, q)
    T = rox.Transform(M[:3, :3], M[:3, 3])
    sols = c14.solver(c)(r, T, c14.mk_last(x["last"])) if x["last"] is not None else c14.solver(c)(r, T)
    require(found(sols, q, 1e-4), "the configuration the pose was made from is missing close to a singular one", got=sols, expected=q, kind=x["kind"])
    rec.nontriv(c["family"] + " " + x["kind"], "within 1e%d" % math.floor(math.log10(d)), "condition below 1e%d" % math.ceil(math.log10(k)))
