"""Robots for the Tesseract layer and the poses of their links."""
import math
import numpy as np
from . import gens as g, ref

RNAMES = ["robot", "r", "left_arm", "abb1200", "Robot-2", "robot_link", "_r", "arm__2", "R", "cell 1"]
JNAMES = ["j%d", "right_j%d", "axis_%d_x", "J %d", "a%d_joint", "_j%d", "j__%d_", "%d", "robot_j%d", " j%d", "A/j.%d"]

TOKENS = ["robot", "robot", "arm", "link", "base", "base_link", "world", "joint", "R", "1", "02", "a b", "x-2", "tool", "flange", "tip", "chain", "group", "", "axis", "to"]


def rname(draw):
    if g.chance(draw, 50):
        return g.pick(draw, RNAMES)
    s = "_".join(g.pick(draw, TOKENS) for _ in range(g.ii(draw, 1, 4)))
    return s if s.strip(" _") and s != "world" else s + "r"


def jnames(draw, n):
    """Distinct joint names."""
    if g.chance(draw, 60):
        p = g.pick(draw, JNAMES)
        out = [p % i for i in range(n)]
    else:
        out = []
        for i in range(n):
            t = [g.pick(draw, TOKENS) for _ in range(g.ii(draw, 0, 3))]
            t.insert(g.ii(draw, 0, len(t)), "%d" % (10 + i))
            out.append("_".join(t))
    if g.chance(draw, 30):
        out.reverse()
    return out


def full_names(c):
    """Names that a robot takes in an environment."""
    return set(c["name"] + "_" + j for j in joint_names(c)) | set(full(c, l) for l in links(c)[1:]) | {"world_to_" + c["name"]} | \
        set(c["name"] + "_" + s + "_joint" for s in links(c)[1:])


FORMS = ["float"] * 6 + ["list", "tuple", "int", "int list", "single", "strided", "column"]


def joints(q, form):
    """The joint vector in one of the forms a caller may hold, and the values it stands for."""
    if form in ("int", "int list"):
        q = [int(round(v)) for v in q]
        return (np.array(q) if form == "int" else list(q)), [float(v) for v in q]
    if form == "single":
        a = np.array(q, np.float32)
        return a, [float(v) for v in a]
    if form == "strided":
        return np.repeat(np.array(q, float), 2)[::2], list(q)
    if form == "column":
        return np.array(q, float).reshape(-1, 1), list(q)
    return (np.array(q, float) if form == "float" else tuple(q) if form == "tuple" else list(q)), list(q)


def full_limits(draw, types, q=None, maxspan=2.5):
    """Full limits; around q when given. maxspan in turns to each side."""
    lo, up = [], []
    for i, t in enumerate(types):
        x = 0.0 if q is None else q[i]
        if t == 0:
            k = g.ii(draw, 0, 3)
            m = [1.5, math.pi, 2 * math.pi, maxspan * 2 * math.pi][k]
            m = min(m, maxspan * 2 * math.pi)
            a, b = g.real(draw, 0.02, m), g.real(draw, 0.02, m)
            if k == 1 and g.chance(draw, 50) and abs(x) < math.pi - 1e-3:
                a, b = math.pi + x, math.pi - x
        else:
            a, b = g.real(draw, 0.02, 3.0), g.real(draw, 0.02, 3.0)
        lo.append(x - a)
        up.append(x + b)
    return lo, up


def finish(draw, c, q=None, maxspan=2.5):
    n = len(c["types"])
    c["lower"], c["upper"] = full_limits(draw, c["types"], q, maxspan)
    if c.get("make") == "whole":
        c["lower"], c["upper"] = [float(math.floor(v)) for v in c["lower"]], [float(math.ceil(v)) for v in c["upper"]]
    rate = lambda m: g.pick(draw, [0.0, 10.0 ** g.ii(draw, -6, 4)]) if g.chance(draw, 10) else g.real(draw, 0.1, m)
    c["vel"] = [rate(9.0) for _ in range(n)]
    c["acc"] = [rate(40.0) for _ in range(n)]
    c["names"] = jnames(draw, n) if g.chance(draw, 50) else None
    c["name"] = rname(draw)
    return c


def robot(draw, nmin=1, nmax=8, q=None, maxspan=2.5, types=(0, 0, 0, 1)):
    c = g.chain(draw, nmin, nmax, types=types)
    c, _ = g.rescale(draw, c, [0.0] * len(c["types"]), 6)
    return finish(draw, c, None, maxspan)


def joint_names(c):
    return c["names"] if c["names"] is not None else ["joint_%d" % (i + 1) for i in range(len(c["types"]))]


def links(c):
    """Link names in order from the world to the tip (unprefixed except world)."""
    n = len(c["types"])
    return ["world", "base_link"] + ["link_%d" % (i + 1) for i in range(n)] + ["chain_tip"] + (["flange"] if c["flange"] else []) + (["tool_tcp"] if c["tool"] else [])


def full(c, link, name=None):
    return link if link == "world" else (name or c["name"]) + "_" + link


def link_poses(c, q):
    """World pose of every link, in the order of links(c)."""
    r = g.ref_parts(c)
    T = np.eye(4)
    out = [T]
    if r["base"] is not None:
        T = T @ r["base"]
    out.append(T)
    n = len(c["types"])
    A = ref.joint_mats(c["types"], r["H"], q)
    for i in range(n):
        T = T @ ref.hom(np.eye(3), r["P"][:, i]) @ A[i]
        out.append(T)
    T = T @ ref.hom(np.eye(3), r["P"][:, n])
    out.append(T)
    for k in ("flange", "tool"):
        if r[k] is not None:
            T = T @ r[k]
            out.append(T)
    return out


def link_jacobian(c, q, i):
    """Jacobian (angular first, world coordinates) of link i of links(c)."""
    r = g.ref_parts(c)
    Ts = link_poses(c, q)
    n = len(c["types"])
    p = Ts[i][:3, 3]
    J = np.zeros((6, n))
    for k in range(n):
        if k + 2 > i:          # joint k moves links k+2 and later
            continue
        a = Ts[k + 2][:3, :3] @ r["H"][:, k]
        if c["types"][k] == 0:
            J[:3, k] = a
            J[3:, k] = np.cross(a, p - Ts[k + 2][:3, 3])
        else:
            J[3:, k] = a
    return J


def rel_jacobian(c, q, a, b):
    """Derivative of inv(pose of link a) * pose of link b, in link a's coordinates."""
    Ts = link_poses(c, q)
    Ja, Jb = link_jacobian(c, q, a), link_jacobian(c, q, b)
    d = Ts[b][:3, 3] - Ts[a][:3, 3]
    R = Ts[a][:3, :3].T
    J = np.zeros_like(Ja)
    for k in range(J.shape[1]):
        J[:3, k] = R @ (Jb[:3, k] - Ja[:3, k])
        J[3:, k] = R @ (Jb[3:, k] - Ja[3:, k] - np.cross(Ja[:3, k], d))
    return J


# ------------------------------------------- robots of the closed-form solvers

def _len(draw, lo, hi):
    x = g.real(draw, lo, hi)
    return round(x, g.pick(draw, [2, 3, 4, 6])) if g.chance(draw, 50) else x


def _z(draw, pct, m):
    return 0.0 if g.chance(draw, pct) else g.pick(draw, [1, -1]) * _len(draw, 0.005, m)


def opw(draw, reach=False):
    """Robot of the supported OPW form. reach: non-degenerate links."""
    s = lambda: g.pick(draw, [1.0, -1.0])
    xf = g.chance(draw, 65)
    w = [1.0, 0, 0] if xf else [0, 0, 1.0]

    def al(a, v):
        return [a * u for u in v]
    H = [al(s(), [0, 0, 1.0]), al(s(), [0, 1.0, 0]), al(s(), [0, 1.0, 0]), al(s(), w), al(s(), [0, 1.0, 0]), al(s(), w)]
    if g.chance(draw, 30):
        H = [[0, 0, 1.0], [0, 1.0, 0], [0, 1.0, 0], w, [0, 1.0, 0], w]
    b = [_z(draw, 75, 0.2) for _ in range(3)]
    long, side = _len(draw, 0.15 if reach else 0.0, 0.9), _z(draw, 50, 0.3)
    P2 = [side, b[1], long]
    if xf and g.chance(draw, 50):
        P2 = [long, b[1], side]
    if g.chance(draw, 15):
        P2[2] = -P2[2]
    long, side = _len(draw, 0.0, 0.9), _z(draw, 40, 0.3)
    k = g.ii(draw, 0, 3)
    if xf:
        P3 = [[long, b[2], side], [side, b[2], long], [0.0, b[2], side], [long, b[2], side]][k]
        P4 = [0.0 if k != 2 else _len(draw, 0.1, 0.9), 0.0, 0.0]
        if k == 3:
            P4[0] = _len(draw, 0.05, 0.5)
    else:
        P3 = [side, b[2], long]
        P4 = [0.0, 0.0, 0.0]
        if k > 1:
            P4[2] = _len(draw, 0.05, 0.5)
    if reach and math.hypot(P3[0] + P4[0], P3[2] + P4[2]) < 0.15:
        P4[0 if xf else 2] += 0.3
    P5 = al(_z(draw, 60, 0.2), w)
    P6 = al(_z(draw, 30, 0.2), w)
    P = [[0.0, 0.0, _z(draw, 25, 0.6)], [_z(draw, 40, 0.4), b[0], _z(draw, 60, 0.3)], P2, P3, P4, P5, P6]
    return dict(family="opw", form="x" if xf else "z", types=[0] * 6, H=H, P=P, tool=None, base=None,
                flange=[[0, 1.0, 0], math.pi / 2 if xf else 0.0, [0, 0, 0]])


def ur(draw, reach=False):
    """Robot of the supported UR form."""
    plus = g.chance(draw, 50)
    y = 1.0 if plus else -1.0
    H = [[0, 0, 1.0], [0, y, 0], [0, y, 0], [0, y, 0], [0, 0, -1.0], [0, y, 0]]
    a = 0.15 if reach else 0.0
    # real arms have negative a2 and a3: along +x for the rotated form
    P = [[0, 0, _z(draw, 15, 0.4)], [0, _z(draw, 30, 0.3), 0], [y * _len(draw, a, 0.8), _z(draw, 40, 0.2), 0], [y * _len(draw, a, 0.8), _z(draw, 60, 0.2), 0],
         [0, _z(draw, 40, 0.2), _z(draw, 0 if reach else 10, 0.2)], [0, _z(draw, 50, 0.2), 0], [0, _z(draw, 50, 0.2), 0]]
    if reach and abs(P[5][1] + P[6][1]) < 0.02:      # the solver divides by d6
        P[5][1] = P[5][1] + 0.1
    if plus:
        R = ref.rotm(ref.EZ, math.pi) @ np.array([[1.0, 0, 0], [0, 0, 1], [0, -1, 0]]).T
        fl = R
    else:
        fl = np.array([[1.0, 0, 0], [0, 0, 1], [0, -1, 0]]).T
    base = [[0, 0, 1.0], math.pi, [0, 0, 0]] if not plus else None if g.chance(draw, 50) else [[0, 0, 1.0], 0.0, [0, 0, 0]]
    # flange rotation as axis and angle
    ax = [1.0, 0, 0]
    fl_aa = [[1.0, 0, 0], -math.pi / 2, [0, 0, 0]] if np.allclose(ref.rotm(ref.EX, -math.pi / 2), fl) else \
            [[1.0, 0, 0], math.pi / 2, [0, 0, 0]] if np.allclose(ref.rotm(ref.EX, math.pi / 2), fl) else None
    if fl_aa is None:       # half turn composed with a quarter turn
        t = math.acos((np.trace(fl) - 1) / 2)
        v = np.array([fl[2, 1] - fl[1, 2], fl[0, 2] - fl[2, 0], fl[1, 0] - fl[0, 1]])
        if np.linalg.norm(v) < 1e-6:
            w, V = np.linalg.eigh((fl + fl.T) / 2)
            ax = V[:, -1].tolist()
        else:
            ax = ref.unit(v).tolist()
        fl_aa = [ax, t, [0, 0, 0]]
    return dict(family="ur", form="plus" if plus else "minus", types=[0] * 6, H=H, P=P, tool=None, base=base, flange=fl_aa)


def opw_fk(p, q):
    """Flange pose of the OPW solver: q*sign - offset on the canonical arm."""
    q = np.array(q, float) * np.asarray(p.sign_corrections, float) - np.asarray(p.offsets, float)
    # published position formula
    psi, k = math.atan2(p.a2, p.c3), math.hypot(p.a2, p.c3)
    x1 = p.c2 * math.sin(q[1]) + k * math.sin(q[1] + q[2] + psi) + p.a1
    z1 = p.c2 * math.cos(q[1]) + k * math.cos(q[1] + q[2] + psi) + p.c1
    c, s = math.cos(q[0]), math.sin(q[0])
    pc = np.array([x1 * c - p.b * s, x1 * s + p.b * c, z1])
    R = ref.rotm(ref.EZ, q[0]) @ ref.rotm(ref.EY, q[1] + q[2]) @ ref.rotm(ref.EZ, q[3]) @ ref.rotm(ref.EY, q[4]) @ ref.rotm(ref.EZ, q[5])
    return ref.hom(R, pc + p.c4 * R[:, 2])


def ur_fk(p, q):
    """Denavit-Hartenberg forward kinematics published for UR robots, seen from
    the ROS base frame (half a turn about z) that the solver works in."""
    T = ref.hom(ref.rotm(ref.EZ, math.pi), [0, 0, 0])
    for t, d, a, al in zip(q, (p.d1, 0, 0, p.d4, p.d5, p.d6), (0, p.a2, p.a3, 0, 0, 0), (math.pi / 2, 0, 0, math.pi / 2, -math.pi / 2, 0)):
        T = T @ ref.hom(ref.rotm(ref.EZ, t), [0, 0, d]) @ ref.hom(ref.rotm(ref.EX, al), [a, 0, 0])
    return T
