import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require, rejects
from .. import gens as g, ref, session


def form(q, f):
    if f != "tuple" and all(v == int(v) for v in q):
        return [int(v) for v in q] if f == "list" else np.array([int(v) for v in q])
    if f == "list":
        return list(q)
    if f == "tuple":
        return tuple(q)
    return np.array(q, float)


def integral(draw):
    """Chain with whole-number axes and offsets, passed as integer arrays."""
    n = g.ii(draw, 1, 7)
    H = []
    for _ in range(n):
        h = [0, 0, 0]
        h[g.ii(draw, 0, 2)] = g.pick(draw, [1, -1])
        H.append(h)
    return dict(types=[g.pick(draw, [0, 0, 1]) for _ in range(n)], H=H,
                P=[[g.ii(draw, -2, 2) for _ in range(3)] for _ in range(n + 1)],
                tool=g.opt(draw, lambda d: g.pose(d, 0.5)), flange=g.opt(draw, lambda d: g.pose(d, 0.5)),
                base=g.opt(draw, lambda d: g.pose(d, 2.0)), lower=None, upper=None, ints=True)


def gen(draw):
    if g.chance(draw, 12):
        c = integral(draw)
    else:
        c = g.chain(draw, 1, 9, types=g.pick(draw, [(0,), (0, 0, 0, 1), (0, 1), (0, 1, 2, 3), (1,)]))
    q = g.conf(draw, c["types"])
    if not c.get("ints"):
        c, q = g.rescale(draw, c, q)
    if g.chance(draw, 30):
        c["lower"], c["upper"] = g.limits_around(draw, c["types"], q)
    half = g.pick(draw, ["none", "none", "none", "none", "R", "p"])
    return dict(c=c, q=q, form=g.pick(draw, ["array", "list", "tuple"]), half=half if c["tool"] is None else "none",
                T=g.pose(draw), jt=g.pick(draw, ["list", "array"]))


def build(x):
    c = x["c"]
    kw = {}
    if x["half"] == "R":
        kw["R_tool"] = ref.rotm([0.6, 0.0, 0.8], 0.7)
    if x["half"] == "p":
        kw["p_tool"] = np.array([0.1, 0.2, 0.3])
    if c.get("ints"):
        r = rox.Robot(np.array(c["H"]).T, np.array(c["P"]).T, c["types"], T_flange=g.mk_T(c["flange"]), T_base=g.mk_T(c["base"]),
                      R_tool=None if c["tool"] is None else ref.rotm(c["tool"][0], c["tool"][1]),
                      p_tool=None if c["tool"] is None else g.p_tool(c),
                      joint_lower_limit=c["lower"], joint_upper_limit=c["upper"])
    else:
        r = g.mk_robot(c, **kw)
    if x["jt"] == "array":
        r.joint_type = np.array(c["types"])
    return r


def scale(c, q):
    return 1.0 + float(np.sum(np.abs(np.array(c["P"])))) + float(np.sum(np.abs(q)))


def turn(c, q):
    """Size of the rotations alone."""
    return 1.0 + sum(abs(v) for t, v in zip(c["types"], q) if t in (0, 2))


@sub("C09", "fk", gen, 5000, 300000, shards=8,
     rule="at least two joints, of which one moves by a non-zero amount")
def run(x, rec):
    c, q = x["c"], x["q"]
    r = build(x)
    T = rox.fwdkin(r, form(q, x["form"]))
    E = g.ref_fk(c, q)
    R, p = np.asarray(T.R, float), np.asarray(T.p, float)
    require(R.shape == (3, 3) and p.shape == (3,), "malformed pose", R=R, p=p)
    tol = 1e-11 * scale(c, q)
    require(np.max(np.abs(R - E[:3, :3])) < 1e-11 * turn(c, q), "orientation differs from the product of the joint motions", got=R, expected=E[:3, :3])
    require(np.max(np.abs(p - E[:3, 3])) < tol, "position differs from the product of the joint motions", got=p, expected=E[:3, 3])
    if len(q) > 1 and any(q):
        rec.nontriv("types " + "".join(map(str, sorted(set(c["types"])))),
                    "aux " + "".join(k[0] for k in ("tool", "flange", "base") if c[k] is not None))


@sub("C09", "aux", gen, 2400, 100000, rule="at least one of base, flange and tool present")
def run_aux(x, rec):
    c = x["c"]
    r = build(x)
    T = g.mk_T(x["T"])
    I = np.eye(4)
    tool, flange, base = (g.T_of(c[k]) if c[k] is not None else I for k in ("tool", "flange", "base"))
    M = g.T_of(x["T"])
    A = rox.apply_robot_aux_transforms(r, T)
    E = base @ M @ flange @ tool
    big = 1e-11 * (1.0 + sum(float(np.sum(np.abs(m[:3, 3]))) for m in (tool, flange, base)))
    require(np.max(np.abs(np.asarray(A.R) - E[:3, :3])) < 1e-12 and np.max(np.abs(np.asarray(A.p) - E[:3, 3])) < big,
            "applying base, flange and tool gives another pose", got=(A.R, A.p), expected=E)
    B = rox.unapply_robot_aux_transforms(r, T)
    E = ref.hinv(base) @ M @ ref.hinv(tool) @ ref.hinv(flange)
    require(np.max(np.abs(np.asarray(B.R) - E[:3, :3])) < 1e-12 and np.max(np.abs(np.asarray(B.p) - E[:3, 3])) < big,
            "un-applying base, flange and tool gives another pose", got=(B.R, B.p), expected=E)
    for Z in (rox.unapply_robot_aux_transforms(r, A), rox.apply_robot_aux_transforms(r, B)):
        require(np.max(np.abs(np.asarray(Z.R) - M[:3, :3])) < 1e-12 and np.max(np.abs(np.asarray(Z.p) - M[:3, 3])) < big,
                "apply and un-apply are not mutually inverse", got=(Z.R, Z.p), expected=M)
    if c["tool"] or c["flange"] or c["base"]:
        rec.nontriv("aux " + "".join(k[0] for k in ("tool", "flange", "base") if c[k] is not None))


@sub("C09", "session", session.gen, 1600, 80000, shards=8,
     rule="a query after a change of the model or of the joint array between queries")
def run_session(x, rec):
    held = []
    kinds = set()
    for n, r, c, q, ok in session.play(x):
        if not ok:
            rejects(rox.fwdkin, r, q, what="forward kinematics accepted joints outside the limits set since")
            kinds.add("refused")
            continue
        T = rox.fwdkin(r, q)
        E = g.ref_fk(c, q)
        tol = 1e-11 * scale(c, q)
        require(np.max(np.abs(np.asarray(T.R) - E[:3, :3])) < tol and np.max(np.abs(np.asarray(T.p) - E[:3, 3])) < tol,
                "forward kinematics does not follow the model as it is now", step=n, got=(T.R, T.p), expected=E)
        held.append((n, T, E, tol))
    for n, T, E, tol in held:
        require(np.max(np.abs(np.asarray(T.R) - E[:3, :3])) < tol and np.max(np.abs(np.asarray(T.p) - E[:3, 3])) < tol,
                "a pose returned earlier changed afterwards", step=n, now=(T.R, T.p), expected=E)
    kinds |= set(s[1][0] for s in x["steps"] if s[1]) | set(s[2][0] for s in x["steps"] if s[2])
    if kinds and len(held) > 1:
        rec.nontriv(*sorted(kinds))
