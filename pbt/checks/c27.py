"""Tesseract inverse kinematics."""
import math
import numpy as np
import general_robotics_toolbox as rox
from general_robotics_toolbox import tesseract as tt
from ..core import sub, require
from .. import gens as g, ref, tessgen as tg
from .c26 import make, scale

SOLVER = dict(opw="OPWInvKin", ur="URInvKin")


def pose_err(c, q, E):
    T = g.ref_fk(c, q)
    return max(float(np.max(np.abs(T[:3, :3] - E[:3, :3]))), float(np.max(np.abs(T[:3, 3] - E[:3, 3]))) / scale(c))


def gen(draw):
    c = (tg.opw if g.chance(draw, 65) else tg.ur)(draw, True)
    if c["family"] == "opw":
        c["base"] = g.opt(draw, lambda d: g.pose(d, 1.0), 40)
    c["tool"] = g.opt(draw, lambda d: g.pose(d, 0.4), 50)
    q = [g.sreal(draw, math.pi) if not g.chance(draw, 25) else g.sreal(draw, 2 * math.pi) for _ in range(6)]
    tg.finish(draw, c, q)
    c["lower"] = [min(a, x - 0.02) for a, x in zip(c["lower"], q)]
    c["upper"] = [max(a, x + 0.02) for a, x in zip(c["upper"], q)]
    return dict(c=c, q=q, seed=g.ii(draw, 0, 2), how=g.pick(draw, ["robot", "env", "robot", "commands", "plugin", "parts", "parts2"]), frames=g.ii(draw, 0, 5),
                far=g.chance(draw, 8), form=g.pick(draw, tg.FORMS), other=[g.sreal(draw, 2.0) for _ in range(3)])


def conditioning(c, q):
    """Smallest singular value of the wrist-centre scaled Jacobian."""
    d = dict(c)
    d["tool"] = d["flange"] = d["base"] = None
    J = g.ref_jac(d, q)
    return float(np.linalg.svd(J, compute_uv=False)[-1])


@sub("C27", "closedform", gen, 2400, 80000, shards=8, journal=True, rule="a pose from a non-singular in-limit configuration, with a tool, base or several solutions")
def run(x, rec):
    c, q = x["c"], x["q"]
    rb, tr = make(c, x["how"], SOLVER[c["family"]])
    L = tg.links(c)
    Ts = tg.link_poses(c, q)
    qa = np.array(q)
    seed = [qa, np.zeros(6), np.clip(qa * 0.7, c["lower"], c["upper"])][x["seed"]]
    # requested link and frame
    b, a = len(L) - 1, 0
    kw = {}
    if x["frames"] == 1:
        kw, a = dict(base_link_name=tg.full(c, "base_link")), 1
    elif x["frames"] == 2:
        b = L.index("flange")
        kw = dict(tip_link_name=tg.full(c, "flange"))
    elif x["frames"] == 3:
        a, b = 1, L.index("flange")
        kw = dict(base_link_name=tg.full(c, "base_link"), tip_link_name=tg.full(c, "flange"))
    elif x["frames"] == 4:
        kw = dict(base_link_name="world", tip_link_name=tg.full(c, L[-1]))
    E = ref.hinv(Ts[a]) @ Ts[b]
    if x["far"]:
        E = E.copy()
        E[:3, 3] += np.array(x["other"])
    T = rox.Transform(E[:3, :3].copy(), E[:3, 3].copy())
    sols = tr.invkin(T, tg.joints(seed, x["form"])[0], **kw)
    require(np.array_equal(T.R, E[:3, :3]) and np.array_equal(T.p, E[:3, 3]), "the requested pose was changed")
    for s in sols:
        require(np.shape(s) == (6,) and np.all(np.isfinite(s)), "malformed solution", got=s)
        Ss = tg.link_poses(c, s)
        F = ref.hinv(Ss[a]) @ Ss[b]
        e = max(float(np.max(np.abs(F[:3, :3] - E[:3, :3]))), float(np.max(np.abs(F[:3, 3] - E[:3, 3]))) / scale(c))
        cs = conditioning(c, s)
        require(e < (2e-6 if cs > 0.01 else 1e-3), "a returned configuration does not reach the requested pose", got=F, expected=E, error=e, solution=s)
    if x["far"]:
        rec.cls("displaced pose: %d solutions" % len(sols))
        return
    s = conditioning(c, q)
    if s < 0.005:
        rec.cls("near singular: not judged for completeness")
        return
    if not any(ref.conf_match(v, q, c["types"], 1e-4 + 1e-6 / s) for v in sols):
        require(False, "the configuration that produced the pose was not found", solutions=sols, conditioning=s)
    if c["tool"] or c["base"] or len(sols) > 1:
        rec.nontriv("%s %s" % (c["family"], c["form"]), "frames %d" % x["frames"], "tool" if c["tool"] else "no tool")


def gen_kdl(draw):
    c = g.chain(draw, 2, 8, types=(0, 0, 0, 0, 1))
    q = [g.sreal(draw, math.pi) if t == 0 else g.sreal(draw, 1.5) for t in c["types"]]
    tg.finish(draw, c, q)
    return dict(c=c, q=q, lma=g.ii(draw, 0, 2), how=g.pick(draw, ["robot", "env", "plugin", "parts", "parts2"]), dq=[g.sreal(draw, 0.3) for _ in q], far=g.chance(draw, 15), form=g.pick(draw, tg.FORMS),
                frames=g.ii(draw, 0, 2))


@sub("C27", "iterative", gen_kdl, 1600, 40000, shards=8, journal=True, rule="a reachable pose of a robot with three or more joints")
def run_kdl(x, rec):
    c, q = x["c"], x["q"]
    rb, tr = make(c, x["how"], [None, "KDLInvKinChainLMA", "KDLInvKinChainNR"][x["lma"]])
    L = tg.links(c)
    Ts = tg.link_poses(c, q)
    kw, a = {}, 0
    if x["frames"] == 1:
        kw, a = dict(base_link_name=tg.full(c, "base_link")), 1
    E = ref.hinv(Ts[a]) @ Ts[-1]
    if x["far"]:
        E = E.copy()
        E[:3, 3] += 0.5
    seed = np.clip(np.array(q) + x["dq"], c["lower"], c["upper"])
    sols = tr.invkin(rox.Transform(E[:3, :3], E[:3, 3]), tg.joints(seed, x["form"])[0], **kw)
    for s in sols:
        require(np.shape(s) == (len(q),) and np.all(np.isfinite(s)), "malformed solution", got=s)
        Ss = tg.link_poses(c, s)
        F = ref.hinv(Ss[a]) @ Ss[-1]
        e = max(float(np.max(np.abs(F[:3, :3] - E[:3, :3]))), float(np.max(np.abs(F[:3, 3] - E[:3, 3]))) / scale(c))
        require(e < 1e-3, "a returned configuration does not reach the requested pose", got=F, expected=E, error=e, solution=s)
    rec.cls("%d solutions" % len(sols))
    if sols and len(q) > 2 and not x["far"]:
        rec.nontriv("solver %d" % x["lma"])


def gen_session(draw):
    fam = g.pick(draw, ["opw", "opw", "ur"])
    cs, qs = [], []
    for i in range(g.ii(draw, 2, 3)):
        c = (tg.opw if fam == "opw" else tg.ur)(draw, True)
        c["tool"] = g.opt(draw, lambda d: g.pose(d, 0.4), 50)
        if fam == "opw":
            c["base"] = g.opt(draw, lambda d: g.pose(d, 1.0), 40)
        if i and g.chance(draw, 40):      # the same arm with another tool or base
            c.update({k: cs[0][k] for k in ("H", "P", "flange", "form", "types")})
            if fam == "ur":
                c["base"] = cs[0]["base"]
        q = [g.sreal(draw, 3.0) for _ in range(6)]
        tg.finish(draw, c, q)
        if i and g.chance(draw, 80):
            c["name"], c["names"] = cs[0]["name"], cs[0]["names"]
        cs.append(c)
        qs.append(q)
    steps = [dict(r=g.ii(draw, 0, 5), d=[g.sreal(draw, 0.02) if g.chance(draw, 50) else 0.0 for _ in range(6)], seed=g.ii(draw, 0, 1), again=g.chance(draw, 30)) for _ in range(g.ii(draw, 3, 8))]
    return dict(cs=cs, qs=qs, how=[g.pick(draw, ["robot", "env", "commands"]) for _ in cs], steps=steps)


@sub("C27", "session", gen_session, 480, 16000, shards=8, journal=True, rule="two robots of one name asked in turn, with solutions")
def run_session(x, rec):
    cs = x["cs"]
    trs = [make(c, h, SOLVER[c["family"]])[1] for c, h in zip(cs, x["how"])]
    held, asked = [], set()
    T = None
    for st in x["steps"]:
        i = st["r"] % len(cs)
        c, tr = cs[i], trs[i]
        q = [min(max(v + d, lo), up) for v, d, lo, up in zip(x["qs"][i], st["d"], c["lower"], c["upper"])]
        E = tg.link_poses(c, q)[-1]
        if not st["again"] or T is None:
            T, pose = rox.Transform(E[:3, :3].copy(), E[:3, 3].copy()), E
        # asked again: the pose object of the last request, possibly made for another robot
        seed = np.array(q) if st["seed"] else np.clip(np.zeros(6), c["lower"], c["upper"])
        sols = tr.invkin(T, seed)
        for s in sols:
            require(np.shape(s) == (6,) and np.all(np.isfinite(s)), "malformed solution", got=s)
            F = tg.link_poses(c, s)[-1]
            e = max(float(np.max(np.abs(F[:3, :3] - pose[:3, :3]))), float(np.max(np.abs(F[:3, 3] - pose[:3, 3]))) / scale(c))
            require(e < (2e-6 if conditioning(c, s) > 0.01 else 1e-3), "a configuration of one of several robots does not reach the requested pose", got=F, expected=pose, error=e, solution=s)
        if pose is E and conditioning(c, q) > 0.005 and all(lo + 1e-3 < v < up - 1e-3 for lo, v, up in zip(c["lower"], q, c["upper"])):
            require(any(ref.conf_match(v, q, c["types"], 1e-4 + 1e-6 / conditioning(c, q)) for v in sols), "the configuration that produced the pose was not found", solutions=sols, robot=i)
        for r, copies in held:
            require(len(r) == len(copies) and all(np.array_equal(a, b) for a, b in zip(r, copies)), "configurations returned earlier changed afterwards")
        held.append((sols, [np.array(s, float) for s in sols]))
        asked.add((c["name"], i))
        if len(sols) and len([a for a in asked if a[0] == c["name"]]) > 1:
            rec.nontriv(c["family"], "pose asked again" if pose is not E else "own pose")
