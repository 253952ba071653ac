"""Iterative inverse kinematics: honest reports, local convergence."""
import math
import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require
from .. import gens as g, ref

PI = math.pi


def seed_form(draw):
    return g.pick(draw, ["list", "tuple", "array", "array", "column"])


def mk_seed(v, f):
    return {"list": list, "tuple": tuple, "array": np.array, "column": lambda z: np.array(z).reshape(-1, 1), "ints": lambda z: [int(round(t)) for t in z]}[f](v)


def gen(draw):
    c = g.chain(draw, 1, 8, types=g.pick(draw, [(0,), (0, 0, 0, 1), (0, 1), (1,)]))
    q = g.conf(draw, c["types"])
    if g.chance(draw, 30):
        c["lower"], c["upper"] = g.limits_around(draw, c["types"], q)
    kind = g.pick(draw, ["near", "near", "far", "any", "out"])
    s = {"near": 0.3, "far": 2.0, "any": 12.0, "out": 1.0}[kind]
    f = g.pick(draw, ["list", "tuple", "array", "array", "ints", "column"])
    seed = [v + g.sreal(draw, s) for v in q]
    if f == "ints":
        seed = [float(round(v)) for v in seed]
    return dict(c=c, q=q, kind=kind, seed=seed, f=f, free=g.pose(draw, 1.0),
                steps=g.pick(draw, [None, None, 40, 10, 1, 0]), tol=g.pick(draw, [None, None, 1e-2, 1e-3, 1e-6, 1e-8, 1e-10]), kp=g.pick(draw, [None, None, 0.5, 1.0]))


def call(r, T, seed, steps=None, tol=None, kp=None):
    kw = {}
    if steps is not None:
        kw["max_steps"] = steps
    if tol is not None:
        kw["tol"] = tol
    if kp is not None:
        kw["Kp"] = kp * np.eye(3)
        kw["KR"] = kp * np.eye(3)
    return rox.iterative_invkin(r, T, seed, **kw)


def judge(c, res, M, seed, tol, near=False):
    """Returns (converged, q). Away from the solution a step may make huge excursions, whose turns are then taken off with a rounding error."""
    require(len(res) == 2, "result is not a pair", got=res)
    conv, qs = res
    require(conv in (True, False), "convergence is not a boolean", got=conv)
    require(len(qs) >= 1, "no joint vector returned", got=res)
    n = len(c["types"])
    for s in qs:
        a = np.asarray(s, float)
        require(a.shape == (n,) and np.all(np.isfinite(a)), "malformed joint vector", got=s)
        for i, t in enumerate(c["types"]):
            if t == 0:
                require(abs(a[i] - seed[i]) <= PI + 1e-6, "revolute joint %d is more than half a turn from the seed" % i, got=a, seed=seed)
        if conv:
            E = g.ref_fk(c, a)
            half = float(np.linalg.norm(E[:3, :3].T @ M[:3, :3] - np.eye(3))) / math.sqrt(8.0)     # sine of half the angle, exact for tiny ones
            pos = float(np.linalg.norm(E[:3, 3] - M[:3, 3]))
            lim = 1.7321 * tol * 1.001
            big = 1.0 + float(np.max(np.abs(a)))
            fuzz = 1e-12 if near else 1e-7
            require(half <= lim + fuzz + 1e-14 * big and pos <= lim + fuzz + 1e-13 * big * big, "converged is reported for a joint vector that does not reach the pose",
                    got=a, half_angle_error=half, position_error=pos, tol=tol)
    return bool(conv), np.asarray(qs[0], float)


@sub("C18", "honest", gen, 1400, 40000, shards=8, rule="converged from a seed that did not already reach the pose, or did not converge")
def run(x, rec):
    c = x["c"]
    M = g.T_of(x["free"]) if x["kind"] == "out" else g.ref_fk(c, x["q"])
    r = g.mk_robot(c)
    tol = x["tol"] or 1e-4
    res = call(r, rox.Transform(M[:3, :3], M[:3, 3]), mk_seed(x["seed"], x["f"]), x["steps"], x["tol"], x["kp"])
    conv, q = judge(c, res, M, x["seed"], tol)
    if conv:
        if float(np.max(np.abs(q - np.array(x["seed"])))) > 1e-3:
            rec.nontriv("converged", "seed " + x["f"], "prismatic" if 1 in c["types"] else "revolute only")
    else:
        rec.nontriv("not converged", "steps %s" % x["steps"])


def gen_near(draw):
    c = g.chain(draw, 1, 8, types=g.pick(draw, [(0,), (0, 0, 0, 1), (0, 1)]))
    for p in c["P"][1:]:
        if np.linalg.norm(p) < 0.2:
            p[g.ii(draw, 0, 2)] += 0.5
    q = g.conf(draw, c["types"])
    n = len(q)
    d = [g.sreal(draw, 0.12) for _ in range(n)]
    f = seed_form(draw)
    turns = [2 * PI * g.ii(draw, -1, 1) if t == 0 and g.chance(draw, 20) else 0.0 for t in c["types"]]
    return dict(c=c, q=q, seed=[a + b + z for a, b, z in zip(q, d, turns)], f=f, tol=g.pick(draw, [None, None, 1e-3, 1e-6, 1e-8, 1e-10]), kp=g.pick(draw, [None, None, None, 0.5, 1.0]))


@sub("C18", "converges", gen_near, 2400, 40000, shards=8, rule="solution with smallest singular value at least 0.15, seed at least 0.01 away")
def run_near(x, rec):
    c = x["c"]
    J = g.ref_jac(c, x["q"])
    if np.linalg.svd(J, compute_uv=False)[-1] < 0.15:
        rec.cls("ill conditioned")
        return
    M = g.ref_fk(c, x["q"])
    r = g.mk_robot(c)
    res = call(r, rox.Transform(M[:3, :3], M[:3, 3]), mk_seed(x["seed"], x["f"]), None, x["tol"], x["kp"])
    conv, q = judge(c, res, M, x["seed"], x["tol"] or 1e-4, True)
    require(conv, "did not converge from a seed near a well-conditioned solution", solution=x["q"], seed=x["seed"], got=q)
    if float(np.max(np.abs(q - np.array(x["seed"])))) > 0.01:
        rec.nontriv("joints %d" % len(q))


def gen_hist(draw):
    robots = [gen_near(draw) for _ in range(g.ii(draw, 1, 2))]
    steps = []
    for _ in range(g.ii(draw, 1, 4)):
        i = g.ii(draw, 0, len(robots) - 1)
        n = len(robots[i]["q"])
        steps.append(dict(i=i, pose=g.pick(draw, ["far", "free", "half"]), free=g.pose(draw, 1.0), k=[g.sreal(draw, 1.0) for _ in range(n)],
                          steps=g.pick(draw, [None, 5, 30]), gains=g.pick(draw, ["default", "default", "shared"]), tol=g.pick(draw, [None, 1e-2, 1e-7, 1e-9])))
    return dict(robots=robots, steps=steps, kp=g.pick(draw, [0.3, 0.5, 1.0]))


@sub("C18", "history", gen_hist, 400, 12000, shards=8, rule="a request that did not converge came before a well-conditioned nearby request")
def run_hist(x, rec):
    rs = [g.mk_robot(z["c"]) for z in x["robots"]]
    Kp, KR = x["kp"] * np.eye(3), x["kp"] * np.eye(3)
    failed = 0
    for s in x["steps"]:
        z, r = x["robots"][s["i"]], rs[s["i"]]
        c = z["c"]
        if s["pose"] == "half":
            M = g.ref_fk(c, z["q"])
            M = M @ ref.hom(ref.rotm(ref.EZ, PI), np.zeros(3))
        else:
            M = g.T_of(s["free"]).copy()
            if s["pose"] == "far":
                M[:3, 3] += np.array([40.0, -25.0, 30.0])
        kw = {}
        if s["steps"]:
            kw["max_steps"] = s["steps"]
        if s["tol"]:
            kw["tol"] = s["tol"]
        if s["gains"] == "shared":
            kw.update(Kp=Kp, KR=KR)
        seed = [a + b for a, b in zip(z["q"], s["k"])]
        conv, _ = judge(c, rox.iterative_invkin(r, rox.Transform(M[:3, :3], M[:3, 3]), np.array(seed), **kw), M, seed, s["tol"] or 1e-4)
        failed += not conv
    require(np.array_equal(Kp, x["kp"] * np.eye(3)) and np.array_equal(KR, x["kp"] * np.eye(3)), "the gains passed were changed")
    good = 0
    for z, r in zip(x["robots"], rs):
        c = z["c"]
        if np.linalg.svd(g.ref_jac(c, z["q"]), compute_uv=False)[-1] < 0.15:
            continue
        M = g.ref_fk(c, z["q"])
        conv, q = judge(c, rox.iterative_invkin(r, rox.Transform(M[:3, :3], M[:3, 3]), mk_seed(z["seed"], z["f"])), M, z["seed"], 1e-4)
        require(conv, "after earlier requests it does not converge from a seed near a well-conditioned solution", solution=z["q"], seed=z["seed"], got=q)
        good += 1
    if good and failed:
        rec.nontriv("failed before %d" % failed)
