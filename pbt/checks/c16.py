"""Previous joints: closest configuration first."""
import math
import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require
from .. import gens as g, ref, session
from . import c14

PI = math.pi


def gen(draw):
    c, q = g.arm(draw, limits=("none", "pi", "wide", "wide", "shift", "narrow"))
    last = None
    while last is None:
        last = c14.last_of(draw, q)
        if last is None:
            last = dict(v=[v + g.sreal(draw, 3 * PI) for v in q], f="array")
    return dict(c=c, q=q, last=last)


def nearest(q, last, lo, up):
    """Whole-turn alternative of q nearest to last, clear of the limits; None if there is none."""
    out = []
    for i, v in enumerate(q):
        n = round((last[i] - v) / (2 * PI))
        best = None
        if lo is None:
            best = v + 2 * PI * n
        else:
            a = math.ceil((lo[i] + 1e-9 - v) / (2 * PI))
            b = math.floor((up[i] - 1e-9 - v) / (2 * PI))
            if a > b:
                return None
            best = v + 2 * PI * min(max(n, a), b)
        out.append(best)
    return np.array(out)


def check_first(c, sols, others, last, what="the first configuration"):
    last = np.array(last, float)
    d = [float(np.linalg.norm(np.asarray(s, float) - last)) for s in sols]
    require(all(d[i] <= d[i + 1] + 1e-9 for i in range(len(d) - 1)), "configurations are not sorted by distance from the previous joints", distances=d)
    for o in others:
        a = nearest(o, last, c["lower"], c["upper"])
        if a is None:
            continue
        require(len(d) > 0, "no configuration although one exists", config=a)
        e = float(np.linalg.norm(a - last))
        require(d[0] <= e + 1e-5, what + " is not the closest one", first=sols[0], distance=d[0], closer=a, closer_distance=e, last=last)


@sub("C16", "closest", gen, 3200, 100000, shards=8, rule="more than one configuration returned and the closest differs from the raw one by whole turns or order")
def run(x, rec):
    c, q = x["c"], x["q"]
    r = g.mk_robot(c)
    M = g.ref_fk(c, q)
    T = rox.Transform(M[:3, :3], M[:3, 3])
    last = c14.mk_last(x["last"])
    plain = c14.solver(c)(r, T)
    sols = c14.solver(c)(r, T, last)
    c14.check_result(c, sols, M)
    require(len(sols) > 0 or len(plain) == 0, "previous joints made a reachable pose unreachable", without=plain)
    # where axes 4 and 6 (almost) line up, the split of the two angles is arbitrary: not compared
    others = [np.asarray(s, float) for s in plain if c14.cond(c, np.asarray(s, float)) > 1e-5]
    if c14.cond(c, q) > 1e-3:
        others.append(np.array(q))
        require(len(sols) > 0, "reachable pose not solved")
    check_first(c, sols, others, x["last"]["v"])
    if len(sols) > 1:
        d0 = [float(np.linalg.norm(np.asarray(s, float) - np.array(x["last"]["v"]))) for s in plain]
        if any(d0[i] > d0[i + 1] + 1e-9 for i in range(len(d0) - 1)) or (d0 and min(d0) > float(np.linalg.norm(sols[0] - np.array(x["last"]["v"]))) + 1e-6):
            rec.nontriv(c["family"], "limits " + c["limits"])


def gen_path(draw):
    c, q = g.arm(draw, limits=("none", "wide", "pi"))
    n = g.ii(draw, 2, 8)
    return dict(c=c, q=q, dq=[g.sreal(draw, 0.15) for _ in range(6)], n=n, turns=[g.ii(draw, -1, 1) for _ in range(6)], big=g.chance(draw, 30))


@sub("C16", "path", gen_path, 700, 20000, rule="at least two non-singular steps tracked")
def run_path(x, rec):
    c = dict(x["c"])
    q = np.array(x["q"])
    if c["lower"] is None:
        q = q + 2 * PI * np.array(x["turns"])
    dq = np.array(x["dq"]) * (4 if x["big"] else 1)
    r = g.mk_robot(c)
    last, steps = q, 0
    for k in range(x["n"] + 1):
        qk = q + dq * k
        if c["lower"] is not None and not (np.all(qk > np.array(c["lower"]) + 1e-6) and np.all(qk < np.array(c["upper"]) - 1e-6)):
            break
        if c14.cond(c, qk) < 1e-3:
            last = qk
            continue
        M = g.ref_fk(c, qk)
        sols = c14.solver(c)(r, rox.Transform(M[:3, :3], M[:3, 3]), last)
        require(len(sols) > 0, "a pose of the path is not solved", step=k)
        c14.check_result(c, sols[:1], M)
        check_first(c, sols, [qk], last, "the first configuration along a path")
        last = np.asarray(sols[0], float)
        steps += 1
    if steps >= 2:
        rec.nontriv("steps %d" % steps)


@sub("C16", "session", session.gen_arm, 640, 30000, shards=8, rule="at least two requests with previous joints in one history")
def run_session(x, rec):
    k = 0
    for n, r, c, q, M, sols, last in session.play_arm(x):
        if last is None:
            continue
        if c14.cond(c, q) > 1e-3:
            check_first(c, sols, [np.array(q)], last, "the first configuration in a history of requests")
        else:
            check_first(c, sols, [], last)
        k += 1
    if k > 1:
        rec.nontriv("requests %d" % k)
