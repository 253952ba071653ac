import math
import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require, rejects
from .. import again, gens as g, ref


def gen(draw):
    q = g.quat(draw)
    kind = g.pick(draw, ["pair", "same", "delta", "delta", "scaled_same", "half"])
    c = dict(q0=q, kind=kind, s0=g.pick(draw, [1, -1]), s1=g.pick(draw, [1, -1]),
             m0=g.size(draw), m1=g.size(draw),
             t=g.pick(draw, [0, 1, 0.0, 1.0, 0.5, g.real(draw, 0, 1), g.real(draw, 0, 1), g.real(draw, 0, 1),
                             g.real(draw, 0, 1) * 1e-6, 1 - g.real(draw, 0, 1) * 1e-6]))
    if kind == "pair":
        c["q1"] = g.quat(draw)
    elif kind in ("same", "scaled_same"):
        c["q1"] = q
    elif kind == "delta":
        a = g.pick(draw, [g.sreal(draw, math.pi), g.tiny(draw, 1, 12), g.real(draw, 0.5, 8.0) * 1e-6])
        c["q1"] = ref.qmul(np.array(q), ref.qaa(g.axis(draw), a)).tolist()
    else:      # near the half-turn ambiguity
        c["q1"] = ref.qmul(np.array(q), ref.qaa(g.axis(draw), math.pi - g.tiny(draw, 2, 12))).tolist()
    return c


def expected(q0, q1, t):
    """(rotation, rotation angle between the ends, scalar part)"""
    d = ref.qmul(ref.qconj(q0), q1)
    if d[0] < 0:
        d = -d
    v = float(np.linalg.norm(d[1:]))
    a = 2 * math.atan2(v, d[0])
    k = d[1:] / v if v > 1e-300 else np.array([0., 0., 1.])
    return ref.qmat(q0) @ ref.rotm(k, t * a), a, d[0], k


@sub("C06", "path", gen, 8000, 200000, rule="different end rotations and 0 < t < 1; or equal ends (class same)")
def run(c, rec):
    q0 = np.array(c["q0"]); q0 = q0 / np.linalg.norm(q0)
    q1 = np.array(c["q1"]); q1 = q1 / np.linalg.norm(q1)
    t = c["t"]
    E, a, w, k = expected(q0, q1, t)
    tie = w < 1e-9
    alts = [E]
    if tie:       # both directions are shortest
        alts.append(ref.qmat(q0) @ ref.rotm(-k, t * (2 * math.pi - a)))
    tol = 4e-6 if a < 5e-6 else 1e-10 if a < 1.0 else 1e-9
    for s0, s1 in [(c["s0"], c["s1"]), (1, 1), (-1, 1), (1, -1)]:
        r = np.asarray(rox.slerp(q0 * s0 * c["m0"], q1 * s1 * c["m1"], t), float)
        require(r.shape == (4,) and np.all(np.isfinite(r)), "result is not a finite quaternion", got=r)
        require(abs(np.linalg.norm(r) - 1) < 1e-9, "result is not a unit quaternion", got=r)
        d = min(ref.rdist(ref.qmat(r), X) for X in alts)
        require(d < tol, "not the rotation at fraction t of the shortest path", got=r, error=d, signs=(s0, s1))
    for tt, qe in ((0, q0), (1, q1)):
        r = np.asarray(rox.slerp(q0, q1, tt), float)
        require(ref.rdist(ref.qmat(r / np.linalg.norm(r)), ref.qmat(qe)) < 4e-6, "end rotation not reached", t=tt, got=r)
    if a < 1e-12:
        rec.nontriv("same")
    elif 0 < t < 1:
        rec.nontriv("tiny" if a < 1e-5 else "tie" if tie else "general")


def gen_bad(draw):
    return dict(q0=g.quat(draw), q1=g.quat(draw), over=g.chance(draw, 50),
                d=g.pick(draw, [1e-9, 1e-6, 0.01, 1.0, 5.0, 1e6, "nan"]))


@sub("C06", "bad_fraction", gen_bad, 600, 6000, rule="every case has a fraction outside [0, 1]")
def run_bad(c, rec):
    if c["d"] == "nan":
        t = float("nan")
    else:
        t = 1 + c["d"] if c["over"] else -c["d"]
    rejects(rox.slerp, np.array(c["q0"]), np.array(c["q1"]), t, what="fraction outside [0, 1] was accepted")
    rec.nontriv()


again.register("C06")
