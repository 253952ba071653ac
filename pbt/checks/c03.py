import math
import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require
from .. import again, gens as g, ref

PI = math.pi


def gen(draw):
    return dict(q=g.quat(draw), eps=[g.ii(draw, -3, 3) for _ in range(4)], col=g.chance(draw, 30))


EXQ = [[1, 0, 0, 0], [-1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, -1, 0, 0], [.5, .5, .5, .5], [.5, -.5, .5, -.5],
       [0, .5 ** .5, .5 ** .5, 0], [0, .5 ** .5, 0, -.5 ** .5], [.5 ** .5, .5 ** .5, 0, 0], [1, 1e-7, 0, 0], [-1, 0, 1e-7, 0],
       [1, 0, 0, 1e-9], [-1, 1e-9, 0, 0]]


def tol_of(R):
    a = ref.rangle(R)
    return 5e-6 if a < 3e-6 or a > PI - 3e-6 else 1e-8


def chk_q(q, R, tol, what):
    require(isinstance(q, np.ndarray), what + ": not an array", q=q)
    q = np.asarray(q, float)
    require(q.shape == (4,) and np.all(np.isfinite(q)), what + ": not a finite 4-vector", q=q)
    require(abs(float(np.linalg.norm(q)) - 1) < 1e-6, what + ": quaternion does not have unit norm", q=q)
    d = ref.rdist(ref.qmat(q / np.linalg.norm(q)), R)
    require(d < tol, what + ": quaternion of another rotation", q=q, error=d)
    return q


def chk_aa(kt, R, tol, what):
    k, t = kt
    k = np.asarray(k, float).reshape(-1)
    require(k.shape == (3,) and np.all(np.isfinite(k)) and math.isfinite(float(t)), what + ": axis or angle not finite", k=k, theta=t)
    require(abs(float(np.linalg.norm(k)) - 1) < 1e-6, what + ": axis is not a unit vector", k=k)
    d = ref.rdist(ref.rotm(k, float(t)), R)
    require(d < tol, what + ": axis and angle of another rotation", k=k, theta=t, error=d)


def chk_R(M, R, tol, what):
    require(isinstance(M, np.ndarray), what + ": not an array", got=M)
    M = np.asarray(M, float)
    require(M.shape == (3, 3) and np.all(np.isfinite(M)) and ref.rdist(M, R) < tol, what + ": another rotation", got=M)


@sub("C03", "routes", gen, 6000, 150000, examples=[dict(q=[float(x) for x in q], eps=[0] * 4, col=False) for q in EXQ],
     rule="rotation other than the identity; each conversion branch is counted as a class")
def run(c, rec):
    q = np.array(c["q"])
    q = q * (1 + np.array(c["eps"]) * 2.2e-16)       # a unit quaternion up to rounding
    R = ref.qmat(q / np.linalg.norm(q))
    tol = tol_of(R)
    chk_R(rox.q2R(q), R, 1e-9, "q2R")
    chk_R(rox.q2R(-q), R, 1e-9, "q2R(-q)")
    chk_q(rox.R2q(R), R, 1e-8, "R2q")
    aa = rox.q2rot(q)
    tq = 5e-6 if abs(ref.rangle(R)) < 3e-6 else 1e-8
    chk_aa(aa, R, tq, "q2rot")
    chk_aa(rox.q2rot(-q), R, tq, "q2rot(-q)")
    k, t = aa
    k = np.asarray(k, float)
    chk_q(rox.rot2q(k.reshape(3, 1) if c["col"] else k, t), R, tq, "rot2q(q2rot)")
    chk_R(rox.rot(*aa), R, tq, "rot(q2rot)")
    chk_R(rox.q2R(rox.R2q(R)), R, 1e-8, "q2R(R2q)")
    chk_q(rox.R2q(rox.q2R(q)), R, 1e-8, "R2q(q2R)")
    chk_aa(rox.R2rot(R), R, tol, "R2rot")
    chk_aa(rox.R2rot(rox.q2R(q)), R, tol, "R2rot(q2R)")
    chk_aa(rox.q2rot(rox.R2q(R)), R, max(tol, tq), "q2rot(R2q)")
    chk_q(rox.rot2q(*rox.R2rot(R)), R, tol, "rot2q(R2rot)")
    # the R2q branches
    tr = np.trace(R)
    b = "trace" if tr > 0 else "xyz"[int(np.argmax(np.diag(R)))]
    rec.cls("branch " + b)
    if abs(tr) < 1e-6:
        rec.cls("trace near 0")
    d = sorted(np.diag(R))
    if tr <= 0 and d[2] - d[1] < 1e-6:
        rec.cls("diagonal tie")
    if abs(abs(q[0]) - 1) < 1e-9:
        rec.cls("scalar near +-1")
    if abs(q[0]) < 1e-9:
        rec.cls("half turn")
    if ref.rangle(R) > 1e-9:
        rec.nontriv()


def gen_aa(draw):
    return dict(k=g.axis(draw), a=g.angle(draw), col=g.chance(draw, 30))


@sub("C03", "from_axis_angle", gen_aa, 3000, 60000, rule="rotation other than the identity")
def run_aa(c, rec):
    k = np.array(c["k"])
    R = ref.rotm(k, c["a"])
    q = rox.rot2q(k.reshape(3, 1) if c["col"] else k, c["a"])
    chk_q(q, R, 1e-9, "rot2q")
    chk_R(rox.q2R(q), R, 1e-9, "q2R(rot2q)")
    chk_R(rox.rot(k, c["a"]), R, 1e-9, "rot")
    chk_q(rox.R2q(rox.rot(k, c["a"])), R, 1e-8, "R2q(rot)")
    chk_aa(rox.q2rot(q), R, 5e-6 if ref.rangle(R) < 3e-6 else 1e-8, "q2rot(rot2q)")
    if ref.rangle(R) > 1e-9:
        rec.nontriv("beyond half turn" if abs(c["a"]) > PI else "principal")


def gen_perm(draw):
    return dict(i=g.ii(draw, 0, 23), ints=g.chance(draw, 60), order=g.chance(draw, 50))


def perm(i):
    """The i-th rotation matrix with entries 0, 1 and -1."""
    import itertools
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product([1, -1], repeat=3):
            M = np.zeros((3, 3), int)
            for r in range(3):
                M[r, p[r]] = s[r]
            if round(np.linalg.det(M)) == 1:
                out.append(M)
    return out[i]


@sub("C03", "quarter_turns", gen_perm, 300, 1000, rule="every case: one of the 24 rotations with whole-number entries, as integers or floats")
def run_perm(c, rec):
    M = perm(c["i"])
    if not c["ints"]:
        M = M.astype(float)
    if c["order"]:
        M = np.asfortranarray(M)
    R = M.astype(float)
    tol = 1e-9
    q = chk_q(rox.R2q(M), R, tol, "R2q")
    chk_aa(rox.R2rot(M), R, tol, "R2rot")
    chk_aa(rox.q2rot(q), R, tol, "q2rot")
    chk_R(rox.q2R(q), R, tol, "q2R")
    k, t = rox.R2rot(M)
    chk_R(rox.rot(k, t), R, tol, "rot")
    chk_q(rox.rot2q(k, t), R, tol, "rot2q")
    if abs(R[2, 0]) < 0.5:
        a = [float(v) for v in rox.R2rpy(M)]
        chk_R(rox.rpy2R(a), R, tol, "rpy2R(R2rpy)")
    rec.nontriv("rotation %d" % c["i"])


again.register("C03")
