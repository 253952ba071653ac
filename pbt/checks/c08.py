import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require, rejects
from .. import gens as g, ref

NAMES = [None, "world", "base", "tool", "cam", ""]


def gen(draw):
    n = g.ii(draw, 2, 5)
    pool = [dict(T=g.pose(draw), parent=g.pick(draw, NAMES), child=g.pick(draw, NAMES), col=g.chance(draw, 40),
                 lst=g.chance(draw, 20)) for _ in range(n)]
    ops, size = [], n
    for _ in range(g.ii(draw, 1, 8)):
        k = g.pick(draw, ["mul", "mul", "mul", "inv", "ident", "edit"])
        if k == "mul":
            ops.append(["mul", g.ii(draw, 0, size - 1), g.ii(draw, 0, size - 1)])
        elif k == "inv":
            ops.append(["inv", g.ii(draw, 0, size - 1)])
        elif k == "edit":
            ops.append(["edit", g.ii(draw, 0, size - 1), g.pose(draw), g.pick(draw, ["R", "p", "both", "in place"]), g.pick(draw, NAMES), g.pick(draw, NAMES)])
            continue
        else:
            ops.append(["ident"])
        size += 1
    return dict(pool=pool, ops=ops)


def mk(x):
    R = ref.rotm(x["T"][0], x["T"][1])
    p = np.array(x["T"][2], float)
    if x["col"]:
        p = p.reshape(3, 1)
    if x["lst"]:
        R, p = R.tolist(), p.tolist()
    return rox.Transform(R, p, x["parent"], x["child"])


def agree(T, M, tol, what):
    R, p = np.asarray(T.R, float), np.asarray(T.p, float)
    require(R.shape == (3, 3) and p.shape == (3,), what + ": wrong shapes", R=R.shape, p=p.shape)
    require(np.max(np.abs(R - M[:3, :3])) < tol, what + ": wrong rotation", got=R, expected=M[:3, :3])
    require(np.max(np.abs(p - M[:3, 3])) < tol * (1 + np.max(np.abs(M[:3, 3]))), what + ": wrong position", got=p, expected=M[:3, 3])


@sub("C08", "history", gen, 2500, 50000, shards=2,
     rule="the history composes at least two different non-identity transforms")
def run(c, rec):
    Ts, Ms, fr = [], [], []
    for x in c["pool"]:
        T = mk(x)
        Ts.append(T); Ms.append(g.T_of(x["T"])); fr.append((x["parent"], x["child"]))
        agree(T, Ms[-1], 1e-12, "constructed")
    muls = 0
    for op in c["ops"]:
        if op[0] == "edit":       # the transform moves; those made from it before stay
            a, X = op[1], g.T_of(op[2])
            M = Ms[a].copy()
            for use in range(2):
                agree(Ts[a].inv() * Ts[a], np.eye(4), 1e-9 * (1 + np.max(np.abs(Ms[a]))), "inverse of a transform after it was edited")
                agree(Ts[a] * Ts[a], Ms[a] @ Ms[a], 1e-9 * (1 + np.max(np.abs(Ms[a] @ Ms[a]))), "square of a transform after it was edited")
                if use:
                    break
                if op[3] == "in place":
                    Ts[a].R[:, :] = X[:3, :3]
                    Ts[a].p[:] = X[:3, 3]
                    M = X
                elif op[3] in ("R", "both"):
                    Ts[a].R = X[:3, :3].copy()
                    M[:3, :3] = X[:3, :3]
                if op[3] in ("p", "both"):
                    Ts[a].p = X[:3, 3].copy()
                    M[:3, 3] = X[:3, 3]
                Ts[a].parent_frame_id, Ts[a].child_frame_id = op[4], op[5]
                Ms[a], fr[a] = M, (op[4], op[5])
            rec.cls("edited " + op[3])
            continue
        if op[0] == "mul":
            a, b = op[1], op[2]
            T, M, f = Ts[a] * Ts[b], Ms[a] @ Ms[b], (fr[a][0], fr[b][1])
            muls += a != b
        elif op[0] == "inv":
            a = op[1]
            T, M, f = Ts[a].inv(), ref.hinv(Ms[a]), (fr[a][1], fr[a][0])
            require((T * Ts[a]).isclose(rox.identity_transform(), 1e-7 * (1 + np.max(np.abs(Ms[a])))), "inverse times transform is not the identity")
            agree(T * Ts[a], np.eye(4), 1e-9 * (1 + np.max(np.abs(Ms[a]))), "inv * T")
            agree(Ts[a] * T, np.eye(4), 1e-9 * (1 + np.max(np.abs(Ms[a]))), "T * inv")
            agree(T.inv(), Ms[a], 1e-9 * (1 + np.max(np.abs(Ms[a]))), "inverse of inverse")
        else:
            T, M, f = rox.identity_transform(), np.eye(4), (None, None)
            agree(T, M, 1e-15, "identity")
            for X, MX in zip(Ts[-2:], Ms[-2:]):
                agree(T * X, MX, 1e-9, "identity * T")
                agree(X * T, MX, 1e-9, "T * identity")
        agree(T, M, 1e-9 * (1 + float(np.max(np.abs(M)))), op[0])
        require(T.parent_frame_id == f[0] and T.child_frame_id == f[1], op[0] + ": wrong frame names",
                got=(T.parent_frame_id, T.child_frame_id), expected=f)
        Ts.append(T); Ms.append(M); fr.append(f)
    # operands unchanged by the whole history
    for T, M, f in zip(Ts, Ms, fr):
        agree(T, M, 1e-9 * (1 + float(np.max(np.abs(M)))), "after the history")
        require((T.parent_frame_id, T.child_frame_id) == f, "frame names changed")
    A, B, C = Ts[0], Ts[1], Ts[-1]
    L, Rr = (A * B) * C, A * (B * C)
    agree(L, np.block([[Rr.R, Rr.p.reshape(3, 1)], [np.zeros((1, 3)), np.ones((1, 1))]]), 1e-9 * (1 + float(np.max(np.abs(Rr.p)))), "associativity")
    require(isinstance(repr(A), str) and isinstance(str(A), str), "no text form")
    if muls:
        rec.nontriv("ops %d" % len(c["ops"]))


def gen_eq(draw):
    return dict(T=g.pose(draw), what=g.pick(draw, ["R", "p", "p", "both", "none"]), k=g.axis(draw), i=g.ii(draw, 0, 2),
                e=g.ii(draw, -12, 0), m=g.real(draw, 1.0, 9.9), sign=g.pick(draw, [1, -1]),
                tol=g.pick(draw, [None, None, 1e-3, 1e-6, 1e-9, 0.1]),
                frames=[g.pick(draw, NAMES) for _ in range(4)], far=[g.pick(draw, [1.0, 1.0, 0.0, 1e-4, 1e2, 1e5]) for _ in range(3)])


@sub("C08", "equality", gen_eq, 4000, 80000, rule="the two transforms differ by a perturbation")
def run_eq(c, rec):
    M = g.T_of(c["T"])
    M[:3, 3] *= c["far"]
    d = 0.0 if c["what"] == "none" else c["m"] * 10.0 ** c["e"] * c["sign"]
    M2 = M.copy()
    if c["what"] in ("R", "both"):
        M2[:3, :3] = M[:3, :3] @ ref.rotm(c["k"], d)
    if c["what"] in ("p", "both"):
        M2[c["i"], 3] += d
    A = rox.Transform(M[:3, :3], M[:3, 3], c["frames"][0], c["frames"][1])
    B = rox.Transform(M2[:3, :3], M2[:3, 3], c["frames"][0], c["frames"][1])
    diff = np.abs(M - M2)[:3]
    scale = np.maximum(np.abs(M), np.abs(M2))[:3]
    # equality: relative 1e-6 with a 1e-8 floor
    eq = bool(A == B)
    require(bool(A != B) == (not eq), "!= is not the negation of ==")
    if np.all(diff <= 0.4 * 1e-8):
        require(eq, "transforms that agree within the tolerance are not equal", diff=diff.max())
    if np.all(diff <= 0.4 * (1e-8 + 1e-6 * np.minimum(np.abs(M), np.abs(M2))[:3])):
        require(eq, "transforms that agree within the relative tolerance are not equal", diff=diff.max())
        rec.cls("equal")
    if np.any(diff > 2.5 * (1e-8 + 1e-6 * scale)):
        require(not eq, "transforms that differ beyond the tolerance are equal", diff=diff)
    tol = 1e-6 if c["tol"] is None else c["tol"]
    cl = bool(A.isclose(B) if c["tol"] is None else A.isclose(B, c["tol"]))
    if np.all(diff <= 0.4 * tol):
        require(cl, "transforms within the tolerance are not close", diff=diff.max(), tol=tol)
        rec.cls("close")
    elif np.any(diff > 2.5 * (tol + 1e-5 * scale)):
        require(not cl, "transforms beyond the tolerance are close", diff=diff, tol=tol)
        rec.cls("not close")
    if d != 0:
        rec.nontriv(c["what"])


def gen_shape(draw):
    return dict(T=g.pose(draw), bad=g.pick(draw, ["R34", "R22", "R9", "R44", "R3", "p2", "p4", "p13", "p32", "p0", "R13"]))


@sub("C08", "shapes", gen_shape, 300, 3000, rule="every case has one badly shaped argument")
def run_shape(c, rec):
    M = g.T_of(c["T"])
    R, p = M[:3, :3], M[:3, 3]
    rox.Transform(R, p)
    b = c["bad"]
    bad = dict(R34=(np.eye(4)[:3], p), R22=(np.eye(2), p), R9=(R.reshape(9), p), R44=(np.eye(4), p), R3=(R[0], p), R13=(R[:1], p),
               p2=(R, p[:2]), p4=(R, np.r_[p, 1.0]), p13=(R, p.reshape(1, 3)), p32=(R, np.ones((3, 2))), p0=(R, 1.0))[b]
    rejects(rox.Transform, *bad, what="badly shaped argument was accepted (%s)" % b)
    rec.nontriv(b)


def gen_rand(draw):
    return dict(seed=g.ii(draw, 0, 2 ** 31 - 1))


@sub("C08", "random", gen_rand, 800, 20000, rule="every case draws one random rotation, position and transform")
def run_rand(c, rec):
    st = np.random.get_state()
    try:
        np.random.seed(c["seed"])
        R = rox.random_R()
        p = rox.random_p()
        T = rox.random_transform()
        T2 = rox.random_transform()
    finally:
        np.random.set_state(st)
    require(ref.is_rot(R, 1e-10), "random rotation is not a rotation", R=R)
    require(np.shape(p) == (3,) and np.all(np.isfinite(p)), "random position is not a finite vector", p=p)
    for X in (T, T2):
        require(ref.is_rot(X.R, 1e-10) and X.p.shape == (3,) and np.all(np.isfinite(X.p)), "random transform is not rigid", T=X)
    require(ref.rdist(T.R, T2.R) > 0 and np.any(T.p != T2.p), "successive random transforms are equal")
    rec.nontriv()
