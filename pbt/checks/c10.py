import math
import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require, rejects
from .. import gens as g, ref, session
from .c09 import gen as gen9, build, form, scale, turn


def gen(draw):
    x = gen9(draw)
    while any(t > 1 for t in x["c"]["types"]):
        x["c"]["types"] = [t % 2 for t in x["c"]["types"]]
    x["rates"] = [g.sreal(draw, 2.0) for _ in x["q"]]
    return x


def check_jac(J, E, c, q):
    require(J.shape == E.shape, "Jacobian has a wrong shape", got=J.shape, expected=E.shape)
    tol = 1e-11 * scale(c, q)
    require(np.max(np.abs(J[:3] - E[:3])) < 1e-11 * turn(c, q), "angular rows differ from the derivative of the orientation", got=J, expected=E)
    require(np.max(np.abs(J[3:] - E[3:])) < tol, "linear rows differ from the derivative of the position", got=J, expected=E)


@sub("C10", "arm", gen, 4000, 200000, shards=8, rule="at least two joints and two non-zero rates")
def run(x, rec):
    c, q = x["c"], x["q"]
    r = build(x)
    J = np.asarray(rox.robotjacobian(r, form(q, x["form"])), float)
    check_jac(J, g.ref_jac(c, q), c, q)
    w, v = ref.chain_dfk(np.array(c["H"], float).T, np.array(c["P"], float).T, c["types"], q, x["rates"],
                         g.T_of(c["tool"]), g.T_of(c["flange"]), g.T_of(c["base"]))
    got = J @ np.array(x["rates"])
    require(np.max(np.abs(got - np.r_[w, v])) < 1e-10 * scale(c, q) * (1 + sum(map(abs, x["rates"]))),
            "Jacobian times rates is not the tool velocity", got=got, expected=np.r_[w, v])
    # numeric cross check of the toolbox against itself
    if not c["lower"]:
        h = 1e-6
        dq = np.array(x["rates"])
        a, b = rox.fwdkin(r, np.array(q) + h * dq), rox.fwdkin(r, np.array(q) - h * dq)
        lin = (np.asarray(a.p) - np.asarray(b.p)) / (2 * h)
        W = (np.asarray(a.R) - np.asarray(b.R)) / (2 * h) @ rox.fwdkin(r, np.array(q)).R.T
        ang = 0.5 * np.array([W[2, 1] - W[1, 2], W[0, 2] - W[2, 0], W[1, 0] - W[0, 1]])
        s = (1 + sum(map(abs, x["rates"]))) ** 3 * scale(c, q)
        require(np.max(np.abs(got - np.r_[ang, lin])) < 1e-7 * s, "Jacobian is not the derivative of forward kinematics", got=got, numeric=np.r_[ang, lin])
    if len(q) > 1 and sum(1 for d in x["rates"] if abs(d) > 1e-6) > 1:
        rec.nontriv("aux " + "".join(k[0] for k in ("tool", "flange", "base") if c[k] is not None))


def gen_mobile(draw):
    k3, k1 = np.array(g.axis(draw)), np.array(g.axis(draw))
    k1 = k1 - k3 * float(k1 @ k3)
    if np.linalg.norm(k1) < 0.1:
        e = np.eye(3)[int(np.argmin(np.abs(k3)))]
        k1 = e - k3 * float(e @ k3)
    k1 = ref.unit(k1)
    if g.chance(draw, 60):
        k3, k1 = np.array([0, 0, 1.0]), np.array([1.0, 0, 0])
    k2 = np.cross(k3, k1)
    c = g.chain(draw, 1, 7)
    if g.chance(draw, 10):
        c.update(types=[], H=[], P=c["P"][:1])
    c["types"] = [3, 3, 2] + c["types"]
    c["H"] = [k1.tolist(), k2.tolist(), k3.tolist()] + c["H"]
    c["P"] = [g.vec(draw, 1.0, 50) for _ in range(3)] + c["P"]
    q = g.conf(draw, c["types"])
    if g.chance(draw, 30):
        c["lower"], c["upper"] = g.limits_around(draw, c["types"], q)
    return dict(c=c, q=q, form=g.pick(draw, ["array", "list", "tuple"]), half="none", jt=g.pick(draw, ["list", "array"]))


@sub("C10", "mobile", gen_mobile, 2400, 100000, rule="heading not a multiple of a quarter turn and at least one arm joint")
def run_mobile(x, rec):
    c, q = x["c"], x["q"]
    r = build(x)
    J = np.asarray(rox.robotjacobian(r, form(q, x["form"])), float)
    F = g.ref_jac(c, q)
    th = q[2]
    fwd = math.cos(th) * F[:, 0] + math.sin(th) * F[:, 1]
    E = np.column_stack([fwd, F[:, 2]] + [F[:, i] for i in range(3, len(q))])
    check_jac(J, E, c, q)
    if abs(math.sin(2 * th)) > 1e-3 and len(q) > 3:
        rec.nontriv("arm joints %d" % (len(q) - 3))


@sub("C10", "session", session.gen, 1600, 80000, shards=8,
     rule="a query after a change of the model or of the joint array between queries")
def run_session(x, rec):
    held = []
    kinds = set()
    for n, r, c, q, ok in session.play(x):
        if not ok:
            rejects(rox.robotjacobian, r, q, what="the Jacobian accepted joints outside the limits set since")
            kinds.add("refused")
            continue
        J = rox.robotjacobian(r, q)
        E = g.ref_jac(c, q)
        check_jac(np.asarray(J, float), E, c, q)
        held.append((n, J, E, scale(c, q)))
    for n, J, E, s in held:
        require(np.max(np.abs(np.asarray(J) - E)) < 1e-11 * s, "a Jacobian returned earlier changed afterwards", step=n, now=J, expected=E)
    kinds |= set(s[1][0] for s in x["steps"] if s[1]) | set(s[2][0] for s in x["steps"] if s[2])
    if kinds and len(held) > 1:
        rec.nontriv(*sorted(kinds))
