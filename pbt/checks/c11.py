import math
import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require, rejects, fail
from .. import gens as g, ref

DEFECTS = ["none", "axis", "axis", "type", "type_short", "type_long", "P_short", "P_long", "H_rows", "P_rows", "lower_short",
           "upper_short", "lower_long", "upper_long", "both", "both", "H_long", "type_between", "vel", "acc", "names", "M_len", "M_shape"]


def gen(draw):
    c = g.chain(draw, 1, 8, types=(0, 0, 1, 2, 3))
    n = len(c["types"])
    opt = {k: g.chance(draw, 50) for k in ("limits", "vel", "acc", "names", "M", "tool")}
    return dict(c=c, opt=opt, defect=g.pick(draw, DEFECTS), i=g.ii(draw, 0, n - 1), k=g.ii(draw, 0, n),
                f=g.pick(draw, [1e-3, -1e-3, 0.1, -0.5, 1.0, -1.0, 1e-9, -1e-9]), t=g.pick(draw, [4, -1, 5, 7, 100]),
                longer=g.chance(draw, 50), links=g.ii(draw, 0, 3), shape=g.pick(draw, [[3, 3], [6, 5], [5, 6], [7, 6], [6]]), arr=g.chance(draw, 50))


def seq(x, v):
    return np.array(v, float) if x["arr"] else list(v)


def vals(n, a, b):
    return [a + b * i for i in range(n)]


def g_both(n, x):
    """A wrong length for both limits: one too many or few, or a single value for all joints."""
    return n + 1 if x["longer"] or n == 1 else [n - 1, 1][x["k"] % 2]


@sub("C11", "construct", gen, 6000, 150000, rule="exactly one defect injected, or none (accepted)")
def run(x, rec):
    c, d = x["c"], x["defect"]
    n = len(c["types"])
    H, P, types = np.array(c["H"], float).T.copy(), np.array(c["P"], float).T.copy(), list(c["types"])
    kw = dict(T_flange=g.mk_T(c["flange"]), T_base=g.mk_T(c["base"]))
    bump = 1 if x["longer"] else -1
    L = lambda name: n + bump if d == name else n
    o = x["opt"]
    bad = d != "none"
    if d == "axis":
        H[:, x["i"]] *= 1 + x["f"]
        bad = abs(x["f"]) > 1e-6
    elif d == "type":
        types[x["i"]] = x["t"]
    elif d == "type_between":
        types[x["i"]] = x["t"] / 10.0 + 0.15
    elif d == "H_long":
        H = np.c_[H, H[:, -1]] if x["longer"] or n == 1 else H[:, :-1]
    elif d == "type_short":
        types = types[:-1]
    elif d == "type_long":
        types = types + [0]
    elif d == "P_short":
        P = P[:, :-1]
    elif d == "P_long":
        P = np.c_[P, np.zeros(3)]
    elif d == "H_rows":
        H = np.r_[H, np.zeros((1, n))] if x["longer"] else np.array([[math.cos(0.3)] * n, [math.sin(0.3)] * n])
    elif d == "P_rows":
        P = np.r_[P, np.zeros((1, n + 1))] if x["longer"] else P[:2]
    nl, nu = n, n
    if d in ("lower_short", "lower_long"):
        nl = n + (1 if d == "lower_long" else -1)
    if d in ("upper_short", "upper_long"):
        nu = n + (1 if d == "upper_long" else -1)
    if d == "both":
        nl = nu = g_both(n, x)
    if o["limits"] or nl != n or nu != n:
        kw.update(joint_lower_limit=seq(x, vals(nl, -1.0, -0.25)), joint_upper_limit=seq(x, vals(nu, 1.0, 0.5)))
    if o["vel"] or d == "vel":
        kw["joint_vel_limit"] = seq(x, vals(L("vel"), 3.0, 0.75))
    if o["acc"] or d == "acc":
        kw["joint_acc_limit"] = seq(x, vals(L("acc"), 20.0, -0.5))
    if o["names"] or d == "names":
        kw["joint_names"] = ["j%d" % i for i in range(L("names"))]
    if o["M"] or d.startswith("M_"):
        M = [np.eye(6) * (i + 1) for i in range(n + 1)]
        if d == "M_len":
            M = M + [np.eye(6)] if x["longer"] else M[:-1]
        if d == "M_shape":
            M[x["k"]] = np.ones(x["shape"])
        kw["M"] = M
    if o["tool"]:
        kw.update(R_tool=ref.rotm(c["H"][0], 0.7), p_tool=np.array([0.1, -0.2, 0.3]))
    if x.get("links", 0) & 1:
        kw["root_link_name"] = "root"
    if x.get("links", 0) & 2:
        kw["tip_link_name"] = "tip"
    if bad:
        rejects(rox.Robot, H, P, types, what="a robot model with defect '%s' was accepted" % d, **kw)
        rec.nontriv("rejected " + d)
        return
    r = rox.Robot(H, P, types, **kw)
    require(np.array_equal(r.H, H) and np.array_equal(r.P, P) and list(r.joint_type) == types, "the model does not hold its arguments")
    if o["limits"]:
        require(np.array_equal(r.joint_lower_limit, vals(n, -1.0, -0.25)) and np.array_equal(r.joint_upper_limit, vals(n, 1.0, 0.5)), "limits lost")
    if o["vel"]:
        require(np.array_equal(r.joint_vel_limit, vals(n, 3.0, 0.75)), "velocity limits lost")
    else:
        require(r.joint_vel_limit is None, "velocity limits appeared")
    if o["acc"]:
        require(np.array_equal(r.joint_acc_limit, vals(n, 20.0, -0.5)), "acceleration limits lost")
    else:
        require(r.joint_acc_limit is None, "acceleration limits appeared")
    if o["names"]:
        require(list(r.joint_names) == ["j%d" % i for i in range(n)], "names lost")
    if o["M"]:
        require(len(r.M) == n + 1 and all(np.array_equal(m, np.eye(6) * (i + 1)) for i, m in enumerate(r.M)), "inertias lost")
    else:
        require(r.M is None, "inertias appeared")
    if not o["names"]:
        require(r.joint_names is None, "joint names appeared")
    if not o["limits"]:
        require(r.joint_lower_limit is None and r.joint_upper_limit is None, "limits appeared")
    if o["tool"]:
        require(np.array_equal(r.R_tool, kw["R_tool"]) and np.array_equal(np.ravel(r.p_tool), kw["p_tool"]), "tool lost")
    else:
        require(r.R_tool is None and r.p_tool is None, "a tool appeared")
    require(r.root_link_name == kw.get("root_link_name") and r.tip_link_name == kw.get("tip_link_name"), "link names lost", got=(r.root_link_name, r.tip_link_name))
    for name, T, e in (("flange", r.T_flange, c["flange"]), ("base", r.T_base, c["base"])):
        require((T is None) == (e is None), name + " frame lost or appeared")
        if e is not None:
            E = g.T_of(e)
            require(np.max(np.abs(T.R - E[:3, :3])) < 1e-12 and np.max(np.abs(T.p - E[:3, 3])) < 1e-12, name + " frame changed")
    rec.nontriv("accepted")


def gen_lim(draw):
    mobile = g.chance(draw, 15)
    c = g.chain(draw, 1, 7)
    if mobile:
        c["types"] = [3, 3, 2] + c["types"]
        c["H"] = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]] + c["H"]
        c["P"] = [[0, 0, 0.0]] * 3 + c["P"]
    n = len(c["types"])
    lo, up, q = [], [], []
    for t in c["types"]:
        a = g.sreal(draw, 4.0)
        w = g.pick(draw, [0.0, 1e-6, 0.5, 2.0, 7.0]) * g.real(draw, 0.1, 1.0)
        k = g.ii(draw, 0, 9)
        l, u = a, a + w
        if k == 0:
            l = -math.inf
        if k == 1:
            u = math.inf
        lo.append(l); up.append(u)
        q.append(g.pick(draw, [a, a + w, a + w * g.real(draw, 0, 1.0)]))
    return dict(c=c, lo=lo, up=up, q=q, i=g.ii(draw, 0, n - 1), side=g.pick(draw, ["in", "in", "below", "above"]),
                by=g.pick(draw, ["ulp", "small", "big", "huge"]), which=g.pick(draw, ["both", "both", "both", "both", "lower", "upper", "neither"]),
                arr=g.chance(draw, 60), qf=g.pick(draw, ["array", "list"]))


@sub("C11", "limits", gen_lim, 6000, 150000, rule="a joint on a limit, or one joint outside a limit")
def run_lim(x, rec):
    c, q, i = x["c"], [min(max(v, l), u) for v, l, u in zip(x["q"], x["lo"], x["up"])], x["i"]
    by = dict(ulp=0.0, small=1e-9, big=0.3, huge=7.0)[x["by"]]
    out = False
    if x["side"] == "below" and math.isfinite(x["lo"][i]):
        q[i] = x["lo"][i] - by if by else math.nextafter(x["lo"][i], -math.inf)
        out = True
    if x["side"] == "above" and math.isfinite(x["up"][i]):
        q[i] = x["up"][i] + by if by else math.nextafter(x["up"][i], math.inf)
        out = True
    kw = {}
    if x["which"] in ("both", "lower"):
        kw["joint_lower_limit"] = seq(x, x["lo"])
    if x["which"] in ("both", "upper"):
        kw["joint_upper_limit"] = seq(x, x["up"])
    r = g.mk_robot(c, **kw)
    if x["which"] != "both":
        require(r.joint_lower_limit is None and r.joint_upper_limit is None, "a single limit was kept")
    qq = np.array(q) if x["qf"] == "array" else list(q)
    if out and x["which"] == "both":
        rejects(rox.fwdkin, r, qq, what="forward kinematics accepted joint %d out of limits" % i)
        rejects(rox.robotjacobian, r, qq, what="the Jacobian accepted joint %d out of limits" % i)
        rec.nontriv("outside " + x["side"] + " " + x["by"])
        return
    T = rox.fwdkin(r, qq)
    E = g.ref_fk(c, q)
    require(np.max(np.abs(np.asarray(T.R) - E[:3, :3])) < 1e-9 and np.max(np.abs(np.asarray(T.p) - E[:3, 3])) < 1e-9, "wrong pose inside the limits")
    J = np.asarray(rox.robotjacobian(r, qq))
    require(J.shape[0] == 6 and np.all(np.isfinite(J)), "no Jacobian inside the limits")
    if any(v in (l, u) for v, l, u in zip(q, x["lo"], x["up"])):
        rec.nontriv("on a limit", "limits given: " + x["which"])
