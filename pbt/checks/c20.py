"""URDF robots move as the URDF says."""
import numpy as np
import general_robotics_toolbox as rox
from general_robotics_toolbox import urdf
from ..core import sub, require
from .. import gens as g, ref, urdfgen as u


def same_robot(r, t, root, tip, fr, what=""):
    """The loaded robot against the document. fr: per joint fractions of the range."""
    c = u.chain_of(t, root, tip)
    mv = u.moving(t, c)
    n = len(mv)
    require(len(r.joint_type) == n, what + "wrong number of joints", got=len(r.joint_type), expected=n)
    require(list(r.joint_names) == [t["joints"][i]["name"] for i in mv], what + "wrong joint names or order", got=r.joint_names)
    require([int(v) for v in r.joint_type] == [0 if t["joints"][i]["type"] == "revolute" else 1 for i in mv], what + "wrong joint types", got=r.joint_type)
    require(r.root_link_name == t["names"][root] and r.tip_link_name == t["names"][tip], what + "wrong root or tip link name", got=(r.root_link_name, r.tip_link_name))
    L = u.limits(t, c)
    ls = [t["joints"][i]["limit"] for i in mv]
    if L is not None:
        for name, got, exp in (("lower limit", r.joint_lower_limit, L[0]), ("upper limit", r.joint_upper_limit, L[1]),
                               ("velocity limit", r.joint_vel_limit, L[2]), ("effort limit", getattr(r, "joint_effort_limit", None), L[3])):
            require(got is not None and np.shape(got) == (n,) and np.allclose(np.asarray(got, float), exp, rtol=1e-12, atol=1e-12), what + "wrong " + name, got=got, expected=exp)
        for name, got in (("lower limit", r.joint_lower_limit), ("upper limit", r.joint_upper_limit), ("velocity limit", r.joint_vel_limit)):
            require(isinstance(got, np.ndarray), what + name + "s are not an array", got=got)
    elif all(l is None for l in ls):
        require(r.joint_lower_limit is None and r.joint_upper_limit is None, what + "limits appeared from nowhere", got=(r.joint_lower_limit, r.joint_upper_limit))
    for f in fr:
        q = []
        for k, i in enumerate(mv):
            l = t["joints"][i]["limit"]
            lo, hi = (-3.0, 3.0) if l is None else (l["lower"] or 0.0, l["upper"] or 0.0)
            q.append(min(max(lo + (hi - lo) * f[k % len(f)], lo), hi))
        T = rox.fwdkin(r, np.array(q))
        E = u.fk(t, c, q)
        require(np.max(np.abs(np.asarray(T.R) - E[:3, :3])) < 1e-9 and np.max(np.abs(np.asarray(T.p) - E[:3, 3])) < 1e-8,
                what + "forward kinematics differs from the URDF", q=q, got=(T.R, T.p), expected=E)


def gen(draw):
    t = u.tree(draw, 3 if g.chance(draw, 20) else 5, off=("revolute", "prismatic", "fixed", "fixed", "continuous", "floating"))
    return dict(t=t, tip=g.ii(draw, 1, 100), root=g.ii(draw, 0, 100), mode=g.pick(draw, ["both", "tip", "auto"]), again=g.chance(draw, 50),
                fr=[[g.real(draw, 0, 1.0) for _ in range(7)] for _ in range(2)])


def choose(x):
    """(root index, tip index, root argument, tip argument) or None"""
    t = x["t"]
    n = len(t["names"])
    if x["mode"] == "auto":
        c = u.candidates(t, 0)
        if len(c) != 1:
            return None
        root, tip = 0, c[0]
        ra = ta = None
    else:
        tip = x["tip"] % n
        anc = [tip]
        while t["parents"][anc[-1]] is not None:
            anc.append(t["parents"][anc[-1]])
        anc = anc[1:]
        if not anc:
            return None
        root = anc[::-1][x["root"] % len(anc)] if x["mode"] == "both" else 0
        ra, ta = (t["names"][root] if x["mode"] == "both" else None), t["names"][tip]
    c = u.chain_of(t, root, tip)
    if not c or not u.supported(t, c) or not u.moving(t, c):
        return None
    return root, tip, ra, ta


@sub("C20", "urdf", gen, 2400, 80000, shards=8, rule="chain with at least one moving joint and one rotated origin")
def run(x, rec):
    ch = choose(x)
    if ch is None:
        rec.cls("no supported chain")
        return
    root, tip, ra, ta = ch
    t = x["t"]
    r = urdf.robot_from_xml_string(u.to_xml(t), ra, ta)
    same_robot(r, t, root, tip, x["fr"])
    if x["again"]:      # the user edits the robot by hand, then loads the document anew
        for a in (r.H, r.P, r.joint_lower_limit, r.joint_upper_limit, r.joint_vel_limit, r.joint_type, r.R_tool, r.p_tool):
            if isinstance(a, np.ndarray):
                a[...] = 0
                a += 1
        for a in (r.joint_names, getattr(r, "joint_effort_limit", None)):
            if isinstance(a, list):
                a[:] = a[::-1] + a
        same_robot(urdf.robot_from_xml_string(u.to_xml(t), ra, ta), t, root, tip, x["fr"], "loaded again: ")
        rec.cls("loaded again")
    c = u.chain_of(t, root, tip)
    if any(any(t["joints"][i]["origin"]["rpy"]) for i in c):
        lim = [t["joints"][i]["limit"] is None for i in u.moving(t, c)]
        rec.nontriv("moving %d" % len(u.moving(t, c)), "mode " + x["mode"], "limits " + ("none" if all(lim) else "some" if any(lim) else "all"),
                    *(["fixed tip joint"] if t["joints"][c[-1]]["type"] == "fixed" else []),
                    *(["inertial"] if any(t["inertials"][i] for i in [root] + c) else []),
                    *(["default axis"] if any(t["joints"][i]["axis"] is None for i in u.moving(t, c)) else []))
