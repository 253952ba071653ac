"""Tesseract scene graph and environment mirror the robot."""
import numpy as np
import general_robotics_toolbox as rox
from general_robotics_toolbox import tesseract as tt
from tesseract_robotics.tesseract_environment import Environment
from tesseract_robotics.tesseract_scene_graph import JointType_FIXED, JointType_REVOLUTE, JointType_PRISMATIC
from ..core import sub, require, rejects
from .. import gens as g, ref, tessgen as tg
from .c26 import scale


def vec_items(v):
    return [v[i] for i in range(len(v))]


def iso(M):
    return np.array(M.matrix(), float)


def close(a, b, tol, what, **kw):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape and np.all(np.isfinite(a)) and np.max(np.abs(a - b), initial=0.0) <= tol, what, got=a, expected=b, **kw)


def read(sg):
    """{child link: joint facts} and link names. Swig objects are read while the graph is alive."""
    js = {}
    for j in vec_items(sg.getJoints()):
        lim = None
        if j.limits is not None and j.type != JointType_FIXED:
            l = j.limits
            lim = (l.lower, l.upper, l.velocity, l.acceleration)
        js.setdefault(j.child_link_name, []).append(dict(name=j.getName(), parent=j.parent_link_name, type=j.type,
                      axis=np.array(j.axis.flatten(), float), origin=iso(j.parent_to_joint_origin_transform), limits=lim))
    ln = [l.getName() for l in vec_items(sg.getLinks())]
    return js, ln


def walk(js, tip, root):
    """Joints from root to tip."""
    out, l = [], tip
    while l != root:
        require(l in js, "the tip link is not connected to the root", link=l, root=root)
        require(len(js[l]) == 1, "a link has several parent joints", link=l)
        require(len(out) <= 200, "the links form a loop")
        j = js[l][0]
        out.append((j, l))
        l = j["parent"]
    return out[::-1]


def check_chain(c, chain, pre, base):
    """chain: joints in order from the root to the tip. base: with the world joint."""
    exp = []
    if base:
        exp.append(("base", g.T_of(c["base"]) if c["base"] else np.eye(4)))
    n = len(c["types"])
    exp += [("joint", i) for i in range(n)]
    exp.append(("tip", ref.hom(np.eye(3), c["P"][n])))
    for k in ("flange", "tool"):
        if c[k]:
            exp.append((k, g.T_of(c[k])))
    require(len(chain) == len(exp), "wrong number of joints in the chain", got=[(j["name"], l) for j, l in chain], expected=[e[0] for e in exp])
    names = tg.joint_names(c)
    for (j, l), (kind, v) in zip(chain, exp):
        if kind == "joint":
            i = v
            require(j["type"] == (JointType_REVOLUTE if c["types"][i] == 0 else JointType_PRISMATIC), "joint type", joint=j, index=i)
            require(j["name"] == pre + names[i], "joint name", got=j["name"], expected=pre + names[i])
            close(j["axis"], c["H"][i], 1e-12, "joint axis", index=i)
            close(j["origin"], ref.hom(np.eye(3), c["P"][i]), 1e-12, "joint origin", index=i)
            e = (c["lower"][i], c["upper"][i], c["vel"][i], c["acc"][i])
            require(j["limits"] is not None and all(abs(a - b) <= 1e-12 * (1 + abs(b)) for a, b in zip(j["limits"], e)),
                    "joint limits (lower, upper, velocity, acceleration)", got=j["limits"], expected=e, index=i)
        else:
            require(j["type"] == JointType_FIXED, "a fixed joint is expected", joint=j, where=kind)
            close(j["origin"], v, 1e-12 + 1e-12 * float(np.max(np.abs(v))), "fixed transform of the " + kind)


def gen_sg(draw):
    return dict(c=tg.robot(draw, 1, 8), names=g.ii(draw, 0, 1), T=g.pose(draw, 5.0), W=g.chance(draw, 30), bad=g.chance(draw, 15), bt=g.ii(draw, 2, 3), bi=g.ii(draw, 0, 7))


@sub("C28", "graph", gen_sg, 2400, 60000, shards=6, journal=True, rule="two or more joints and a flange or tool")
def run_sg(x, rec):
    c = x["c"]
    n = len(c["types"])
    T = g.mk_T(x["T"])
    if x["W"]:          # whole-number positions, as typed in by hand
        x["T"][2] = [float(round(v)) for v in x["T"][2]]
        T = rox.Transform(T.R, [int(v) for v in x["T"][2]])
    # pose conversions
    I = tt.transform_to_isometry3d(T)
    close(iso(I), g.T_of(x["T"]), 1e-11, "transform to Tesseract")
    B = tt.isometry3d_to_transform(I)
    close(B.R, T.R, 1e-11, "rotation after a round trip")
    close(B.p, T.p, 1e-11, "translation after a round trip")
    require(np.array_equal(T.R, ref.rotm(x["T"][0], x["T"][1])), "the converted transform was changed")
    if x["bad"]:
        types = list(c["types"])
        types[x["bi"] % n] = x["bt"]
        rb = g.mk_robot(dict(c, types=types))
        rejects(tt.robot_to_scene_graph, rb, what="an unsupported joint type was accepted")
        rejects(tt.TesseractRobot, rb, c["name"], what="an unsupported joint type was accepted")
        rec.nontriv("unsupported type %d" % x["bt"])
        return
    rb = g.mk_robot(c)
    if x["names"]:
        sg, ln, jn, cl = tt.robot_to_scene_graph(rb, True)
        require(list(jn) == tg.joint_names(c), "reported joint names", got=jn)
        tip = ln[-1]
        root = ln[0]
    else:
        sg = tt.robot_to_scene_graph(rb)
        root, tip = "base_link", tg.links(c)[-1]
    js, links = read(sg)
    require(len(set(links)) == len(links), "repeated link", got=links)
    if x["names"]:
        require(sorted(ln) == sorted(links), "reported links are not those of the graph", got=ln, graph=links)
        require(len(cl) == n + 1 and cl[0] == root, "reported chain links", got=cl)
    chain = walk(js, tip, root)
    require(len(chain) == len(links) - 1 and sum(len(v) for v in js.values()) == len(chain), "links or joints outside the chain", links=links, joints=list(js))
    check_chain(c, chain, "", False)
    if x["names"]:
        require([l for _, l in chain] == list(ln)[1:], "reported link names are not in chain order", got=ln)
        require([l for _, l in chain][:n] == list(cl)[1:], "reported chain links are not the joints' links", got=cl)
    if n > 1 and (c["flange"] or c["tool"]):
        rec.nontriv("names" if c["names"] else "default names", "tool" if c["tool"] else "no tool", "flange" if c["flange"] else "no flange")


def gen_env(draw):
    k = g.pick(draw, [1, 2, 2, 3])
    cs, taken = [], set()
    for _ in range(k):
        c = tg.robot(draw, 1, 7)
        while taken & tg.full_names(c) or c["name"] in [d["name"] for d in cs]:
            c["name"] += "x"
        taken |= tg.full_names(c)
        cs.append(c)
    return dict(cs=cs, qs=[[g.conf(draw, c["types"]) for c in cs] for _ in range(2)], how=g.ii(draw, 0, 2), names=g.ii(draw, 0, 1),
                set=g.ii(draw, 0, k - 1), order=g.ii(draw, 0, 5))


@sub("C28", "environment", gen_env, 1200, 30000, shards=8, journal=True, rule="two or three robots in one environment, or one robot with two or more joints and a flange, tool or base")
def run_env(x, rec):
    cs = x["cs"]
    env = None
    for i, c in enumerate(cs):
        rb = g.mk_robot(c)
        ln = None
        if i == 0:
            if x["how"] == 0:
                r = tt.robot_to_tesseract_env(rb, c["name"], True, bool(x["names"]))
                env = r[0] if x["names"] else r
            else:
                r = tt.robot_to_tesseract_env_commands(rb, c["name"], return_names=bool(x["names"]))
                env = Environment()
                require(env.init(r[0] if x["names"] else r), "the environment refuses the commands")
            if x["names"]:
                ln, jn = list(r[1]), list(r[2])
                require(ln[0] == "world", "the first reported link is the world", got=ln)
                ln = ln[1:]
        else:
            r = tt.robot_to_tesseract_env_commands(rb, c["name"], include_world=False, return_names=bool(x["names"]))
            require(env.applyCommands(r[0] if x["names"] else r), "the environment refuses another robot")
            if x["names"]:
                ln, jn = list(r[1]), list(r[2])
        if x["names"]:
            L = tg.links(c)[1:]
            require(len(ln) == len(L) and all(l.startswith(c["name"] + "_") for l in ln), "reported link names", got=ln)
            require(jn == [c["name"] + "_" + j for j in tg.joint_names(c)], "reported joint names", got=jn)
            c["_tip"] = ln[-1]
    sg = env.getSceneGraph()
    js, links = read(sg)
    total = 0
    robots = []
    order = list(range(len(cs)))
    for i in range(len(cs)):
        order[i], order[(i + x["order"]) % len(cs)] = order[(i + x["order"]) % len(cs)], order[i]
    for i in order:
        c = cs[i]
        tr = tt.TesseractRobot(robot_name=c["name"], tesseract_env=env)
        require(tr.tip_link_name == c.get("_tip", tr.tip_link_name), "reported tip link", got=tr.tip_link_name, expected=c.get("_tip"))
        require(tr.base_link_name == "world", "base of the kinematic group", got=tr.base_link_name)
        chain = walk(js, tr.tip_link_name, "world")
        check_chain(c, chain, c["name"] + "_", True)
        require(all(l.startswith(c["name"] + "_") for _, l in chain), "a link of another robot is in the chain", got=[l for _, l in chain])
        total += len(chain)
        kg = env.getKinematicGroup(c["name"])
        require(list(kg.getJointNames()) == [c["name"] + "_" + j for j in tg.joint_names(c)], "joints of the kinematic group", got=list(kg.getJointNames()))
        lim = kg.getLimits()
        close(np.array(lim.joint_limits), np.array([c["lower"], c["upper"]]).T, 1e-9, "position limits of the kinematic group")
        close(np.array(lim.velocity_limits).ravel()[:len(c["vel"])], c["vel"], 1e-9, "velocity limits of the kinematic group")
        close(np.array(lim.acceleration_limits).ravel()[:len(c["acc"])], c["acc"], 1e-9, "acceleration limits of the kinematic group")
        robots.append((i, tr))
    require(len(links) == total + 1 and sum(len(v) for v in js.values()) == total, "links or joints outside the robots' chains", links=links)
    # queries of one robot are its own, interleaved with the others
    for qs in x["qs"]:
        for i, tr in robots:
            c, q = cs[i], np.array(qs[i])
            E = tg.link_poses(c, q)[-1]
            sc = scale(c) + float(np.sum(np.abs(q)))
            T = tr.fwdkin(q)
            close(T.R, E[:3, :3], 1e-9, "orientation of a robot sharing the environment", robot=c["name"])
            close(T.p, E[:3, 3], 1e-9 * sc, "position of a robot sharing the environment", robot=c["name"])
            close(tr.jacobian(q), tg.link_jacobian(c, q, len(tg.links(c)) - 1), 1e-9 * sc, "Jacobian of a robot sharing the environment", robot=c["name"])
    if len(cs) > 1:
        rec.nontriv("%d robots" % len(cs))
    elif len(cs[0]["types"]) > 1 and (cs[0]["flange"] or cs[0]["tool"] or cs[0]["base"]):
        rec.nontriv("one robot")
