"""Tesseract forward kinematics and Jacobian."""
import numpy as np
import general_robotics_toolbox as rox
from general_robotics_toolbox import tesseract as tt
from ..core import sub, require
from .. import gens as g, ref, tessgen as tg


def gen(draw):
    c = tg.robot(draw, 1, 8)
    n = len(c["types"])
    qs = [g.conf(draw, c["types"]) for _ in range(g.ii(draw, 1, 3))]
    if g.chance(draw, 40):
        qs.append([lo + (hi - lo) * g.real(draw, 0, 1.0) for lo, hi in zip(c["lower"], c["upper"])])
    return dict(c=c, qs=qs, how=g.pick(draw, ["robot", "robot", "env", "commands", "parts", "parts2"]), l=[g.ii(draw, 0, 20) for _ in range(4)], dflt=g.ii(draw, 0, 3), form=g.pick(draw, tg.FORMS[:-1]))


def make(c, how, solver=None):
    rb = g.mk_robot(c)
    name = c["name"]
    if how == "robot":
        if solver is None:
            return rb, (tt.TesseractRobot(rb, name) if name != "robot" else tt.TesseractRobot(rb))
        return rb, tt.TesseractRobot(rb, name, invkin_solver=solver)
    if how == "env":
        e = tt.robot_to_tesseract_env(rb, name, invkin_solver=solver)
    elif how == "plugin":
        # the solver is given as ready plugin information, which overrides the named solver
        tip = name + "_" + tg.links(c)[-1]
        if solver == "OPWInvKin":
            info = tt.kinematics_plugin_invkin_opw_plugin_info_dict(name, name + "_base_link", name + "_flange", tt.robot_to_opw_inv_kin_parameters(rb))
        elif solver == "URInvKin":
            info = tt.kinematics_plugin_invkin_ur_plugin_info_dict(name, "world", name + "_flange", tt.robot_to_ur_inv_kin_parameters(rb))
        else:
            info = tt.kinematics_plugin_invkin_kdl_plugin_info_dict(name, "world", tip, *([solver] if solver else []))
        e = tt.robot_to_tesseract_env(rb, name, invkin_plugin_info=info)
    elif how in ("parts", "parts2"):
        # environment put together from the documented pieces
        from tesseract_robotics.tesseract_environment import Environment, Commands, AddSceneGraphCommand, AddKinematicsInformationCommand
        sg, ln, jn, cl = tt.robot_to_scene_graph(rb, True)
        pre = lambda names: [name + "_" + s for s in names]
        links = ["world"] + pre(ln)
        kw = {} if how == "parts" else dict(base_link="world", tip_link=links[-1])
        ki = tt.tesseract_kinematics_information(rb, name, links, pre(jn), pre(cl), solver, **kw)
        cmds = Commands()
        cmds.append(AddSceneGraphCommand(tt.world_scene_graph()))
        cmds.append(AddSceneGraphCommand(sg, tt.get_robot_world_to_base_joint(rb, name), name + "_"))
        cmds.append(AddKinematicsInformationCommand(ki))
        e = Environment()
        require(e.init(cmds), "the environment refuses the robot put together from its parts")
    else:
        from tesseract_robotics.tesseract_environment import Environment
        e = Environment()
        cmds = tt.robot_to_tesseract_env_commands(rb, name, invkin_solver=solver)
        require(e.init(cmds), "the environment refuses the commands")
    return rb, tt.TesseractRobot(robot_name=name, tesseract_env=e)


def near(T, E, sc, what, tol=1e-9, **kw):
    require(np.shape(T.R) == (3, 3) and np.shape(T.p) == (3,) and np.max(np.abs(T.R - E[:3, :3])) < tol and np.max(np.abs(T.p - E[:3, 3])) < tol * sc,
            what, got=T, expected=E, **kw)


def scale(c):
    s = sum(float(np.linalg.norm(p)) for p in c["P"])
    for k in ("flange", "tool", "base"):
        if c[k]:
            s += float(np.linalg.norm(c[k][2]))
    return 10.0 + s


@sub("C26", "kinematics", gen, 1600, 60000, shards=8, journal=True, rule="two or more joints, at least one revolute, and a base, flange or tool")
def run(x, rec):
    c = x["c"]
    rb, tr = make(c, x["how"])
    L = tg.links(c)
    n = len(c["types"])
    full = [tg.full(c, l) for l in L]
    for q in x["qs"]:
        qa, q = tg.joints(q, x["form"])
        Ts = tg.link_poses(c, q)
        sc = scale(c) + float(np.sum(np.abs(q)))
        T = tr.fwdkin(qa)
        near(T, Ts[-1], sc, "tool pose is not the robot's")
        Jb = None
        inside = all(lo < v < hi for lo, v, hi in zip(c["lower"], q, c["upper"]))
        if inside:      # the toolbox refuses joint vectors outside the limits
            tb = rox.fwdkin(rb, qa)
            near(T, ref.hom(tb.R, tb.p), sc, "tool pose differs from the toolbox's own")
            Jb = rox.robotjacobian(rb, qa)
        J = tr.jacobian(qa)
        E = tg.link_jacobian(c, q, len(L) - 1)
        require(np.shape(J) == (6, n) and np.max(np.abs(J - E)) < 1e-9 * sc, "Jacobian is not the robot's", got=J, expected=E)
        require(not inside or np.max(np.abs(J - Jb)) < 1e-9 * sc, "Jacobian differs from the toolbox's own", got=J, expected=Jb)
        # other links
        for a, b in ((x["l"][0], x["l"][1]), (x["l"][2], x["l"][3])):
            a, b = a % len(L), b % len(L)
            kw, jw = {}, {}
            if x["dflt"] & 1:
                a = 0
            else:
                kw["base_link_name"] = full[a]
            if x["dflt"] & 2:
                b = len(L) - 1
            else:
                kw["tip_link_name"] = jw["link_name"] = full[b]
            if "base_link_name" in kw:
                jw["base_link_name"] = full[a]
            near(tr.fwdkin(qa, **kw), ref.hinv(Ts[a]) @ Ts[b], sc, "relative pose of two links", 1e-9, frames=(full[a], full[b]))
            E = tg.rel_jacobian(c, q, a, b)
            J = tr.jacobian(qa, **jw)
            require(np.shape(J) == (6, n) and np.max(np.abs(J - E)) < 1e-9 * sc, "Jacobian of a named link", got=J, expected=E, frames=(full[a], full[b]))
            rec.cls("base moving" if a > 1 else "base static", "tip " + L[b].rstrip("0123456789"))
        require(np.array_equal(qa, np.array(q)), "the joint vector was changed")
    rec.cls("joints as " + x["form"])
    if n > 1 and 0 in c["types"] and (c["tool"] or c["flange"] or c["base"]):
        rec.nontriv("from " + x["how"])


def variant(draw, c):
    """The same robot after an edit that keeps its names."""
    d = dict(c, P=[list(p) for p in c["P"]], H=[list(h) for h in c["H"]])
    k = g.pick(draw, ["P", "last", "tool", "base", "axis", "same"])
    i = g.ii(draw, 0, len(c["H"]) - 1)
    if k == "P":
        d["P"][i] = g.vec(draw, 1.0, 0)
    elif k == "last":
        d["P"][-1] = g.vec(draw, 1.0, 0)
    elif k == "tool" and c["tool"]:
        d["tool"] = g.pose(draw, 0.5)
    elif k == "base" and c["base"]:
        d["base"] = g.pose(draw, 2.0)
    elif k == "axis":
        d["H"][i] = [-v for v in c["H"][i]]
    return d


def gen_session(draw):
    cs = [tg.robot(draw, 1, 6)]
    for _ in range(g.ii(draw, 1, 2)):
        if g.chance(draw, 70):
            c = variant(draw, cs[g.ii(draw, 0, len(cs) - 1)])
        else:
            c = tg.robot(draw, 1, 6)
            if g.chance(draw, 60):
                c["name"] = cs[0]["name"]
        cs.append(c)
    steps = [dict(r=g.ii(draw, 0, 5), op=g.pick(draw, ["fk", "fk", "jac", "link", "ljac"]), q=g.ii(draw, 0, 2), buf=g.chance(draw, 50), a=g.ii(draw, 0, 20), b=g.ii(draw, 0, 20))
             for _ in range(g.ii(draw, 4, 12))]
    return dict(cs=cs, qs=[[g.sreal(draw, 3.0) for _ in range(16)] for _ in range(3)], how=[g.pick(draw, ["robot", "env", "commands"]) for _ in cs], late=g.chance(draw, 40), steps=steps)


@sub("C26", "session", gen_session, 640, 20000, shards=8, journal=True, rule="robots of one name answered in turn, at the same joints")
def run_session(x, rec):
    cs = x["cs"]
    trs = [None] * len(cs)
    if not x["late"]:
        trs = [make(c, h)[1] for c, h in zip(cs, x["how"])]
    buf = {}
    held, asked, seen = [], [], set()
    for st in x["steps"]:
        i = st["r"] % len(cs)
        c = cs[i]
        n = len(c["types"])
        if trs[i] is None:
            trs[i] = make(c, x["how"][i])[1]
        tr = trs[i]
        q = x["qs"][st["q"]][:n] + [0.1] * max(0, n - 16)
        qa = np.array(q)
        if st["buf"]:          # one joint array that the caller reuses
            qa = buf.setdefault(n, np.zeros(n))
            qa[:] = q
        L = tg.links(c)
        Ts = tg.link_poses(c, q)
        sc = scale(c) + float(np.sum(np.abs(q)))
        a, b = st["a"] % len(L), st["b"] % len(L)
        if st["op"] == "fk":
            got, E = tr.fwdkin(qa), Ts[-1]
        elif st["op"] == "link":
            got, E = tr.fwdkin(qa, tg.full(c, L[a]), tg.full(c, L[b])), ref.hinv(Ts[a]) @ Ts[b]
        elif st["op"] == "jac":
            got, E = tr.jacobian(qa), tg.link_jacobian(c, q, len(L) - 1)
        else:
            got, E = tr.jacobian(qa, tg.full(c, L[a]), tg.full(c, L[b])), tg.rel_jacobian(c, q, a, b)
        held.append((got, E, sc))
        for res, e, s in held:
            if isinstance(res, rox.Transform):
                near(res, e, s, "a pose asked from one of several robots is not its own, or changed later", step=len(held))
            else:
                require(np.shape(res) == e.shape and np.max(np.abs(np.asarray(res) - e)) < 1e-9 * s,
                        "a Jacobian asked from one of several robots is not its own, or changed later", got=res, expected=e, step=len(held))
        require(np.array_equal(qa, np.array(q)), "the joint vector was changed")
        if (c["name"], st["q"]) in seen and (i, st["q"]) not in asked:
            rec.nontriv(st["op"], "robots %d" % len(cs), "made as asked" if x["late"] else "made before")
        seen.add((c["name"], st["q"]))
        asked.append((i, st["q"]))
