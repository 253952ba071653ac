"""Chain selection and load routes of URDF robots."""
import os, shutil, sys, tempfile, types
import numpy as np
import general_robotics_toolbox as rox
from general_robotics_toolbox import urdf
from ..core import sub, require, rejects, HarnessError
from .. import gens as g, ref, urdfgen as u
from .c20 import same_robot


def gen(draw):
    k = g.pick(draw, ["plain", "plain", "mixed"])
    if k == "plain":
        t = u.tree(draw, 2, 10, types=("revolute", "revolute", "prismatic", "fixed"), branch=35, off=("fixed", "fixed", "fixed", "revolute", "floating"))
    else:
        t = u.tree(draw, 2, 10, types=("revolute", "revolute", "prismatic", "fixed", "fixed", "continuous", "floating", "planar"), branch=35)
    return dict(t=t, root=g.pick(draw, ["none", "none", "link", "link", "unknown"] if g.chance(draw, 50) else ["none", "link"]),
                tip=g.pick(draw, ["none", "none", "link", "link", "unknown"] if g.chance(draw, 50) else ["none", "none", "link"]),
                ri=g.ii(draw, 0, 100), ti=g.ii(draw, 0, 100), un=g.ii(draw, 0, 7), kw=g.chance(draw, 50), fr=[[g.real(draw, 0, 1.0) for _ in range(5)]])


def unknown(t, k, i):
    """A name that no link of the tree has."""
    n = t["names"][i % len(t["names"])]
    s = ["no_such_link", "", n + " ", n[:-1], n.swapcase(), "/" + n, n + "0", "None"][k]
    return s if s not in t["names"] else "no_such_link_" + s


@sub("C21", "select", gen, 3200, 100000, shards=8, rule="a document with a branch, or a request that must be refused")
def run(x, rec):
    t = x["t"]
    n = len(t["names"])
    ri = x["ri"] % n if x["root"] == "link" else 0
    ti = x["ti"] % n if x["tip"] == "link" else None
    ra = None if x["root"] == "none" else unknown(t, x["un"], x["ri"]) if x["root"] == "unknown" else t["names"][ri]
    ta = None if x["tip"] == "none" else unknown(t, x["un"], x["ti"]) if x["tip"] == "unknown" else t["names"][ti]
    f = (lambda xml: urdf.robot_from_xml_string(xml, root_link=ra, tip_link=ta)) if x["kw"] else (lambda xml: urdf.robot_from_xml_string(xml, ra, ta))
    xml = u.to_xml(t)
    why = None
    if x["root"] == "unknown":
        why = "unknown root link"
    elif x["tip"] == "unknown":
        why = "unknown tip link"
    else:
        if ti is None:
            c = u.candidates(t, ri)
            if len(c) != 1:
                why = "%s candidate chains" % ("no" if not c else "several")
            else:
                ti = c[0]
        if why is None:
            ch = u.chain_of(t, ri, ti)
            if ch is None:
                why = "tip not below root"
            elif not ch:
                why = "tip is the root"
            elif not u.supported(t, ch):
                why = "unsupported moving joint in the chain"
            elif not u.moving(t, ch):
                rec.cls("all fixed: not judged")
                return
    if why:
        rejects(f, xml, what="a robot was loaded although: " + why)
        rec.nontriv("refused: " + why)
        return
    r = f(xml)
    same_robot(r, t, ri, ti, x["fr"])
    if len(u.leaves(t)) > 1:
        rec.nontriv("loaded, root %s, tip %s" % (x["root"], x["tip"]))


# ------------------------------------------------------------- routes

XACRO_HEAD = '<robot xmlns:xacro="http://www.ros.org/wiki/xacro" name="r">'


def gen_routes(draw):
    t = u.tree(draw, 2, 7, branch=20, off=("fixed", "revolute"))
    n = len(t["names"])
    t2 = u.tree(draw, 2, 7, branch=20, off=("fixed", "revolute")) if g.chance(draw, 60) else None
    return dict(t=t, t2=t2, ti=g.ii(draw, 0, 100), ri=g.ii(draw, 0, 100), root=g.chance(draw, 50), tip=g.chance(draw, 75), bad=g.chance(draw, 15), kw=g.chance(draw, 50),
                sub=g.pick(draw, ["", "urdf/", "a b/c/"]), pkg=g.pick(draw, ["my_pkg", "robot_desc"]), key=g.pick(draw, ["robot_description", "/arm/desc", None]),
                prop=g.real(draw, 0.1, 2.0), fr=[[g.real(draw, 0, 1.0) for _ in range(5)]])


def fields(r):
    out = {}
    for a in ("H", "P", "joint_type", "joint_lower_limit", "joint_upper_limit", "joint_vel_limit", "joint_effort_limit", "R_tool", "p_tool", "joint_names",
              "root_link_name", "tip_link_name"):
        v = getattr(r, a, None)
        out[a] = None if v is None else v if isinstance(v, str) else list(v) if a == "joint_names" else np.asarray(v, float)
    return out


def same_fields(a, b, what):
    for k in a:
        x, y = a[k], b[k]
        ok = (x is None) == (y is None) and (x is None or (x == y if isinstance(x, (str, list)) else x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=1e-12)))
        require(ok, "loading %s gives another robot (%s)" % (what, k), got=y, expected=x)


@sub("C21", "routes", gen_routes, 480, 12000, shards=8, rule="all five routes loaded (or all five refused) the same request")
def run_routes(x, rec):
    d = tempfile.mkdtemp(prefix="pbt_urdf_")
    old = {k: os.environ.get(k) for k in ("ROS_PACKAGE_PATH", "ROS_ROOT", "ROS_HOME")}
    oldros = sys.modules.get("rospy")
    oldcwd = os.getcwd()
    asked, now = [], [None]
    try:
        # files
        f1 = os.path.join(d, "file.urdf")
        pk = os.path.join(d, "ws", x["pkg"])
        other = os.path.join(d, "ws", "other")
        for p in (pk, other):
            os.makedirs(os.path.join(p, x["sub"]))
            with open(os.path.join(p, "package.xml"), "w") as f:
                f.write('<package format="2"><name>%s</name><version>0.0.1</version><description>d</description><maintainer email="a@b.c">a</maintainer><license>BSD</license></package>' % os.path.basename(p))
        with open(os.path.join(other, x["sub"], "robot.urdf"), "w", encoding="utf-8") as f:
            f.write('<robot name="wrong"><link name="only"/></robot>')
        # same relative names in the working directory, and a plain file to be named relatively
        here = os.path.join(d, "here")
        os.makedirs(os.path.join(here, x["sub"]))
        for nm in ("robot.urdf", "robot.xacro"):
            with open(os.path.join(here, x["sub"], nm), "w", encoding="utf-8") as f:
                f.write('<robot name="wrong"><link name="only"/></robot>')
        os.chdir(here)
        os.environ["ROS_PACKAGE_PATH"] = os.path.join(d, "ws")
        os.environ["ROS_HOME"] = d
        os.environ.pop("ROS_ROOT", None)
        m = types.ModuleType("rospy")

        def get_param(key, *a):
            asked.append(key)
            return now[0]
        m.get_param = get_param
        sys.modules["rospy"] = m

        held = []
        for t in [x["t"]] + ([x["t2"]] if x["t2"] else []):
            n = len(t["names"])
            xml = now[0] = u.to_xml(t)
            ri = x["ri"] % n if x["root"] else 0
            ra = t["names"][ri] if x["root"] else None
            ta = t["names"][x["ti"] % n] if x["tip"] else None
            if x["bad"]:
                ta = "no_such_link"
            for p in (f1, os.path.join(pk, x["sub"], "robot.urdf"), os.path.join(pk, x["sub"], "robot.xacro"), os.path.join(here, x["sub"], "mine.urdf")):
                with open(p, "w", encoding="utf-8") as f:
                    f.write(xml)
            del asked[:]

            def args(f, *lead):
                if x["kw"]:
                    return lambda: f(*lead, root_link=ra, tip_link=ta)
                return lambda: f(*lead, ra, ta)
            key = x["key"]
            routes = [("from a string", args(urdf.robot_from_xml_string, xml)),
                      ("from a file", (lambda: urdf.robot_from_xml_file(f1, root_link=ra, tip_link=ta)) if x["kw"] else (lambda: urdf.robot_from_xml_file(f1, None, ra, ta))),
                      ("from a file named relatively", (lambda: urdf.robot_from_xml_file(x["sub"] + "mine.urdf", root_link=ra, tip_link=ta))),
                      ("from a package", args(urdf.robot_from_xml_file, x["sub"] + "robot.urdf", x["pkg"])),
                      ("from a xacro file", (lambda: urdf.robot_from_xacro_file(os.path.join(pk, x["sub"], "robot.xacro"), root_link=ra, tip_link=ta))),
                      ("from a package's xacro file", args(urdf.robot_from_xacro_file, x["sub"] + "robot.xacro", x["pkg"])),
                      ("from the parameter server", args(urdf.robot_from_parameter_server, key) if key is not None else
                       (lambda: urdf.robot_from_parameter_server(root_link=ra, tip_link=ta)))]
            res, robots = [], []
            for name, f in routes:
                try:
                    r = f()
                    robots.append(r)
                    res.append((name, fields(r)))
                except Exception as e:
                    res.append((name, e))
            require(all(k == (key or "robot_description") for k in asked) and asked, "wrong parameter requested", got=asked)
            bad = [isinstance(r, Exception) for _, r in res]
            require(all(bad) or not any(bad), "the routes disagree on whether the request can be loaded", outcome=[(a, repr(b) if isinstance(b, Exception) else "loaded") for a, b in res])
            if any(bad):
                rec.nontriv("all refused")
                continue
            for name, r in res[1:]:
                same_fields(res[0][1], r, name)
            rec.nontriv("all loaded" if t is x["t"] else "all loaded again after the files changed")
            for r, old_fields in held:
                same_fields(old_fields, fields(r), "another robot, after which this one changed,")
            held += zip(robots, [r for _, r in res])
    finally:
        os.chdir(oldcwd)
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        if oldros is None:
            sys.modules.pop("rospy", None)
        else:
            sys.modules["rospy"] = oldros
        shutil.rmtree(d, ignore_errors=True)


def gen_xacro(draw):
    n = g.ii(draw, 1, 6)
    return dict(js=[dict(t=g.pick(draw, ["revolute", "prismatic", "fixed"]), axis=g.pick(draw, ["1 0 0", "0 1 0", "0 0 1", "0 0 -1"]), len=g.real(draw, 0.0, 1.0),
                         rpy=[g.ii(draw, -2, 2) for _ in range(3)]) for _ in range(n)], scale=g.real(draw, 0.5, 2.0), fr=[g.real(draw, -1, 1.0) for _ in range(n)])


@sub("C21", "xacro", gen_xacro, 240, 6000, rule="xacro macros expand to at least one moving joint")
def run_xacro(x, rec):
    s = '<?xml version="1.0"?>\n' + XACRO_HEAD + '<xacro:property name="k" value="%s"/>' % repr(x["scale"])
    s += ('<xacro:macro name="seg" params="a b type axis dist r p y"><link name="l${b}"/><joint name="j${b}" type="${type}"><parent link="l${a}"/><child link="l${b}"/>'
          '<origin xyz="0 ${dist*k} ${2*dist}" rpy="${r*pi/2} ${p*pi/2} ${y*pi/2}"/><axis xyz="${axis}"/><limit lower="-2" upper="${1+1}" velocity="1" effort="3"/></joint></xacro:macro><link name="l0"/>')
    t = dict(names=["l0"], parents=[None], joints=[None])
    for i, j in enumerate(x["js"]):
        s += '<xacro:seg a="%d" b="%d" type="%s" axis="%s" dist="%s" r="%d" p="%d" y="%d"/>' % (i, i + 1, j["t"], j["axis"], repr(j["len"]), *j["rpy"])
        t["names"].append("l%d" % (i + 1))
        t["parents"].append(i)
        t["joints"].append(dict(name="j%d" % (i + 1), type=j["t"], axis=[float(v) for v in j["axis"].split()], limit=dict(lower=-2.0, upper=2.0, velocity=1.0, effort=3.0),
                                origin=dict(kind="both", xyz=[0, j["len"] * x["scale"], 2 * j["len"]], rpy=[v * u.PI / 2 for v in j["rpy"]])))
    s += "</robot>"
    d = tempfile.mkdtemp(prefix="pbt_xacro_")
    try:
        f = os.path.join(d, "r.urdf.xacro")
        with open(f, "w") as fh:
            fh.write(s)
        n = len(t["names"])
        if all(j["t"] == "fixed" for j in x["js"]):
            rejects(urdf.robot_from_xacro_file, f, what="a robot without moving joints was loaded")
            return
        r = urdf.robot_from_xacro_file(f)
        same_robot(r, t, 0, n - 1, [[(v + 1) / 2 for v in x["fr"]]])
        rec.nontriv("joints %d" % len(r.joint_type))
    finally:
        shutil.rmtree(d, ignore_errors=True)
