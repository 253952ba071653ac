"""Purity: histories of calls on shared objects."""
import copy
import math
import numpy as np
import yaml
from .. import rosstub as ros
ros.install()
import general_robotics_toolbox as rox
from general_robotics_toolbox import robotraconteur as rr, ros_msg as rm, tesseract as tt, urdf
from ..core import sub, require
from .. import gens as g, ref, rrgen as r, tessgen as tg, urdfgen as u
from . import c14, c20, c26
from .c22 import source

PI = math.pi
ATTRS = ["H", "P", "joint_type", "joint_lower_limit", "joint_upper_limit", "joint_vel_limit", "joint_acc_limit", "M",
         "R_tool", "p_tool", "joint_names", "root_link_name", "tip_link_name", "T_flange", "T_base"]


def snap(o):
    """Value snapshot of an argument or result."""
    if isinstance(o, rox.Robot):
        return ("robot",) + tuple(snap(getattr(o, a)) for a in ATTRS)
    if isinstance(o, rox.Transform):
        return ("T", snap(o.R), snap(o.p), o.parent_frame_id, o.child_frame_id)
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("obj", o.shape, tuple(snap(v) for v in o.ravel()))
        return ("a", o.shape, str(o.dtype), (o + 0).tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snap(v) for v in o)
    if isinstance(o, (np.bool_, bool)):
        return ("b", bool(o))
    if isinstance(o, (float, np.floating, int, np.integer)):
        return ("f", float(o).hex())
    if o is None or isinstance(o, str):
        return o
    return ("other", repr(o))


def same(s, t):
    """Snapshots equal, up to last-digit rounding of floating-point kernels."""
    if s == t:
        return True
    if type(s) is not type(t) or not isinstance(s, tuple) or len(s) != len(t):
        return False
    if s and s[0] == "f" and t[0] == "f":
        return abs(float.fromhex(s[1]) - float.fromhex(t[1])) < 1e-9
    if s and s[0] == "a" and t[0] == "a" and s[1:3] == t[1:3] and s[2].startswith("float"):
        return bool(np.allclose(np.frombuffer(s[3], s[2]), np.frombuffer(t[3], t[2]), rtol=1e-10, atol=1e-10, equal_nan=True))
    return all(same(a, b) for a, b in zip(s, t))


def jform(draw):
    return g.pick(draw, ["array", "array", "list", "tuple"])


def robot_case(draw):
    k = g.pick(draw, ["opw", "opw", "ur", "generic", "mobile"])
    if k in ("opw", "ur"):
        c, q = g.arm(draw, k, limits=("none", "wide", "pi", "narrow"))
        q2 = [g.sreal(draw, PI) for _ in range(6)]
    elif k == "mobile":
        c = g.chain(draw, 1, 4)
        c["types"] = [3, 3, 2] + c["types"]
        c["H"] = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]] + c["H"]
        c["P"] = [g.vec(draw) for _ in range(3)] + c["P"]
        q, q2 = g.conf(draw, c["types"]), g.conf(draw, c["types"])
    else:
        c = g.chain(draw, 1, 7)
        q, q2 = g.conf(draw, c["types"]), g.conf(draw, c["types"])
        if g.chance(draw, 70):
            c["lower"], c["upper"] = g.limits_around(draw, c["types"], q)
    if c["lower"] is not None:
        q2 = [l + (u - l) * 0.37 for l, u in zip(c["lower"], c["upper"])]
    return dict(kind=k, c=c, q=[q, q2], qf=[jform(draw), jform(draw)], lists=g.chance(draw, 40))


OPS = ["fk", "jac", "ik", "ik", "equiv", "equiv", "iter", "mul", "inv", "apply", "unapply", "isclose", "eq", "conv", "conv", "sub", "quat", "slerp", "one", "one"]


def gen(draw):
    rs = [robot_case(draw) for _ in range(g.ii(draw, 1, 3))]
    n = g.ii(draw, 2, 14)
    ops = [[g.pick(draw, OPS), g.ii(draw, 0, 20), g.ii(draw, 0, 20), g.ii(draw, 0, 20), g.ii(draw, 0, 20)] for _ in range(n)]
    return dict(robots=rs, poses=[g.pose(draw) for _ in range(2)], quats=[g.quat(draw) for _ in range(2)],
                qscale=[g.pick(draw, [1.0, 1.0, 2.0, 0.3, -1.5, 1.0 + 1e-4]) for _ in range(2)], qform=[g.pick(draw, ["array", "array", "list", "tuple"]) for _ in range(2)],
                vecs=[g.vec(draw, 1.0, 5) for _ in range(3)], axes=[g.axis(draw) for _ in range(2)], angles=[g.angle(draw), g.real(draw, 0, 1.0)], ops=ops)


def pool(x):
    """All shared objects of a history."""
    p = dict(robots=[], q=[], T=[], quats=[], vecs=[], axes=[], R=[], lists=[])
    for rc in x["robots"]:
        r = g.mk_robot(rc["c"])
        if rc["lists"] and rc["c"]["lower"] is not None:
            r = g.mk_robot(rc["c"], joint_lower_limit=list(rc["c"]["lower"]), joint_upper_limit=list(rc["c"]["upper"]))
        p["robots"].append(r)
        qs = []
        for v, f in zip(rc["q"], rc["qf"]):
            qs.append({"array": np.array, "list": list, "tuple": tuple}[f](v))
        p["q"].append(qs)
        p["lists"].append([np.array(v) for v in rc["q"]])
        M = g.ref_fk(rc["c"], rc["q"][0])
        p["T"].append(rox.Transform(M[:3, :3].copy(), M[:3, 3].copy(), "world", "tip"))
    for c in x["poses"]:
        p["T"].append(g.mk_T(c))
    p["quats"] = [np.array(q) for q in x["quats"]]
    p["squats"] = [{"array": np.array, "list": list, "tuple": tuple}[f]([s * v for v in q]) for q, s, f in zip(x["quats"], x["qscale"], x["qform"])]
    p["vecs"] = [np.array(v) for v in x["vecs"]]
    p["axes"] = [np.array(v) for v in x["axes"]]
    p["R"] = [ref.qmat(q) for q in x["quats"]]
    return p


def call(x, p, op):
    """(name, result) of one operation on pool p."""
    k, a, b, c, d = op
    i = a % len(p["robots"])
    r, rc = p["robots"][i], x["robots"][i]
    q = p["q"][i][b % 2]
    T = p["T"][i] if c % 3 else p["T"][len(p["robots"]) + c % 2]
    U = p["T"][d % len(p["T"])]
    v = p["vecs"]
    ax = p["axes"]
    qa, qb = p["quats"][b % 2], p["quats"][c % 2]
    th = x["angles"][0]
    if k == "fk":
        return rox.fwdkin(r, q)
    if k == "jac":
        return rox.robotjacobian(r, q)
    if k == "ik":
        if rc["kind"] not in ("opw", "ur"):
            return rox.fwdkin(r, q)
        f = c14.solver(rc["c"])
        return f(r, T, p["q"][i][d % 2]) if d % 3 else f(r, T)
    if k == "equiv":
        if r.joint_lower_limit is None or rc["kind"] == "mobile" or any(u - l > 30 for l, u in zip(r.joint_lower_limit, r.joint_upper_limit)):
            return rox.robotjacobian(r, q)
        n = 1
        for l, u in zip(r.joint_lower_limit, r.joint_upper_limit):
            n *= int((u - l) / (2 * PI)) + 1
        if n > 60:
            return rox.robotjacobian(r, q)
        return rox.equivalent_configurations(r, p["lists"][i], p["q"][i][d % 2] if d % 2 else None)
    if k == "iter":
        if rc["kind"] == "mobile":
            return rox.fwdkin(r, q)
        return rox.iterative_invkin(r, T, q, max_steps=d % 7)
    if k == "mul":
        return T * U
    if k == "inv":
        return U.inv()
    if k == "apply":
        return rox.apply_robot_aux_transforms(r, U)
    if k == "unapply":
        return rox.unapply_robot_aux_transforms(r, U)
    if k == "isclose":
        return T.isclose(U)
    if k == "eq":
        return [T == U, T != U, str(T), repr(U)]
    if k == "quat":
        return [rox.quatproduct(qa).dot(qb), rox.quatcomplement(qa), rox.quatjacobian(qa), rox.q2R(qb), rox.q2rot(qa)]
    if k == "slerp":
        return rox.slerp(p["squats"][b % 2], p["squats"][c % 2], x["angles"][1])
    if k == "conv":
        R = p["R"][b % 2]
        out = [rox.rot(ax[a % 2], th), rox.R2rot(R), rox.R2q(R), rox.rot2q(ax[c % 2], th), rox.hat(v[0]), rox.invhat(rox.hat(v[1])), rox.screw_matrix(v[d % 3]), rox.rpy2R(v[0]), rox.identity_transform()]
        if abs(R[2, 0]) < 0.999:
            out.append(rox.R2rpy(R))
        return out
    if k == "one":          # a single conversion, nothing else called after it
        R = p["R"][b % 2]
        one = [lambda: rox.rot(ax[d % 2], th), lambda: rox.R2q(R), lambda: rox.q2R(qa), lambda: rox.hat(v[d % 3]), lambda: rox.screw_matrix(v[d % 3]), lambda: rox.rot2q(ax[d % 2], th),
               lambda: rox.R2rot(R), lambda: rox.q2rot(qa), lambda: rox.quatproduct(qa), lambda: rox.quatjacobian(qa), lambda: rox.quatcomplement(qa), lambda: rox.rpy2R(v[d % 3]),
               lambda: rox.identity_transform(), lambda: rox.invhat(R - R.T)]
        return one[a % len(one)]()
    k1, k2 = ax[a % 2], np.array([0.0, 0.6, 0.8])
    w = v[b % 3]
    out = [rox.subproblem3(w, v[c % 3], k1, 0.7), rox.subproblem4(w, v[c % 3], k1, 0.1)]
    if np.linalg.norm(w) > 1e-3:
        out.append(rox.subproblem1(w, ref.rotm(k1, th) @ w, k1))
        if abs(float(k1 @ k2)) < 0.99:
            out.append(rox.subproblem2(w, ref.rotm(k2, th) @ w, k1, k2))
    return out


def spoil(o):
    """A caller scribbling over arrays it got back."""
    if isinstance(o, rox.Transform):
        spoil([o.R, o.p])
    elif isinstance(o, np.ndarray):
        if o.flags.writeable:
            o[...] = 77
    elif isinstance(o, (list, tuple)):
        for z in o:
            spoil(z)


@sub("C19", "history", gen, 1600, 60000, shards=8, rule="the history has at least two different operations, one of them inverse kinematics, equivalent configurations, Jacobian or iteration")
def run(x, rec):
    p = pool(x)
    before = {k: [snap(o) for o in p[k]] for k in p}
    seen = {}
    held = []
    for n, op in enumerate(x["ops"]):
        res = call(x, p, op)
        s = snap(res)
        for k in p:
            for j, o in enumerate(p[k]):
                require(snap(o) == before[k][j], "operation %d (%s) changed a shared %s object" % (n, op[0], k), op=op, index=j, now=o)
        key = tuple(op)
        if key in seen:
            require(same(seen[key], s), "operation %s gives another result when repeated in the history" % op[0], op=op)
        seen[key] = s
        held.append((n, op, res, s))
        own = op[0] in ("fk", "apply", "unapply") and all(x["robots"][op[1] % len(x["robots"])]["c"][k] is None for k in ("tool", "flange", "base"))
        if op[0] == "fk" or not own:      # (a robot without frames passes a pose through as it is)
            # the same call again; its result is scribbled over, the first one has to stay
            res2 = call(x, p, op)
            require(same(snap(res2), s), "operation %d (%s) gives another result when called again at once" % (n, op[0]), op=op)
            spoil(res2)
            for m, o, z, t in held:
                require(snap(z) == t, "scribbling over the result of operation %d (%s) changed the result of operation %d (%s)" % (n, op[0], m, o[0]), op=op)
            for k in p:
                for j, o in enumerate(p[k]):
                    require(snap(o) == before[k][j], "the result of operation %d (%s) shares memory with a %s argument" % (n, op[0], k), op=op, index=j)
    # every operation again on the same objects, in reverse order, then once on fresh objects
    for op in reversed(x["ops"]):
        require(same(snap(call(x, p, op)), seen[tuple(op)]), "operation %s gives another result after other calls" % op[0], op=op)
    for op in x["ops"]:
        require(same(snap(call(x, pool(x), op)), seen[tuple(op)]), "operation %s gives another result on fresh objects" % op[0], op=op)
    for k in p:
        require([snap(o) for o in p[k]] == before[k], "a shared %s object changed" % k)
    for n, op, res, s in held:
        require(snap(res) == s, "the result of operation %d (%s) changed after it was returned" % (n, op[0]), op=op)
    kinds = set(o[0] for o in x["ops"])
    if len(kinds) > 1 and kinds & {"ik", "equiv", "jac", "iter"}:
        rec.nontriv(*sorted(kinds))


# ------------------------------------------------ the layers on top of the toolbox

LOPS = ["fk", "jac", "ik", "tfk", "tfk", "tlink", "tjac", "tljac", "tik", "tik", "tred", "tnew", "params", "info", "commands", "graph", "iso", "load", "load", "loadtool", "urdf", "ros", "ros", "msg", "ident"]
SOLVER = dict(opw="OPWInvKin", ur="URInvKin")


def gen_layers(draw):
    fam = g.pick(draw, ["opw", "opw", "ur", "any"])
    c = tg.robot(draw, 1, 6) if fam == "any" else dict(opw=tg.opw, ur=tg.ur)[fam](draw, True)
    if fam == "opw":
        c["base"] = g.opt(draw, lambda d: g.pose(d, 1.0), 40)
    if fam != "any":
        c["tool"] = g.opt(draw, lambda d: g.pose(d, 0.4), 50)
        c["family"] = fam
    n = len(c["types"])
    q = [g.sreal(draw, 3.0) for _ in range(n)] if fam != "any" else None
    tg.finish(draw, c, q)
    if q is None:
        q = [lo + (hi - lo) * g.real(draw, 0.1, 0.8) for lo, hi in zip(c["lower"], c["upper"])]
    q2 = [lo + (hi - lo) * g.real(draw, 0.1, 0.8) for lo, hi in zip(c["lower"], c["upper"])]
    # (the toolbox refuses joints outside the limits; Tesseract takes them)
    q3 = [v + g.pick(draw, [0, 2 * np.pi, -2 * np.pi, 4.0, -4.0]) if t == 0 else v + g.pick(draw, [0.0, 3.0, -3.0]) for v, t in zip(q2, c["types"])]
    t = u.tree(draw, 2, 5, off=("revolute", "prismatic", "fixed", "continuous"))
    ops = [[g.pick(draw, LOPS), g.ii(draw, 0, 20), g.ii(draw, 0, 20)] for _ in range(g.ii(draw, 2, 10))]
    return dict(fam=fam, c=c, q=[q, q2, q3], how=g.pick(draw, ["robot", "robot", "env", "commands"]), doc=r.doc(draw), src=g.pick(draw, ["mapping", "mapping", "block"]), tool=r.tool(draw), t=t,
                poses=[g.pose(draw), g.pose(draw)], frames=[g.pick(draw, [None, "world", "b"]) for _ in range(4)], nums=[[g.sreal(draw, 3.0) for _ in range(6)] for _ in range(2)], ops=ops)


def layer_pool(x):
    c = x["c"]
    rb, tr = c26.make(c, x["how"], SOLVER.get(x["fam"]))
    p = dict(robot=[rb], joints=[np.array(v) for v in x["q"]], pose=[], document=[copy.deepcopy(x["doc"])], tool=[copy.deepcopy(x["tool"])], numbers=[np.array(v) for v in x["nums"]])
    for k, P in enumerate(x["poses"]):
        p["pose"].append(g.mk_T(P))
        p["pose"][-1].parent_frame_id, p["pose"][-1].child_frame_id = x["frames"][2 * k:2 * k + 2]
    for v in x["q"][:2]:
        M = tg.link_poses(c, v)[-1]
        p["pose"].append(rox.Transform(M[:3, :3].copy(), M[:3, 3].copy()))
    p["message"] = [rm.transform2msg(p["pose"][0]), rm.transform2transform_stamped_msg(p["pose"][0]), rm.transform2pose_msg(p["pose"][1]), rm.transform2pose_stamped_msg(p["pose"][1]),
                    rm.twist2msg(p["numbers"][0]), rm.wrench2msg(p["numbers"][1])]
    return p, tr


def plain(o):
    """Swig containers and objects read out."""
    if hasattr(o, "matrix"):
        return np.array(o.matrix(), float)
    return o


def layer_call(x, p, tr, op):
    k, a, b = op
    c = x["c"]
    rb, q, qq = p["robot"][0], p["joints"][a % 2], p["joints"][a % len(p["joints"])]
    L = tg.links(c)
    fl = [tg.full(c, l) for l in L]
    T = p["pose"][a % 4]
    if k == "fk":
        return rox.fwdkin(rb, q)
    if k == "jac":
        return rox.robotjacobian(rb, q)
    if k == "ik":
        return rox.iterative_invkin(rb, p["pose"][2 + a % 2], p["joints"][b % 2], max_steps=b % 7)
    if k == "tfk":
        return tr.fwdkin(qq)
    if k == "tlink":
        return tr.fwdkin(qq, fl[b % len(fl)], fl[a % len(fl)])
    if k == "tjac":
        return tr.jacobian(qq)
    if k == "tljac":
        return tr.jacobian(qq, fl[b % len(fl)], fl[a % len(fl)])
    if k == "tik":
        return [list(tr.invkin(p["pose"][2 + a % 2], p["joints"][b % len(p["joints"])]))]
    if k == "tred":
        return [list(tr.redundant_solutions(qq))]
    if k == "tnew":
        t2 = c26.make(c, ["robot", "env"][b % 2], SOLVER.get(x["fam"]))[1] if b % 3 else tt.TesseractRobot(rb, c["name"], *([SOLVER[x["fam"]]] if x["fam"] in SOLVER and b % 2 else []))
        return [t2.fwdkin(q), t2.jacobian(q)]
    if k == "params":
        if x["fam"] == "any":
            return None
        v = (tt.robot_to_opw_inv_kin_parameters if x["fam"] == "opw" else tt.robot_to_ur_inv_kin_parameters)(rb)
        return [[np.array(w, float) for w in v]]
    if k == "info":
        sg, ln, jn, cl = tt.robot_to_scene_graph(rb, True)
        links, joints, chain = list(fl), [c["name"] + "_" + j for j in jn], [c["name"] + "_" + l for l in cl]
        keep = [list(links), list(joints), list(chain)]
        s = tt.kinematics_plugin_info_string(rb, c["name"], links, joints, chain, SOLVER.get(x["fam"]))
        require([links, joints, chain] == keep, "the lists of names passed to a conversion were changed")
        return [yaml.safe_load(s) == yaml.safe_load(tt.kinematics_plugin_info_string(rb, c["name"], links, joints, chain, SOLVER.get(x["fam"]))), s]
    if k == "commands":
        cmds, ln, jn = tt.robot_to_tesseract_env_commands(rb, c["name"], return_names=True, invkin_solver=SOLVER.get(x["fam"]))
        return [len(cmds), list(ln), list(jn)]
    if k == "graph":
        sg, ln, jn, cl = tt.robot_to_scene_graph(rb, True)
        return [list(ln), list(jn), list(cl), sg.getRoot()]
    if k == "iso":
        I = tt.transform_to_isometry3d(T)
        return [plain(I), tt.isometry3d_to_transform(I)]
    if k == "load":
        d = p["document"][0]
        return rr.load_robot_info_yaml_to_robot(source(d, x["src"]), a % len(d["chains"]))
    if k == "loadtool":
        d = p["document"][0]
        return rr.load_robot_and_tool_info_yaml_to_robot(source(d, x["src"]), source(p["tool"][0], x["src"]), a % len(d["chains"]))
    if k == "urdf":
        ch = c20.choose(dict(t=x["t"], mode="both", tip=a + 1, root=b))
        return None if ch is None else urdf.robot_from_xml_string(u.to_xml(x["t"]), ch[2], ch[3])
    if k == "ros":
        v = p["numbers"][b % 2]
        return [f(w) for f, w in ((rm.transform2msg, T), (rm.transform2pose_msg, T), (rm.transform2transform_stamped_msg, T), (rm.transform2pose_stamped_msg, T), (rm.R2msg, T.R), (rm.p2msg, T.p), (rm.p2point_msg, T.p), (rm.twist2msg, v), (rm.wrench2msg, v))]
    if k == "msg":
        m = p["message"]
        return [rm.msg2transform(m[a % 4]), rm.msg2twist(m[4]), rm.msg2wrench(m[5])]
    if k == "ident":
        return rox.identity_transform()
    raise AssertionError(k)


def lsnap(o):
    if hasattr(o, "state"):
        return ("msg", type(o).__name__) + tuple(lsnap(getattr(o, k)) for k in o.__slots__)
    if isinstance(o, dict):
        return ("dict",) + tuple((k, lsnap(v)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(lsnap(v) for v in o)
    return snap(o)


def scribble(o):
    """A caller that edits everything it got back."""
    if isinstance(o, rox.Robot):
        for a in ATTRS:
            v = getattr(o, a)
            spoil(v)
            if isinstance(v, list):
                v[:] = ["mine"] * len(v)
        o.joint_names = ["mine"]
        return
    if hasattr(o, "state"):
        for k in o.__slots__:
            v = getattr(o, k)
            if hasattr(v, "state"):
                scribble(v)
            elif isinstance(v, float):
                setattr(o, k, 77.0)
            elif isinstance(v, str):
                setattr(o, k, "mine")
        return
    if isinstance(o, rox.Transform):
        o.parent_frame_id = o.child_frame_id = "mine"
    if isinstance(o, (list, tuple)):
        for v in o:
            scribble(v)
    if isinstance(o, list):
        o[:] = []
    spoil(o)


@sub("C19", "layers", gen_layers, 480, 16000, shards=8, journal=True, rule="a history with calls of two layers, one of them repeated on an object that others used in between")
def run_layers(x, rec):
    p, tr = layer_pool(x)
    before = {k: [lsnap(o) for o in p[k]] for k in p}
    seen, held = {}, []

    def untouched(what, op):
        for k in p:
            for j, o in enumerate(p[k]):
                require(lsnap(o) == before[k][j], what + " changed a shared %s" % k, op=op, index=j, now=o)
    for n, op in enumerate(x["ops"]):
        res = layer_call(x, p, tr, op)
        s = lsnap(res)
        untouched("operation %d (%s)" % (n, op[0]), op)
        key = tuple(op)
        require(same(seen.setdefault(key, s), s), "operation %s gives another result when repeated in the history" % op[0], op=op)
        held.append((n, op, res, s))
        res2 = layer_call(x, p, tr, op)
        require(same(lsnap(res2), s), "operation %d (%s) gives another result when called again at once" % (n, op[0]), op=op)
        scribble(res2)
        untouched("writing to the result of operation %d (%s)" % (n, op[0]), op)
        for m, o, z, t in held:
            require(lsnap(z) == t, "writing to the result of operation %d (%s) changed the result of operation %d (%s)" % (n, op[0], m, o[0]), op=op)
    for op in reversed(x["ops"]):
        require(same(lsnap(layer_call(x, p, tr, op)), seen[tuple(op)]), "operation %s gives another result after other calls" % op[0], op=op)
    p2, tr2 = layer_pool(x)
    for op in x["ops"]:
        require(same(lsnap(layer_call(x, p2, tr2, op)), seen[tuple(op)]), "operation %s gives another result on fresh objects" % op[0], op=op)
    for n, op, res, s in held:
        require(lsnap(res) == s, "the result of operation %d (%s) changed after it was returned" % (n, op[0]), op=op)
    kinds = set(o[0] for o in x["ops"])
    if len(kinds) > 1:
        rec.nontriv(*sorted(kinds))
