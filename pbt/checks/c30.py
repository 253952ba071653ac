"""Parameters extracted for the closed-form Tesseract solvers."""
import copy, math
import numpy as np
import general_robotics_toolbox as rox
from general_robotics_toolbox import tesseract as tt
from ..core import sub, require, rejects
from .. import gens as g, ref, tessgen as tg


def params(rb, fam):
    return tt.robot_to_opw_inv_kin_parameters(rb) if fam == "opw" else tt.robot_to_ur_inv_kin_parameters(rb)


def fk(p, fam, q):
    return tg.opw_fk(p, q) if fam == "opw" else tg.ur_fk(p, q)


def snapshot(rb):
    return [np.array(a, float, copy=True) for a in (rb.H, rb.P, rb.T_flange.R, rb.T_flange.p)]


def gen(draw):
    c = (tg.opw if g.chance(draw, 65) else tg.ur)(draw)
    if c["family"] == "opw":
        c["base"] = g.opt(draw, lambda d: g.pose(d, 2.0), 40)
    c["tool"] = g.opt(draw, lambda d: g.pose(d, 0.4), 40)
    if g.chance(draw, 40):
        tg.finish(draw, c)
    return dict(c=c, q=[[0.0] * 6 if g.chance(draw, 10) else [g.sreal(draw, 2 * math.pi) for _ in range(6)] for _ in range(3)], ti=g.chance(draw, 30))


@sub("C30", "describe", gen, 4000, 120000, shards=8, rule="non-zero link lengths and some offset, sign correction or joint offset that is not the default")
def run(x, rec):
    c = x["c"]
    fam = c["family"]
    kw = {}
    if x["ti"]:
        kw["joint_type"] = np.zeros(6, int)
    rb = g.mk_robot(dict(c))
    if x["ti"]:
        rb.joint_type = np.zeros(6, int)
    s = snapshot(rb)
    p = params(rb, fam)
    for a, b in zip(snapshot(rb), s):
        require(np.array_equal(a, b), "extracting the parameters changed the robot", got=a, expected=b)
    d = dict(c)
    d["tool"] = None
    if fam == "opw":
        d["base"] = None
    sc = 1.0 + sum(float(np.linalg.norm(v)) for v in c["P"])
    for q in x["q"]:
        E = g.ref_fk(d, q)
        T = fk(p, fam, q)
        require(np.max(np.abs(T[:3, :3] - E[:3, :3])) < 1e-5 and np.max(np.abs(T[:3, 3] - E[:3, 3])) < 1e-5 * sc,
                "the parameters do not reproduce the flange pose", got=T, expected=E, parameters=p, q=q)
    # the same model object after an edit
    rb.P[2, 0] += 0.125
    d["P"] = [list(v) for v in d["P"]]
    d["P"][0][2] += 0.125
    p2 = params(rb, fam)
    for q in x["q"][:1]:
        E = g.ref_fk(d, q)
        T = fk(p2, fam, q)
        require(np.max(np.abs(T[:3, :3] - E[:3, :3])) < 1e-5 and np.max(np.abs(T[:3, 3] - E[:3, 3])) < 1e-5 * sc,
                "the parameters of an edited robot do not reproduce its flange pose", got=T, expected=E, parameters=p2, q=q)
    if fam == "opw":
        if np.any(np.asarray(p.offsets) != 0) or np.any(np.asarray(p.sign_corrections) != 1) or p.b != 0:
            rec.nontriv("opw %s" % c["form"], "offset %s" % (np.abs(p.offsets) > 1e-3).astype(int).tolist())
    else:
        rec.nontriv("ur " + c["form"])


PERP = {"x": (1, 2), "z": (0, 1)}


def gen_bad(draw):
    fam = g.pick(draw, ["opw", "opw", "ur"])
    c = (tg.opw if fam == "opw" else tg.ur)(draw)
    kinds = ["axis", "axis", "axis", "flange_R", "flange_p", "noflange", "joints", "type", "offset", "offset"]
    if fam == "ur":
        kinds += ["base_R", "base_p", "offset"]
    else:
        kinds += ["wrist_axes"]
    k = g.pick(draw, kinds)
    i = g.ii(draw, 0, 5)
    eps = g.pick(draw, [1, -1]) * (g.pick(draw, [1e-3, 1e-2, 0.1]) * g.real(draw, 1.0, 5.0))
    if k == "axis":
        how = g.ii(draw, 0, 2)
        h = np.array(c["H"][i])
        o = [j for j in range(3) if h[j] == 0]
        if how == 0:         # another coordinate axis
            v = [0.0, 0.0, 0.0]
            v[o[g.ii(draw, 0, 1)]] = g.pick(draw, [1.0, -1.0])
        elif how == 1:       # slightly or clearly tilted
            e = np.zeros(3)
            e[o[g.ii(draw, 0, 1)]] = 1.0
            v = (math.cos(eps) * h + math.sin(eps) * e).tolist()
        elif fam == "ur":    # reversed
            v = (-h).tolist()
        else:
            e = np.zeros(3)
            e[o[0]] = 1.0
            v = ref.unit(h + e).tolist()
        c["H"][i] = v
    elif k == "wrist_axes":  # both wrist roll axes in a direction the form does not have
        v = g.pick(draw, [[0, 1.0, 0], ref.unit([1.0, 0, 1.0]).tolist(), ref.unit([1.0, 1.0, 0]).tolist()])
        c["H"][3] = v
        c["H"][5] = [g.pick(draw, [1.0, -1.0]) * a for a in v]
    elif k == "flange_R":
        R = ref.rotm(c["flange"][0], c["flange"][1]) @ ref.rotm(g.axis(draw, kinds=("aligned", "generic")), eps if g.chance(draw, 60) else g.pick(draw, [1, 2, 3]) * math.pi / 2)
        c["flangeR"] = R.tolist()
    elif k == "flange_p":
        v = [0.0, 0.0, 0.0]
        v[g.ii(draw, 0, 2)] = eps
        c["flange"] = [c["flange"][0], c["flange"][1], v]
    elif k == "noflange":
        c["flange"] = None
    elif k == "joints":
        j = g.ii(draw, 1, 5)
        if g.chance(draw, 50):
            n = g.ii(draw, 1, 5)
            c["types"], c["H"], c["P"] = [0] * n, c["H"][:n], c["P"][:n + 1]
        else:
            c["types"] = [0] * 7
            c["H"].insert(j, list(c["H"][j]))
            c["P"].insert(j, [0.0, 0.0, 0.0])
            if g.chance(draw, 50):
                c["H"].append(c["H"].pop(j))
    elif k == "type":
        c["types"][i] = g.pick(draw, [1, 1, 2, 3])
    elif k == "offset":
        if fam == "opw":
            cols = [(0, 0), (0, 1)] + [(r, a) for r in (4, 5, 6) for a in PERP[c["form"]]]
        else:
            cols = [(0, 0), (0, 1), (1, 0), (2, 2), (3, 2), (4, 0), (5, 0), (6, 0), (6, 2)]
        r, a = g.pick(draw, cols)
        c["P"][r] = list(c["P"][r])
        c["P"][r][a] += eps
    elif k == "base_R":
        b = c["base"] or [[0, 0, 1.0], 0.0, [0, 0, 0]]
        c["baseR"] = (ref.rotm(b[0], b[1]) @ ref.rotm(g.axis(draw, kinds=("aligned", "generic")), eps if g.chance(draw, 60) else g.pick(draw, [1, 2, 3]) * math.pi / 2)).tolist()
    elif k == "base_p":
        b = c["base"] or [[0, 0, 1.0], 0.0, [0, 0, 0]]
        v = [0.0, 0.0, 0.0]
        v[g.ii(draw, 0, 2)] = eps
        c["base"] = [b[0], b[1], v]
    c["kind"] = k
    return dict(c=c, env=g.chance(draw, 15))


@sub("C30", "refuse", gen_bad, 4000, 120000, shards=8, journal=True, rule="every case: a robot one change away from the solver's form")
def run_bad(x, rec):
    c = x["c"]
    rb = g.mk_robot(c)
    if "flangeR" in c:
        rb.T_flange = rox.Transform(np.array(c["flangeR"]), np.zeros(3))
    if "baseR" in c:
        rb.T_base = rox.Transform(np.array(c["baseR"]), np.zeros(3))
    rejects(params, rb, c["family"], what="%s parameters for a robot that they cannot describe (%s)" % (c["family"], c["kind"]))
    if x["env"]:
        n = len(c["types"])
        rb.joint_lower_limit, rb.joint_upper_limit = -np.ones(n), np.ones(n)
        rb.joint_vel_limit, rb.joint_acc_limit = np.ones(n), np.ones(n)
        rejects(tt.TesseractRobot, rb, "robot", invkin_solver="OPWInvKin" if c["family"] == "opw" else "URInvKin",
                what="a Tesseract robot with the %s solver for a robot that it cannot describe (%s)" % (c["family"], c["kind"]))
        rec.cls("as a Tesseract robot")
    rec.nontriv(c["family"] + " " + c["kind"])
