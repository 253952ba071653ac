"""Generation of URDF documents and a reference reading of them."""
import math
from xml.sax.saxutils import quoteattr
import numpy as np
from . import gens as g, ref

PI = math.pi
LN = ["base_link", "link_1", "link_2", "arm/l3", "l 4", "Ünit5", "tool0", "flange", "l8", "world", "wrist.a", "B<&>"] + ["seg_%d" % i for i in range(14)]
JN = ["joint_1", "joint_2", "j3", "shoulder-pan", "elbow lift", "a6", "joint_10", "joint_11", "wröst", "fix", "zz", "x&y"] + ["axis_%d" % i for i in range(14)]


def origin(draw):
    k = g.pick(draw, ["none", "xyz", "rpy", "both", "both", "both", "empty"])
    o = dict(kind=k, xyz=[0.0] * 3, rpy=[0.0] * 3)
    if k in ("xyz", "both"):
        o["xyz"] = g.vec(draw, 1.0, 20)
    if k in ("rpy", "both"):
        o["rpy"] = [g.ii(draw, -2, 2) * PI / 2 for _ in range(3)] if g.chance(draw, 30) else [g.sreal(draw, PI) for _ in range(3)]
    if g.chance(draw, 12):     # small calibration offsets
        for f in ("xyz", "rpy"):
            if o["kind"] in (f, "both") and g.chance(draw, 60):
                v = [g.tiny(draw, 2, 8) for _ in range(3)]
                o[f] = [w if g.chance(draw, 60) else 0.0 for w in v]
    return o


def inertial(draw):
    return dict(mass=g.pick(draw, [0.0, 1.0, 2.5, 1e-7]), origin=origin(draw) if g.chance(draw, 60) else None,
                inertia=[g.sreal(draw, 1.0) for _ in range(6)] if g.chance(draw, 80) else None)


def joint(draw, types):
    t = g.pick(draw, types)
    j = dict(type=t, origin=origin(draw), axis=None, limit=None)
    if t != "fixed" or g.chance(draw, 10):
        if g.chance(draw, 80):
            j["axis"] = g.axis(draw)
        if g.chance(draw, 90):
            lo = -g.real(draw, 0, 4.0)
            hi = g.real(draw, 0, 4.0)
            if g.chance(draw, 15):
                lo, hi = lo + 5.0, hi + 9.0
            j["limit"] = dict(lower=lo if g.chance(draw, 85) else None, upper=hi if g.chance(draw, 85) else None,
                              velocity=g.real(draw, 0, 9.0), effort=g.real(draw, 0, 100.0))
            l = j["limit"]
            if (l["lower"] or 0.0) > (l["upper"] or 0.0):
                l["lower"], l["upper"] = lo, hi
    j["dynamics"] = g.chance(draw, 10)
    j["mimic"] = False
    return j


def tree(draw, nmin=2, nmax=10, types=("revolute", "revolute", "prismatic", "fixed"), branch=30, off=("revolute", "prismatic", "fixed", "continuous", "floating", "planar")):
    """links[i] hangs below parents[i] by joints[i]; link 0 is the root."""
    n = g.ii(draw, nmin, nmax)
    if g.chance(draw, 6):
        n = nmax + g.ii(draw, 1, 12)
    ln, jn = list(LN), list(JN)
    names, jnames = [], []
    for _ in range(n):
        names.append(ln.pop(g.ii(draw, 0, len(ln) - 1)))
        jnames.append(jn.pop(g.ii(draw, 0, len(jn) - 1)))
    parents, joints = [None], [None]
    for i in range(1, n):
        b = g.chance(draw, branch)
        parents.append(g.ii(draw, 0, i - 1) if b else i - 1)
        j = joint(draw, list(off) if b and g.chance(draw, 40) else list(types))
        j["name"] = jnames[i]
        joints.append(j)
    order = list(range(2 * n - 1))
    if g.chance(draw, 60):
        for i in range(len(order) - 1, 0, -1):
            k = g.ii(draw, 0, i)
            order[i], order[k] = order[k], order[i]
    return dict(names=names, parents=parents, joints=joints, order=order, rname=g.pick(draw, ["r", "my robot"]),
                inertials=[inertial(draw) if g.chance(draw, 35) else None for _ in range(n)],
                decl=g.pick(draw, ["", '<?xml version="1.0" ?>\n', '<?xml version="1.0"?>\n<!-- comment -->\n']), pad=g.pick(draw, ["", " ", "\n  "]))


def num(v):
    return repr(float(v)) if v != int(v) or abs(v) > 1e6 else str(int(v))


def vec3(v):
    return quoteattr(" ".join(num(x) for x in v))


def origin_xml(o):
    if o is None or o["kind"] == "none":
        return ""
    a = ""
    if o["kind"] in ("xyz", "both"):
        a += " xyz=" + vec3(o["xyz"])
    if o["kind"] in ("rpy", "both"):
        a += " rpy=" + vec3(o["rpy"])
    return "<origin%s/>" % a


def to_xml(t):
    el = []
    for i, n in enumerate(t["names"]):
        s = ""
        I = t["inertials"][i]
        if I is not None:
            s = "<inertial>" + (origin_xml(I["origin"]) if I["origin"] else "") + '<mass value="%s"/>' % num(I["mass"])
            if I["inertia"]:
                s += "<inertia " + " ".join('%s="%s"' % (k, num(v)) for k, v in zip(["ixx", "ixy", "ixz", "iyy", "iyz", "izz"], I["inertia"])) + "/>"
            s += "</inertial>"
        el.append("<link name=%s>%s</link>" % (quoteattr(n), s) if s else "<link name=%s/>" % quoteattr(n))
    for i, j in enumerate(t["joints"]):
        if j is None:
            continue
        s = origin_xml(j["origin"])
        s += "<parent link=%s/><child link=%s/>" % (quoteattr(t["names"][t["parents"][i]]), quoteattr(t["names"][i]))
        if j["axis"] is not None:
            s += "<axis xyz=%s/>" % vec3(j["axis"])
        l = j["limit"]
        if l is not None:
            s += "<limit"
            for k in ("lower", "upper", "velocity", "effort"):
                if l[k] is not None:
                    s += ' %s="%s"' % (k, num(l[k]))
            s += "/>"
        if j["dynamics"]:
            s += '<dynamics damping="0.1" friction="0.2"/>'
        el.append("<joint name=%s type=\"%s\">%s</joint>" % (quoteattr(j["name"]), j["type"], s))
    return t["decl"] + "<robot name=%s>" % quoteattr(t["rname"]) + t["pad"].join([""] + [el[k] for k in t["order"]] + [""]) + "</robot>\n"


# ------------------------------------------------------------ reference

def chain_of(t, root, tip):
    """Joint indices from link index root to link index tip, or None."""
    c, i = [], tip
    while i != root:
        if t["parents"][i] is None:
            return None
        c.append(i)
        i = t["parents"][i]
    return c[::-1]


def leaves(t):
    return [i for i in range(len(t["names"])) if i not in t["parents"]]


def candidates(t, root):
    out = []
    for l in leaves(t):
        c = chain_of(t, root, l)
        if not c:
            continue
        ty = [t["joints"][i]["type"] for i in c]
        if "floating" in ty or all(x == "fixed" for x in ty):
            continue
        out.append(l)
    return out


def supported(t, c):
    return all(t["joints"][i]["type"] in ("revolute", "prismatic", "fixed") for i in c)


def moving(t, c):
    return [i for i in c if t["joints"][i]["type"] in ("revolute", "prismatic")]


def fk(t, c, q):
    M = np.eye(4)
    q = list(q)
    for i in c:
        j = t["joints"][i]
        o = j["origin"]
        xyz = o["xyz"] if o["kind"] in ("xyz", "both") else [0, 0, 0]
        rpy = o["rpy"] if o["kind"] in ("rpy", "both") else [0, 0, 0]
        M = M @ ref.hom(ref.rpym(*rpy), xyz)
        a = np.array(j["axis"] if j["axis"] is not None else [1.0, 0, 0])
        if j["type"] == "revolute":
            M = M @ ref.hom(ref.rotm(a, q.pop(0)), np.zeros(3))
        elif j["type"] == "prismatic":
            M = M @ ref.hom(np.eye(3), a * q.pop(0))
    return M


def limits(t, c):
    """(lower, upper, velocity, effort), each None when some joint has no limit element."""
    ls = [t["joints"][i]["limit"] for i in moving(t, c)]
    if any(l is None for l in ls):
        return None
    return ([l["lower"] or 0.0 for l in ls], [l["upper"] or 0.0 for l in ls], [l["velocity"] for l in ls], [l["effort"] for l in ls])
