"""Robot Raconteur info documents: generator and the robot they describe."""
import math
from . import gens as g, ref


def vec(v):
    return dict(x=v[0], y=v[1], z=v[2])


def num(draw, m):
    k = g.ii(draw, 0, 5)
    return 0 if k == 0 else g.ii(draw, -2, 2) if k == 1 else g.sreal(draw, m)


def ident(draw, name):
    """An identifier in one of the accepted spellings."""
    if g.chance(draw, 30):
        name = g.pick(draw, ["%s ", " %s", "ns/%s", "a|%s", "a.b:%s", "%s#1", "/%s/", "X_%s", "\u00dc%s", "~%s", "%s\\n"]) % g.pick(draw, [name, name.upper(), name.title()])
    k = g.ii(draw, 0, 3)
    return name if k < 2 else dict(name=name) if k == 2 else dict(name=name, uuid="82d22757-bbfc-44ca-9edb-8824c4a1943e")


def quat(draw):
    k = g.ii(draw, 0, 5)
    if k == 0:
        return dict(w=1, x=0, y=0, z=0)
    q = g.quat(draw)
    if k == 1:
        q = [round(v, 6) for v in q]
    return dict(w=q[0], x=q[1], y=q[2], z=q[3])


def pose(draw):
    """Pose or transform spelling."""
    q, p = quat(draw), vec([num(draw, 1.5) for _ in range(3)])
    return dict(orientation=q, position=p) if g.chance(draw, 50) else dict(rotation=q, translation=p)


NAMES = ["joint", "j", "right_j", "on", "1", "a b", "axe-\u00e9", "null", "Joint", "arm/j", "arm|j", "a.j:", "~j", " j", "J_", "ns::j"]


def doc(draw, nchain=3):
    m = g.ii(draw, 1, 9)
    pre = g.pick(draw, NAMES)
    table = []
    for i in range(m):
        t = g.pick(draw, ["revolute", "revolute", "prismatic"])
        lo = -g.real(draw, 0.0, 6.5)
        lim = dict(lower=lo, upper=lo + g.real(draw, 0.05, 13.0), velocity=g.real(draw, 0.1, 9.0), acceleration=g.real(draw, 0.1, 30.0))
        if g.chance(draw, 25):
            lim["lower"], lim["upper"] = -g.ii(draw, 0, 5), g.ii(draw, 1, 6)
        if g.chance(draw, 25):
            lim["reduced_velocity"], lim["reduced_acceleration"] = 0.25, 0.5
        for k in ("velocity", "acceleration"):
            if g.chance(draw, 8):
                lim[k] = g.pick(draw, [0, 0.0, 1e-9, 1e9])
        if g.chance(draw, 15):
            lim["effort"] = 88.5
        ji = None if g.chance(draw, 12) else ident(draw, pre + str(i))
        d = dict(joint_type=t, joint_limits=lim, joint_identifier=ji)
        if g.chance(draw, 25):
            d.update(default_units="radian" if t == "revolute" else "meter", default_effort_units="newton_meter", passive=False)
        table.append(d)
    chains = []
    for c in range(g.ii(draw, 1, nchain)):
        k = g.pick(draw, ["all", "some", "some"])
        nums = [i for i in range(m) if k == "all" or g.chance(draw, 60)]
        if not nums:
            nums = [g.ii(draw, 0, m - 1)]
        H, P = [], []
        for _ in nums:
            a = g.axis(draw)
            if g.chance(draw, 25):
                j = g.ii(draw, 0, 2)
                a = [0, 0, 0]
                a[j] = g.pick(draw, [1, -1])
            H.append(vec(a))
        for _ in range(len(nums) + 1):
            P.append(vec([num(draw, 1.0) for _ in range(3)]))
        ch = dict(kin_chain_identifier="chain%d" % c, H=H, P=P, joint_numbers=nums, flange_pose=pose(draw),
                  flange_identifier=None if g.chance(draw, 20) else ident(draw, "tool%d" % c))
        k = g.ii(draw, 0, 4)
        if k == 1:
            ch["link_identifiers"] = []
        elif k == 2:
            ch["link_identifiers"] = [None] * (len(nums) + 1)
        elif k > 2:
            ch["link_identifiers"] = [ident(draw, "link%d_%d" % (c, i)) for i in range(len(nums) + 1)]
            if g.chance(draw, 30):     # only the first links are identified
                ch["link_identifiers"] = ch["link_identifiers"][:g.ii(draw, 1, len(nums) + 1)]
            if g.chance(draw, 15):
                ch["link_identifiers"][1:] = [None] * (len(ch["link_identifiers"]) - 1)
        if g.chance(draw, 30):
            ch["link_inertias"] = [dict(m=1.5, com=vec([0.1, 0, 0]), ixx=1, ixy=0, ixz=0, iyy=1, iyz=0, izz=1) for _ in nums]
        k = g.ii(draw, 0, 6)
        if k == 1:
            ch["current_tool"] = None
        elif k == 2:
            ch["current_tool"] = dict(tcp=None)
        elif k > 2:
            ct = dict(tcp=pose(draw))
            if k == 4:
                ct["device_info"] = None
            elif k > 4:
                ct["device_info"] = dict(device=ident(draw, "gripper%d" % c))
            ch["current_tool"] = ct
        chains.append(ch)
    d = dict(chains=chains, joint_info=table, robot_type="serial", robot_capabilities=["jog_command"])
    k = g.ii(draw, 0, 5)
    if k == 1:
        d["device_info"] = None
    elif k > 1:
        d["device_info"] = dict(device=ident(draw, "robot"), serial_number="1")
        if k == 3:
            d["device_info"]["device_origin_pose"] = None
        elif k > 3:
            d["device_info"]["device_origin_pose"] = dict(pose=pose(draw))
            if k == 5:
                d["device_info"]["device_origin_pose"]["parent_frame"] = "world"
    return d


def tool(draw):
    return dict(device_info=dict(device=ident(draw, "hand"), serial_number="7"), tcp=pose(draw), tool_type="electric_gripper", close_position=0)


# ------------------------------------------------------------------ meaning

def name(i):
    return i["name"] if isinstance(i, dict) else i


def xyz(d):
    return [float(d[k]) for k in "xyz"]


def mat(p):
    """4x4 of a pose document."""
    q = p.get("orientation", p.get("rotation"))
    t = p.get("position", p.get("translation"))
    v = [float(q[k]) for k in "wxyz"]
    n = math.sqrt(sum(a * a for a in v))
    return ref.hom(ref.qmat([a / n for a in v]), xyz(t))


def meaning(d, k):
    """The robot that chain k of document d describes."""
    c = d["chains"][k]
    js = [d["joint_info"][i] for i in c["joint_numbers"]]
    out = dict(H=[xyz(v) for v in c["H"]], P=[xyz(v) for v in c["P"]],
               types=[dict(revolute=0, prismatic=1)[j["joint_type"]] for j in js],
               names=["" if j["joint_identifier"] is None else name(j["joint_identifier"]) for j in js],
               flange=mat(c["flange_pose"]), base=None, tool=None, root=None, tip=None)
    for a, b in (("lower", "lower"), ("upper", "upper"), ("vel", "velocity"), ("acc", "acceleration")):
        out[a] = [float(j["joint_limits"][b]) for j in js]
    li = c.get("link_identifiers")
    if li and li[0] is not None:
        out["root"] = name(li[0])
    if c["flange_identifier"] is not None:
        out["tip"] = name(c["flange_identifier"])
    ct = c.get("current_tool")
    if ct and ct["tcp"] is not None:
        out["tool"] = mat(ct["tcp"])
        if ct.get("device_info"):
            out["tip"] = name(ct["device_info"]["device"])
    o = (d.get("device_info") or {}).get("device_origin_pose")
    if o:
        out["base"] = mat(o["pose"])
    return out
