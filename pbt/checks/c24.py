"""ROS message conversions."""
import copy
import numpy as np
from .. import rosstub as ros
ros.install()
import general_robotics_toolbox as rox
from general_robotics_toolbox import ros_msg as rm
from ..core import sub, require, rejects
from .. import gens as g, ref


def shape(v, k):
    """The vector in one of the accepted shapes."""
    n = len(v)
    if k == 0:
        return list(v)
    a = np.array(v, float)
    return a if k == 1 else a.reshape(n, 1) if k == 2 else a.reshape(1, n) if k == 3 else np.repeat(a, 2)[::2]


def number(draw):
    k = g.ii(draw, 0, 6)
    return 0.0 if k == 0 else float(g.ii(draw, -9, 9)) if k == 1 else g.tiny(draw, 3, 30) if k == 2 else g.sreal(draw, 1e6) if k == 3 else g.sreal(draw, 3.0)


def numbers(draw, n):
    return [number(draw) for _ in range(n)]


def exact(got, want, what):
    require(isinstance(got, np.ndarray), what + " is not an array", got=got)
    a = np.asarray(got, float)
    require(a.shape == (len(want),), what + " has the wrong shape", got=got)
    require(a.tolist() == [float(v) for v in want], what + " changed", got=got, expected=want)


def fields(m, names, want, what):
    got = [getattr(m, n) for n in names]
    require([float(v) for v in got] == [float(v) for v in want], "%s: a field does not hold its component" % what, got=m, expected=dict(zip(names, want)))


def gen_vec(draw):
    return dict(q=numbers(draw, 4), p=numbers(draw, 3), t=numbers(draw, 6), w=numbers(draw, 6), k=[g.ii(draw, 0, 4) for _ in range(5)])


@sub("C24", "vectors", gen_vec, 4000, 120000, rule="all components of the twist and wrench differ")
def run_vec(x, rec):
    k = x["k"]
    q, p, t, w = shape(x["q"], k[0]), shape(x["p"], k[1]), shape(x["t"], k[2]), shape(x["w"], k[3])
    p2 = shape(x["p"], k[4])
    saved = copy.deepcopy((q, p, t, w, p2))
    m = rm.q2msg(q)
    require(type(m) is ros.Quaternion, "q2msg type", got=m)
    fields(m, "wxyz", x["q"], "quaternion message")
    exact(rm.msg2q(m), x["q"], "quaternion")
    m = rm.p2msg(p)
    require(type(m) is ros.Vector3, "p2msg type", got=m)
    fields(m, "xyz", x["p"], "vector message")
    exact(rm.msg2p(m), x["p"], "vector")
    m = rm.p2point_msg(p2)
    require(type(m) is ros.Point, "p2point_msg type", got=m)
    fields(m, "xyz", x["p"], "point message")
    exact(rm.point_msg2p(m), x["p"], "point")
    m = rm.twist2msg(t)
    require(type(m) is ros.Twist, "twist2msg type", got=m)
    fields(m.angular, "xyz", x["t"][:3], "twist message, angular")
    fields(m.linear, "xyz", x["t"][3:], "twist message, linear")
    s = m.state()
    exact(rm.msg2twist(m), x["t"], "twist")
    require(m.state() == s, "reading a message changed it")
    m = rm.wrench2msg(w)
    require(type(m) is ros.Wrench, "wrench2msg type", got=m)
    fields(m.torque, "xyz", x["w"][:3], "wrench message, torque")
    fields(m.force, "xyz", x["w"][3:], "wrench message, force")
    exact(rm.msg2wrench(m), x["w"], "wrench")
    for a, b in zip((q, p, t, w, p2), saved):
        require(np.array_equal(np.asarray(a), np.asarray(b)), "a conversion changed its argument", got=a, expected=b)
    if len(set(x["t"])) == 6 and len(set(x["w"])) == 6:
        rec.nontriv("shapes %s" % sorted(set(k)))


FR = ["", "world", "base_link", "tool0", "/abs", "a b", "\u00e9"]


def gen_tf(draw):
    return dict(q=g.quat(draw), p=numbers(draw, 3), parent=g.pick(draw, [None] + FR), child=g.pick(draw, [None] + FR), stamp=[g.ii(draw, 0, 99), g.ii(draw, 0, 99)],
                sgn=g.pick(draw, [1, -1]))


def same_T(T, R, p, what, parent=None, child=None):
    require(isinstance(T, rox.Transform), what + ": not a Transform", got=T)
    require(np.shape(T.R) == (3, 3) and np.allclose(T.R, R, atol=1e-8, rtol=0), what + ": rotation changed", got=T.R, expected=R)
    require(np.asarray(T.p).shape == (3,) and [float(v) for v in T.p] == [float(v) for v in p], what + ": translation changed", got=T.p, expected=p)

    def norm(n):
        return None if n in (None, "") else n
    require(norm(T.parent_frame_id) == norm(parent), what + ": parent frame", got=T.parent_frame_id, expected=parent)
    require(norm(T.child_frame_id) == norm(child), what + ": child frame", got=T.child_frame_id, expected=child)


def quat_is(m, q, what):
    got = np.array([m.w, m.x, m.y, m.z], float)
    require(min(np.max(np.abs(got - q)), np.max(np.abs(got + q))) < 1e-7, what + ": rotation fields", got=m, expected=q)


@sub("C24", "transforms", gen_tf, 3200, 100000, rule="both frames named, or a rotation that is not a quarter turn about a coordinate axis")
def run_tf(x, rec):
    q, p, par, ch = np.array(x["q"]), x["p"], x["parent"], x["child"]
    R = ref.qmat(q)
    # rotations
    m = rm.R2msg(R.copy())
    require(type(m) is ros.Quaternion, "R2msg type", got=m)
    quat_is(m, q, "rotation message")
    require(np.allclose(rm.msg2R(m), R, atol=1e-8, rtol=0), "rotation does not survive the round trip", got=rm.msg2R(m), expected=R)
    qs = q * x["sgn"]
    mq = ros.Quaternion(*[float(v) for v in (qs[1], qs[2], qs[3], qs[0])])
    require(np.allclose(rm.msg2R(mq), R, atol=1e-8, rtol=0), "msg2R", got=rm.msg2R(mq), expected=R)
    # toolbox to message to toolbox
    T = rox.Transform(R, np.array(p), par, ch)
    m = rm.transform2msg(T)
    require(type(m) is ros.Transform and type(m.translation) is ros.Vector3 and type(m.rotation) is ros.Quaternion, "transform2msg types", got=m)
    fields(m.translation, "xyz", p, "transform message")
    quat_is(m.rotation, q, "transform message")
    same_T(rm.msg2transform(m), R, p, "Transform message")
    m = rm.transform2pose_msg(T)
    require(type(m) is ros.Pose and type(m.position) is ros.Point and type(m.orientation) is ros.Quaternion, "transform2pose_msg types", got=m)
    fields(m.position, "xyz", p, "pose message")
    quat_is(m.orientation, q, "pose message")
    same_T(rm.msg2transform(m), R, p, "Pose message")
    m = rm.transform2transform_stamped_msg(T)
    require(type(m) is ros.TransformStamped and type(m.transform) is ros.Transform, "transform2transform_stamped_msg types", got=m)
    require(m.header.frame_id == (par or "") and m.child_frame_id == (ch or ""), "frame names of the stamped transform message", got=m)
    fields(m.transform.translation, "xyz", p, "stamped transform message")
    quat_is(m.transform.rotation, q, "stamped transform message")
    same_T(rm.msg2transform(m), R, p, "TransformStamped message", par, ch)
    m = rm.transform2pose_stamped_msg(T)
    require(type(m) is ros.PoseStamped and type(m.pose) is ros.Pose and type(m.pose.position) is ros.Point, "transform2pose_stamped_msg types", got=m)
    require(m.header.frame_id == (par or ""), "frame name of the stamped pose message", got=m)
    fields(m.pose.position, "xyz", p, "stamped pose message")
    quat_is(m.pose.orientation, q, "stamped pose message")
    same_T(rm.msg2transform(m), R, p, "PoseStamped message", par)
    same_T(T, R, p, "converted transform", par, ch)
    # a foreign message to toolbox
    h = ros.Header(3, ros.Time(*x["stamp"]), par or "")
    v = [float(a) for a in p]
    for m, cf in ((ros.Transform(ros.Vector3(*v), mq), (None, None)), (ros.Pose(ros.Point(*v), mq), (None, None)),
                  (ros.TransformStamped(h, ch or "", ros.Transform(ros.Vector3(*v), mq)), (par, ch)),
                  (ros.PoseStamped(h, ros.Pose(ros.Point(*v), mq)), (par, None))):
        s = m.state()
        same_T(rm.msg2transform(m), R, p, type(m).__name__ + " read", *cf)
        require(m.state() == s, "reading a message changed it", got=m)
    if (par and ch) or len([a for a in x["q"] if abs(a) > 1e-9]) > 2:
        rec.nontriv("frames %s/%s" % (par is not None, ch is not None))


def gen_other(draw):
    return dict(i=g.ii(draw, 0, len(ros.OTHER) + 8), p=numbers(draw, 3), q=g.quat(draw))


@sub("C24", "reject", gen_other, 1200, 30000, shards=2, rule="every case: an object that is not one of the four types")
def run_other(x, rec):
    i = x["i"]
    if i < len(ros.OTHER):
        o = ros.OTHER[i]()
        name = ros.OTHER[i].__name__
        v, q = x["p"], x["q"]
        for a, b in zip("xyz", v):
            if hasattr(o, a):
                setattr(o, a, b)
        if isinstance(o, ros.Odometry) or isinstance(o, ros.PoseWithCovarianceStamped):
            o.pose.pose = ros.Pose(ros.Point(*v), ros.Quaternion(*q))
        if isinstance(o, ros.PoseWithCovariance):
            o.pose = ros.Pose(ros.Point(*v), ros.Quaternion(*q))
        if isinstance(o, ros.PoseArray):
            o.poses = [ros.Pose(ros.Point(*v), ros.Quaternion(*q))]
    else:
        o = [None, np.eye(4), x["q"], "pose", dict(position=x["p"], orientation=x["q"]), 3.5, object(), rox.Transform(np.eye(3), np.array(x["p"])), (x["p"], x["q"])][i - len(ros.OTHER)]
        name = type(o).__name__
    rejects(rm.msg2transform, o, what="msg2transform accepted a %s" % name)
    rec.nontriv(name)


MAKE = ["transform2msg", "transform2pose_msg", "transform2transform_stamped_msg", "transform2pose_stamped_msg", "R2msg", "q2msg", "p2msg", "p2point_msg", "twist2msg", "wrench2msg"]
BACK = {"Quaternion": "msg2q", "Vector3": "msg2p", "Point": "point_msg2p", "Twist": "msg2twist", "Wrench": "msg2wrench", "Transform": "msg2transform", "Pose": "msg2transform",
        "TransformStamped": "msg2transform", "PoseStamped": "msg2transform"}


def gen_hist(draw):
    ops = []
    for _ in range(g.ii(draw, 3, 14)):
        ops.append(dict(op=g.pick(draw, ["make", "make", "make", "read", "read", "edit", "edit", "reuse", "scribble", "rename"]), f=g.ii(draw, 0, len(MAKE) - 1), i=g.ii(draw, 0, 30),
                        q=g.quat(draw), v=numbers(draw, 6), fr=[g.pick(draw, [None] + FR), g.pick(draw, [None] + FR)]))
    return dict(ops=ops)


def leaves(m):
    """(owner, field) of the numeric fields of a message."""
    r = []
    for k in m.__slots__:
        v = getattr(m, k)
        if isinstance(v, ros.Header) or isinstance(v, ros.Time):
            continue
        if hasattr(v, "state"):
            r += leaves(v)
        elif not isinstance(v, str):
            r.append((m, k))
    return r


def quat_of(m):
    return getattr(m, "rotation", None) or getattr(m, "orientation", None) or (m.transform.rotation if hasattr(m, "transform") else m.pose.orientation)


def snap(o):
    if hasattr(o, "state"):
        return o.state()
    if isinstance(o, rox.Transform):
        return (np.array(o.R, float).tolist(), np.array(o.p, float).tolist(), o.parent_frame_id, o.child_frame_id)
    return np.array(o, float).tolist()


@sub("C24", "history", gen_hist, 1600, 60000, shards=8, rule="at least two messages of one type were made and one was changed afterwards")
def run_hist(x, rec):
    """Messages and values made earlier stay as they are; a message that was
    changed, or a Transform that was, converts to what it holds now."""
    live = []        # [object, snapshot, truth]   truth: dict(q,p,par,ch) or list of components
    made, edited = [], set()

    def keep(o):
        live.append([o, snap(o)])

    def check(skip=None):
        for o, s in live:
            if o is not skip:
                require(snap(o) == s, "an operation on other objects changed a %s made earlier" % type(o).__name__, got=o, expected=s)

    def resnap(o):
        for e in live:
            if e[0] is o:
                e[1] = snap(o)
    for o in x["ops"]:
        q, v = np.array(o["q"]), [float(a) for a in o["v"]]
        R = ref.qmat(q)
        op = o["op"]
        msgs = [e[0] for e in live if hasattr(e[0], "state")]
        Ts = [e[0] for e in live if isinstance(e[0], rox.Transform)]
        arr = [e[0] for e in live if isinstance(e[0], np.ndarray)]
        if op == "make" or (op in ("read", "edit") and not msgs) or (op == "reuse" and not Ts) or (op == "rename" and not Ts) or (op == "scribble" and not arr):
            f = MAKE[o["f"]]
            fn = getattr(rm, f)
            if o["f"] < 4:
                T = rox.Transform(R, np.array(v[:3]), *o["fr"])
                keep(T)
                m = fn(T)
            else:
                m = fn(R if f == "R2msg" else np.array(o["q"]) if f == "q2msg" else np.array(v[:3]) if f in ("p2msg", "p2point_msg") else np.array(v))
            require(type(m).__name__ == dict(zip(MAKE, ["Transform", "Pose", "TransformStamped", "PoseStamped", "Quaternion", "Quaternion", "Vector3", "Point", "Twist", "Wrench"]))[f], f + " type", got=m)
            require(all(m is not a for a in msgs), "%s handed out a message it had handed out before" % f)
            check()
            keep(m)
            made.append(type(m).__name__)
        elif op == "read":
            m = msgs[o["i"] % len(msgs)]
            b = BACK[type(m).__name__]
            r = getattr(rm, b)(m)
            check()
            if b == "msg2transform":
                Q = quat_of(m)
                t = getattr(m, "translation", None) or getattr(m, "position", None) or (m.transform.translation if hasattr(m, "transform") else m.pose.position)
                st = type(m).__name__
                same_T(r, ref.qmat([float(Q.w), float(Q.x), float(Q.y), float(Q.z)]), [t.x, t.y, t.z], st + " message read", m.header.frame_id if "Stamped" in st else None,
                       m.child_frame_id if st == "TransformStamped" else None)
            else:
                names = {"msg2q": "wxyz", "msg2p": "xyz", "point_msg2p": "xyz"}.get(b)
                if names:
                    want = [getattr(m, k) for k in names]
                else:
                    A, B = (m.angular, m.linear) if b == "msg2twist" else (m.torque, m.force)
                    want = [A.x, A.y, A.z, B.x, B.y, B.z]
                exact(r, want, type(m).__name__ + " read")
            keep(r)
        elif op == "edit":      # the user changes a message's fields
            m = msgs[o["i"] % len(msgs)]
            st = type(m).__name__
            if st in ("Vector3", "Point", "Twist", "Wrench", "Quaternion"):
                for (w, k), val in zip(leaves(m), v):
                    setattr(w, k, val)
            else:
                Q = quat_of(m)
                Q.w, Q.x, Q.y, Q.z = (float(a) for a in q)
                t = getattr(m, "translation", None) or getattr(m, "position", None) or (m.transform.translation if hasattr(m, "transform") else m.pose.position)
                t.x, t.y, t.z = v[:3]
                if "Stamped" in st:
                    m.header.frame_id = o["fr"][0] or ""
                    if st == "TransformStamped":
                        m.child_frame_id = o["fr"][1] or ""
            check(skip=m)
            resnap(m)
            edited.add(st)
        elif op in ("reuse", "rename"):      # a Transform is changed, and converted as it is now
            T = Ts[o["i"] % len(Ts)]
            if op == "reuse":
                T.p = np.array(v[:3])
                T.R = R
            T.parent_frame_id, T.child_frame_id = o["fr"]
            check(skip=T)
            resnap(T)
            f = MAKE[o["f"] % 4]
            m = getattr(rm, f)(T)
            check()
            i = m if f == "transform2msg" or f == "transform2pose_msg" else m.transform if f == "transform2transform_stamped_msg" else m.pose
            t = i.translation if hasattr(i, "translation") else i.position
            fields(t, "xyz", T.p, f)
            require(np.allclose(ref.qmat([float(a) for a in (quat_of(i).w, quat_of(i).x, quat_of(i).y, quat_of(i).z)]), T.R, atol=1e-7, rtol=0), f + ": rotation fields", got=m, expected=T.R)
            if i is not m:
                require(m.header.frame_id == (o["fr"][0] or ""), f + ": parent frame", got=m, expected=o["fr"])
                if f == "transform2transform_stamped_msg":
                    require(m.child_frame_id == (o["fr"][1] or ""), f + ": child frame", got=m, expected=o["fr"])
            keep(m)
        else:
            a = arr[o["i"] % len(arr)]
            a[o["f"] % len(a)] = v[0]
            check(skip=a)
            resnap(a)
    if any(made.count(t) > 1 for t in edited):
        rec.nontriv("edited")
