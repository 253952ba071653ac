"""The transform listener wrapper."""
import numpy as np
from .. import rosstub as ros
ros.install()
import general_robotics_toolbox as rox
from general_robotics_toolbox import ros_tf
from ..core import sub, require
from .. import gens as g, ref

OPS = ["lookup", "lookup", "lookup", "lookupFull", "lookupFull", "can", "canFull", "wait", "waitFull", "clear", "chain"]
ERR = ["TransformException", "ConnectivityException", "LookupException", "ExtrapolationException", "InvalidArgumentException", "TimeoutException"]


def gen(draw):
    n = g.ii(draw, 2, 6)
    fr = [dict(parent=g.ii(draw, 0, max(0, i - 1)), q=g.quat(draw), p=[g.sreal(draw, 3.0) for _ in range(3)], dq=[g.axis(draw), g.sreal(draw, 1.0)],
               dp=[g.sreal(draw, 1.0) for _ in range(3)]) for i in range(n)]
    ops = []
    for _ in range(g.ii(draw, 1, 12)):
        ops.append(dict(op=g.pick(draw, OPS), w=g.ii(draw, 0, 1), f=[g.ii(draw, 0, n - 1) for _ in range(3)], t=[g.ii(draw, 0, 3), g.ii(draw, 0, 3)], notime=g.chance(draw, 35),
                        kw=g.chance(draw, 40), poll=g.ii(draw, 0, 3), fail=g.ii(draw, 0, len(ERR) + 3), style=g.ii(draw, 0, 2), sgn=g.pick(draw, [1, -1]), err=g.chance(draw, 15),
                        ans=g.pick(draw, [True, False, 1, 0, None, "yes"])))
    return dict(fr=fr, ops=ops, init=g.ii(draw, 0, 2), names=g.pick(draw, [0, 0, 1, 2, 3]))


def world(fr, i, t):
    """Pose of frame i in frame 0 at time t (frames drift linearly)."""
    f = fr[i]
    if i == 0:
        return np.eye(4)
    A = ref.hom(ref.qmat(f["q"]) @ ref.rotm(f["dq"][0], f["dq"][1] * t), np.array(f["p"]) + t * np.array(f["dp"]))
    return world(fr, f["parent"], t) @ A


def to_quat(R):
    """x, y, z, w of a rotation matrix, by its dominant component."""
    K = np.array([[1 + R[0, 0] + R[1, 1] + R[2, 2], R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]],
                  [R[2, 1] - R[1, 2], 1 + R[0, 0] - R[1, 1] - R[2, 2], R[0, 1] + R[1, 0], R[0, 2] + R[2, 0]],
                  [R[0, 2] - R[2, 0], R[0, 1] + R[1, 0], 1 - R[0, 0] + R[1, 1] - R[2, 2], R[1, 2] + R[2, 1]],
                  [R[1, 0] - R[0, 1], R[0, 2] + R[2, 0], R[1, 2] + R[2, 1], 1 - R[0, 0] - R[1, 1] + R[2, 2]]])
    v = K[int(np.argmax(np.diag(K)))]
    v = v / np.linalg.norm(v)
    return np.array([v[1], v[2], v[3], v[0]])


@sub("C25", "history", gen, 2400, 80000, shards=8, rule="a lookup of two different frames away from the identity, among other operations")
def run(x, rec):
    fr, n = x["fr"], len(x["fr"])
    names = [[s % i for i in range(n)] for s in ("frame_%d", "/frame_%d", "robot/Frame %d/", "%d")][x.get("names", 0)]
    names[0] = ["map", "/map", "/", "world"][x.get("names", 0)]
    ros.TransformListener.instances.clear()
    ia = [((), {}), ((True,), {}), ((False, ros.Duration(10)), {})][x["init"]]
    kw = {} if x["init"] != 1 else dict(buffer_size=7)
    wr = [ros_tf.TransformListener(*ia[0], **kw), ros_tf.TransformListener()]
    ls = list(ros.TransformListener.instances)
    require(len(ls) == 2 and ls[0].init == (ia[0], kw) and ls[1].init == ((), {}), "constructor arguments did not pass through", got=[l.init for l in ls])
    kept = []      # earlier results stay as they were, whatever is asked or done to another result
    for n_op, o in enumerate(x["ops"]):
        for T, s in kept:
            require((np.array(T.R).tolist(), np.array(T.p).tolist(), T.parent_frame_id, T.child_frame_id) == s, "a Transform returned earlier changed", got=T, expected=s)
        if kept and o["poll"] == 1:      # the user moves a result by hand
            T = kept.pop(n_op % len(kept))[0]
            T.p = T.p + 1.0
            T.parent_frame_id = "mine"
        w, l = wr[o["w"]], ls[o["w"]]
        a, b, c = (names[i] for i in o["f"])
        t1, t2 = ros.Time(o["t"][0], 5 if o["t"][0] else 0), ros.Time(o["t"][1], 6 if o["t"][1] else 0)
        other = len(ls[1 - o["w"]].log)
        err = getattr(ros, ERR[o["fail"] % len(ERR)])("no luck") if o["err"] else None
        said = {}

        def answer(name, k):
            if err is not None:
                raise err
            if name == "lookupTransform":
                t = 0.1 * k["time"].secs
                T = ref.hinv(world(fr, names.index(k["target"]), t)) @ world(fr, names.index(k["source"]), t)
            elif name == "lookupTransformFull":
                # through the fixed frame, each end at its own time
                s1, s2, f = 0.1 * k["target_time"].secs, 0.1 * k["source_time"].secs, names.index(k["fixed"])
                T = ref.hinv(ref.hinv(world(fr, f, s1)) @ world(fr, names.index(k["target"]), s1)) @ ref.hinv(world(fr, f, s2)) @ world(fr, names.index(k["source"]), s2)
            else:
                return said.setdefault("r", o["ans"])
            q = to_quat(T[:3, :3]) * o["sgn"]
            t = [float(v) for v in T[:3, 3]]
            q = [float(v) for v in q]
            s = o["style"]
            said["t"], said["q"] = list(t), list(q)
            return (t, q) if s == 0 else (tuple(t), tuple(q)) if s == 1 else [np.array(t), np.array(q)]
        l.answer = answer
        l.log.clear()
        op, k = o["op"], o["kw"]
        n0 = o["notime"]
        lookup = op.startswith("lookup") or op == "chain"
        if op in ("lookup", "chain"):
            t1 = ros.Time(0) if n0 else t1
            f = (lambda: w.lookupTransform(a, b)) if n0 else (lambda: w.lookupTransform(target_frame=a, source_frame=b, time=t1)) if k else (lambda: w.lookupTransform(a, b, t1))
            want = ("lookupTransform", dict(target=a, source=b, time=t1))
        elif op == "lookupFull":
            f = (lambda: w.lookupTransformFull(target_frame=a, target_time=t1, source_frame=b, source_time=t2, fixed_frame=c)) if k else (lambda: w.lookupTransformFull(a, t1, b, t2, c))
            want = ("lookupTransformFull", dict(target=a, target_time=t1, source=b, source_time=t2, fixed=c))
        elif op == "can":
            t1 = ros.Time(0) if n0 else t1
            f = (lambda: w.canTransform(a, b)) if n0 else (lambda: w.canTransform(target_frame=a, source_frame=b, time=t1)) if k else (lambda: w.canTransform(a, b, t1))
            want = ("canTransform", dict(target=a, source=b, time=t1))
        elif op == "canFull":
            f = (lambda: w.canTransformFull(target_frame=a, target_time=t1, source_frame=b, source_time=t2, fixed_frame=c)) if k else (lambda: w.canTransformFull(a, t1, b, t2, c))
            want = ("canTransformFull", dict(target=a, target_time=t1, source=b, source_time=t2, fixed=c))
        elif op in ("wait", "waitFull"):
            to = ros.Duration(2, o["t"][0]) if o["t"][0] else ros.Duration(0)
            po = [None, ros.Duration(0, 11), ros.Duration(0, 12), ros.Duration(0)][o["poll"]]      # a zero duration is falsy
            pk = {} if po is None else dict(polling_sleep_duration=po)
            pa = () if po is None else (po,)
            if op == "wait":
                f = (lambda: w.waitForTransform(target_frame=a, source_frame=b, time=t1, timeout=to, **pk)) if k else (lambda: w.waitForTransform(a, b, t1, to, *pa))
                want = ("waitForTransform", dict(target=a, source=b, time=t1, timeout=to, poll=po))
            else:
                f = (lambda: w.waitForTransformFull(target_frame=a, target_time=t1, source_frame=b, source_time=t2, fixed_frame=c, timeout=to, **pk)) if k else \
                    (lambda: w.waitForTransformFull(a, t1, b, t2, c, to, *pa))
                want = ("waitForTransformFull", dict(target=a, target_time=t1, source=b, source_time=t2, fixed=c, timeout=to, poll=po))
        else:
            f = w.clear
            want = ("clear", {})
        try:
            r = f()
            raised = None
        except Exception as e:
            raised = e
        if err is not None:
            require(raised is err, "the listener's error did not propagate from %s" % want[0], got=raised if raised is not None else r, expected=err)
            rec.cls("error")
        elif raised is not None:
            raise raised
        require(l.log == [want], "the listener did not get the arguments of the call", got=l.log, expected=want)
        require(len(ls[1 - o["w"]].log) == other, "another listener was asked")
        if err is not None:
            continue
        if lookup:
            q = said["q"]
            R = ref.qmat([q[3], q[0], q[1], q[2]])
            require(isinstance(r, rox.Transform), "lookup result", got=r)
            require(np.allclose(r.R, R, atol=1e-8, rtol=0), "rotation is not the listener's", got=r.R, expected=R)
            require(np.asarray(r.p).shape == (3,) and np.asarray(r.p, float).tolist() == said["t"], "translation is not the listener's", got=r.p, expected=said["t"])
            require(r.parent_frame_id == a and r.child_frame_id == b, "frame labels", got=(r.parent_frame_id, r.child_frame_id), expected=(a, b))
            if o["f"][0] != o["f"][1] and float(np.max(np.abs(R - np.eye(3)))) > 1e-3:
                rec.nontriv(want[0])
            require(all(r is not T for T, _ in kept), "a lookup handed out an earlier result", got=r)
            kept.append((r, (np.array(r.R).tolist(), np.array(r.p).tolist(), r.parent_frame_id, r.child_frame_id)))
            if op == "chain":
                u = w.lookupTransform(b, c, t1)
                v = w.lookupTransform(a, c, t1)
                p = r * u
                require(np.allclose(p.R, v.R, atol=1e-7) and np.allclose(p.p, v.p, atol=1e-6), "lookups do not chain", got=p, expected=v)
                require((p.parent_frame_id, p.child_frame_id) == (v.parent_frame_id, v.child_frame_id) == (a, c), "chained frame labels")
                rec.cls("chained")
        elif op != "clear":
            require(r is said["r"] or r == said["r"], "result of %s changed" % want[0], got=r, expected=said["r"])
            rec.cls(op)
