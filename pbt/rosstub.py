"""Stand-ins for the ROS 1 python packages, with the field names, field order
and constructor conventions of the generated message classes and the method
signatures of tf.TransformListener."""
import sys, types


def _msg(name, fields, ros_type):
    slots = [f for f, _ in fields]
    dflt = dict(fields)

    def __init__(self, *args, **kw):
        if args and kw and False:
            raise TypeError
        if args:
            if len(args) != len(slots):
                raise TypeError("Invalid number of arguments, args should be %s" % slots)
            for k, v in zip(slots, args):
                setattr(self, k, v)
            for k in kw:
                raise AttributeError("%s given twice" % k)
            return
        for k in kw:
            if k not in slots:
                raise AttributeError("%s is not an attribute of %s" % (k, name))
        for k in slots:
            v = kw.get(k)
            if v is None:
                d = dflt[k]
                v = d() if callable(d) else d
            setattr(self, k, v)

    def state(self):
        return tuple(v.state() if hasattr(v, "state") else v for v in (getattr(self, k) for k in slots))

    def __eq__(self, o):
        return type(o) is type(self) and self.state() == o.state()

    def __repr__(self):
        return "%s(%s)" % (name, ", ".join("%s=%r" % (k, getattr(self, k)) for k in slots))
    return type(name, (object,), dict(__slots__=slots, __init__=__init__, state=state, __eq__=__eq__, __repr__=__repr__, __hash__=None, _type=ros_type))


class Time(object):
    def __init__(self, secs=0, nsecs=0):
        self.secs, self.nsecs = int(secs), int(nsecs)

    def __eq__(self, o):
        return type(o) is type(self) and (self.secs, self.nsecs) == (o.secs, o.nsecs)

    def __hash__(self):
        return hash((self.secs, self.nsecs))

    def __bool__(self):      # as in genpy
        return bool(self.secs or self.nsecs)

    @classmethod
    def now(cls):
        return cls(1700000000, 0)

    def __repr__(self):
        return "%s(%d, %d)" % (type(self).__name__, self.secs, self.nsecs)


class Duration(Time):
    pass


G = dict
_f = [("x", 0.0), ("y", 0.0), ("z", 0.0)]
Vector3 = _msg("Vector3", _f, "geometry_msgs/Vector3")
Point = _msg("Point", _f, "geometry_msgs/Point")
Quaternion = _msg("Quaternion", _f + [("w", 0.0)], "geometry_msgs/Quaternion")
Header = _msg("Header", [("seq", 0), ("stamp", Time), ("frame_id", "")], "std_msgs/Header")
Pose = _msg("Pose", [("position", Point), ("orientation", Quaternion)], "geometry_msgs/Pose")
Transform = _msg("Transform", [("translation", Vector3), ("rotation", Quaternion)], "geometry_msgs/Transform")
Twist = _msg("Twist", [("linear", Vector3), ("angular", Vector3)], "geometry_msgs/Twist")
Wrench = _msg("Wrench", [("force", Vector3), ("torque", Vector3)], "geometry_msgs/Wrench")
TransformStamped = _msg("TransformStamped", [("header", Header), ("child_frame_id", ""), ("transform", Transform)], "geometry_msgs/TransformStamped")
PoseStamped = _msg("PoseStamped", [("header", Header), ("pose", Pose)], "geometry_msgs/PoseStamped")
# never accepted by the toolbox
TwistStamped = _msg("TwistStamped", [("header", Header), ("twist", Twist)], "geometry_msgs/TwistStamped")
WrenchStamped = _msg("WrenchStamped", [("header", Header), ("wrench", Wrench)], "geometry_msgs/WrenchStamped")
PointStamped = _msg("PointStamped", [("header", Header), ("point", Point)], "geometry_msgs/PointStamped")
QuaternionStamped = _msg("QuaternionStamped", [("header", Header), ("quaternion", Quaternion)], "geometry_msgs/QuaternionStamped")
Pose2D = _msg("Pose2D", [("x", 0.0), ("y", 0.0), ("theta", 0.0)], "geometry_msgs/Pose2D")
PoseWithCovariance = _msg("PoseWithCovariance", [("pose", Pose), ("covariance", list)], "geometry_msgs/PoseWithCovariance")
PoseWithCovarianceStamped = _msg("PoseWithCovarianceStamped", [("header", Header), ("pose", PoseWithCovariance)], "geometry_msgs/PoseWithCovarianceStamped")
PoseArray = _msg("PoseArray", [("header", Header), ("poses", list)], "geometry_msgs/PoseArray")
Odometry = _msg("Odometry", [("header", Header), ("child_frame_id", ""), ("pose", PoseWithCovariance), ("twist", Twist)], "nav_msgs/Odometry")

OTHER = [Vector3, Point, Quaternion, Header, Twist, Wrench, TwistStamped, WrenchStamped, PointStamped, QuaternionStamped, Pose2D, PoseWithCovariance,
         PoseWithCovarianceStamped, PoseArray, Odometry]


class TransformException(Exception):
    pass


class ConnectivityException(TransformException):
    pass


class LookupException(TransformException):
    pass


class ExtrapolationException(TransformException):
    pass


class InvalidArgumentException(TransformException):
    pass


class TimeoutException(TransformException):
    pass


class TransformListener(object):
    """Records every call and answers with `answer(name, bound arguments)`."""
    instances = []

    def __init__(self, *args, **kwargs):
        self.init = (args, kwargs)
        self.log = []
        self.answer = None
        TransformListener.instances.append(self)

    def _call(self, name, **kw):
        self.log.append((name, kw))
        return self.answer(name, kw)

    def canTransform(self, target_frame, source_frame, time):
        return self._call("canTransform", target=target_frame, source=source_frame, time=time)

    def canTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame):
        return self._call("canTransformFull", target=target_frame, target_time=target_time, source=source_frame, source_time=source_time, fixed=fixed_frame)

    def waitForTransform(self, target_frame, source_frame, time, timeout, polling_sleep_duration=None):
        return self._call("waitForTransform", target=target_frame, source=source_frame, time=time, timeout=timeout, poll=polling_sleep_duration)

    def waitForTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame, timeout, polling_sleep_duration=None):
        return self._call("waitForTransformFull", target=target_frame, target_time=target_time, source=source_frame, source_time=source_time, fixed=fixed_frame,
                          timeout=timeout, poll=polling_sleep_duration)

    def clear(self):
        return self._call("clear")

    def lookupTransform(self, target_frame, source_frame, time):
        return self._call("lookupTransform", target=target_frame, source=source_frame, time=time)

    def lookupTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame):
        return self._call("lookupTransformFull", target=target_frame, target_time=target_time, source=source_frame, source_time=source_time, fixed=fixed_frame)


def install():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    me = globals()
    gm = {k: me[k] for k in ("Quaternion", "Point", "Vector3", "Pose", "Twist", "Wrench", "Transform", "TransformStamped", "PoseStamped", "TwistStamped",
                             "WrenchStamped", "PointStamped", "QuaternionStamped", "Pose2D", "PoseWithCovariance", "PoseWithCovarianceStamped", "PoseArray")}
    g = mod("geometry_msgs")
    g.msg = mod("geometry_msgs.msg", **gm)
    s = mod("std_msgs")
    s.msg = mod("std_msgs.msg", Header=Header)
    mod("rospy", Time=Time, Duration=Duration)
    ex = {k: me[k] for k in ("TransformException", "ConnectivityException", "LookupException", "ExtrapolationException", "InvalidArgumentException", "TimeoutException")}
    mod("tf2_ros", **ex)
    mod("tf", TransformListener=TransformListener, Exception=TransformException, LookupException=LookupException, ConnectivityException=ConnectivityException,
        ExtrapolationException=ExtrapolationException)
