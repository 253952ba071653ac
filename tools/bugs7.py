"""Planted bugs, seventh batch."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs3 import G, I, U, Y, M, F, T, OPW, UR, URDF1, TESS
from bugs4 import RR, ROS
TFS = '''
import sys, types
class Lst(object):
    def __init__(self): self.calls = []
    def __getattr__(self, n):
        def f(*a):
            self.calls.append((n, a)); return ([0, 0, 0], [0, 0, 0, 1.0]) if n.startswith("lookup") else True
        return f
rospy = types.ModuleType("rospy")
class Time(object):
    def __init__(self, s=0): self.s = s
    def __eq__(self, o): return self.s == o.s
    @staticmethod
    def now(): return Time(99)
rospy.Time = Time
tf = types.ModuleType("tf"); tf.TransformListener = Lst
tf2 = types.ModuleType("tf2_ros")
for n in ("TransformException", "ConnectivityException", "LookupException", "ExtrapolationException"): setattr(tf2, n, type(n, (Exception,), {}))
sys.modules.update(rospy=rospy, tf=tf, tf2_ros=tf2)
from general_robotics_toolbox import ros_tf
L = ros_tf.TransformListener()
'''
BUGS = [
dict(id="screw-rounds", property="C07", file=G, edits=[("    G[0:3,3:6] = hat(r)\n", "    G[0:3,3:6] = np.round(hat(r), 7)\n")],
     needs="a displacement with digits below a tenth of a micrometre", breaks="twists and wrenches are carried to a slightly different point",
     demo="r = np.array([1.00000004, 0, 0])\nassert abs(rox.screw_matrix(r)[2, 4] - 1.00000004) < 1e-10"),
dict(id="ur-sort-wrapped", property="C16", file=I, edits=[("        theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)\n        return [theta_v[i] for i in list(np.argsort(theta_dist))]\n    else:\n        return theta_v\n\n\n\ndef equ", "        theta_dist = np.linalg.norm(np.mod(np.subtract(theta_v,last_joints) + np.pi, 2*np.pi) - np.pi, axis=1)\n        return [theta_v[i] for i in list(np.argsort(theta_dist))]\n    else:\n        return theta_v\n\n\n\ndef equ")],
     needs="previous joints and limits that keep a joint from being turned next to them", breaks="the first configuration is not the closest",
     demo=UR + '''
r = ur(np.full(6, -np.pi), np.full(6, np.pi)); q = np.array([3.1, -1.0, 1.2, -0.7, 0.9, -0.4])
last = np.array([-3.1, -1.0, 1.2, -0.7, 0.9, -0.4])
s = ik.ur_invkin(r, rox.fwdkin(r, q), last)
d = [np.linalg.norm(v - last) for v in s]
assert d == sorted(d), d
'''),
dict(id="rr-type-prefix", property="C23", file=Y, edits=[("        if j[\"joint_type\"] == \"revolute\":\n", "        if str(j[\"joint_type\"]).startswith(\"rev\"):\n")],
     needs="an unsupported joint type with a similar name", breaks="it is taken for a revolute joint",
     demo=RR + "d = info(); d['joint_info'][0]['joint_type'] = 'revolute_prismatic'\ntry:\n    rr.load_robot_info_yaml_to_robot(d)\nexcept ValueError:\n    raise SystemExit(0)\nraise SystemExit(1)"),
dict(id="rr-null-limits-default", property="C23", file=Y, edits=[("        if j[\"joint_limits\"] is None:\n            raise ValueError(\"joint_limits must not be null\")\n", "        if j[\"joint_limits\"] is None:\n            if joint_type[i] == 0:\n                raise ValueError(\"joint_limits must not be null\")\n            continue\n")],
     needs="null limits on a prismatic joint", breaks="the joint is loaded with limits of zero and no name",
     demo=RR + "d = info(2); d['joint_info'][1].update(joint_type='prismatic', joint_limits=None)\ntry:\n    rr.load_robot_info_yaml_to_robot(d)\nexcept ValueError:\n    raise SystemExit(0)\nraise SystemExit(1)"),
dict(id="tf-poll-or-none", property="C25", file=F, edits=[("        return self.ros_listener.waitForTransform(target_frame, source_frame, time, timeout, polling_sleep_duration)\n", "        return self.ros_listener.waitForTransform(target_frame, source_frame, time, timeout, polling_sleep_duration or None)\n")],
     needs="a falsy polling duration", breaks="the listener gets None",
     demo=TFS + "L.waitForTransform('a', 'b', Time(1), 2, 0)\nassert L.ros_listener.calls[-1][1][4] == 0 and L.ros_listener.calls[-1][1][4] is not None"),
dict(id="tf-default-now", property="C25", file=F, edits=[("    def lookupTransform(self, target_frame, source_frame, time = rospy.Time(0)):\n        \"\"\"Lookup a transform. Returns rox.Transform\"\"\"\n", "    def lookupTransform(self, target_frame, source_frame, time = None):\n        \"\"\"Lookup a transform. Returns rox.Transform\"\"\"\n        if not time:\n            time = rospy.Time.now()\n")],
     needs="a lookup without a time", breaks="the transform of now is asked for instead of the latest",
     demo=TFS + "L.lookupTransform('a', 'b')\nassert L.ros_listener.calls[-1][1][2] == Time(0)"),
dict(id="tess-single-precision", property="C26", file=T, edits=[("        frames = kin_group.calcFwdKin(theta)\n", "        frames = kin_group.calcFwdKin(np.asarray(theta, dtype=np.float32).astype(np.float64))\n")],
     needs="a comparison finer than single precision", breaks="the pose differs from the toolbox's",
     demo=TESS + "a = arm(3); t = rt.TesseractRobot(a); q = np.array([1.1, 2.3, -0.7])\nassert np.allclose(t.fwdkin(q).R, rox.fwdkin(a, q).R, rtol=0, atol=1e-10)"),
dict(id="tess-zero-acceleration", property="C28", file=T, edits=[("    joint.limits = JointLimits(joint_lower_limit, joint_upper_limit, joint_effort_limit,\n         joint_vel_limit, joint_acc_limit)\n", "    joint.limits = JointLimits(joint_lower_limit, joint_upper_limit, joint_effort_limit,\n         joint_vel_limit, joint_acc_limit or joint_vel_limit)\n")],
     needs="a joint with an acceleration limit of zero", breaks="the environment has another limit",
     demo=TESS + "sg = rt.robot_to_scene_graph(arm(2, joint_vel_limit=np.array([2.0, 3.0]), joint_acc_limit=np.array([1.0, 0.0])))\nassert sg.getJoint('joint_2').limits.acceleration == 0"),
dict(id="tess-redundant-margin", property="C29", file=T, edits=[("    redun_sol = getRedundantSolutions(theta, limits.joint_limits, redundancy_indices)\n", "    redun_sol = getRedundantSolutions(theta, limits.joint_limits*(1 - 1e-3), redundancy_indices)\n")],
     needs="an alternative close to a limit", breaks="it is not reported",
     demo=TESS + "t = rt.TesseractRobot(arm(6)); q = np.zeros(6); q[0] = 6.998 - 2*np.pi\nassert any(abs(s[0] - 6.998) < 1e-9 for s in t.redundant_solutions(q))"),
dict(id="rpy-near-gimbal", property="C05", file=G, edits=[("    r=np.arctan2(R[2,1],R[2,2])\n    y=np.arctan2(R[1,0], R[0,0])\n", "    r=np.arctan2(R[2,1],R[2,2])\n    y=np.arctan2(R[1,0], R[0,0])\n    if np.linalg.norm(R[0:2,0]) < 1e-5:\n        r=0.0\n        y=np.arctan2(-R[0,1], R[1,1])\n")],
     needs="a pitch within a hundred thousandth of a quarter turn", breaks="the triple that was put in is not recovered",
     demo="t = (0.4, math.pi/2 - 1e-6, -0.9)\nassert np.allclose(rox.R2rpy(rox.rpy2R(t)), t, atol=1e-5)"),
dict(id="slerp-snaps-end", property="C06", file=G, edits=[("    if (np.abs(theta) < 1e-6):\n        return q0\n", "    if (np.abs(theta) < 1e-6):\n        return q0\n    if t > 1 - 1e-4:\n        return q1\n")],
     needs="a fraction within a ten-thousandth of one", breaks="the rotation jumps to the end",
     demo="q0 = np.array([1.0, 0, 0, 0]); q1 = rox.rot2q(np.array([0, 0, 1.0]), 3.0); k, a = rox.q2rot(rox.slerp(q0, q1, 1 - 5e-5))\nassert abs(a - 3.0*(1 - 5e-5)) < 1e-9"),
dict(id="transform-any-three", property="C08", file=G, edits=[("        assert (np.shape(p) == (3,) or np.shape(p) ==(3,1))\n", "        assert (np.size(p) == 3)\n")],
     needs="a row instead of a column position", breaks="the badly shaped position is accepted",
     demo="try:\n    rox.Transform(np.eye(3), np.zeros((1, 3)))\nexcept AssertionError:\n    raise SystemExit(0)\nraise SystemExit(1)"),
dict(id="ur-q4-unchecked", property="C14", file=I, edits=[("                q4 = q24 - q2 - q3\n                q4 = normalize(3, [q4])\n                if len(q4) == 0:\n                    continue\n                q4 = q4[0]\n", "                q4 = q24 - q2 - q3\n                q4 = (normalize(3, [q4]) + [q4])[0]\n")],
     needs="narrow limits on the fourth joint", breaks="configurations outside the limits are returned",
     demo=UR + '''
lo, up = np.full(6, -np.pi), np.full(6, np.pi); lo[3], up[3] = -1.0, -0.5
r = ur(lo, up); q = np.array([0.3, -1.0, 1.2, -0.7, 0.9, -0.4])
for v in ik.ur_invkin(r, rox.fwdkin(r, q)):
    assert np.all(v >= lo) and np.all(v <= up), v
'''),
dict(id="urdf-default-axis-z", property="C20", file=U, edits=[("    for c in chain:\n        j = urdf_robot.joint_map[c]\n", "    for c in chain:\n        j = urdf_robot.joint_map[c]\n        if j.joint_type == 'prismatic' and j.axis is None:\n            j.axis = [0, 0, 1]\n")],
     needs="a prismatic joint without an axis element", breaks="it slides along z instead of x",
     demo=URDF1 + '''
x = doc(link("a"), link("b"), joint("j", "a", "b", "prismatic").replace('<axis xyz="0 0 1"/>', ''))
assert abs(rox.fwdkin(u.robot_from_xml_string(x), [0.5]).p[0] - 0.5) < 1e-9
'''),
]
