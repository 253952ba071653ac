"""Planted bugs, fifth batch."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs3 import G, I, U, Y, M, F, T, OPW, UR, URDF1, TESS
from bugs4 import RR, ROS
BUGS = [
dict(id="rot-memo", property="C19", file=G, edits=[("    I = np.identity(3)\n    khat = hat(k)\n    khat2 = khat.dot(khat)\n    return I + math.sin(theta)*khat + (1.0 - math.cos(theta))*khat2\n",
     "    key = (np.array(k,dtype=np.float64).tobytes(), float(theta))\n    if rot.last is not None and rot.last[0] == key:\n        return rot.last[1]\n    I = np.identity(3)\n    khat = hat(k)\n    khat2 = khat.dot(khat)\n    rot.last = (key, I + math.sin(theta)*khat + (1.0 - math.cos(theta))*khat2)\n    return rot.last[1]\n\nrot.last = None\n")],
     needs="two calls in a row with the same axis and angle, the first result edited in between", breaks="the second answer is the edited first one",
     demo="k = np.array([0, 0, 1.0]); R = rox.rot(k, 0.3); R[0, 0] = 5.0\nassert rox.rot(k, 0.3)[0, 0] < 1"),
dict(id="mul-skips-identity", property="C08", file=G, edits=[("    def __mul__(self, other):\n", "    def __mul__(self, other):\n        if np.array_equal(other.R, np.identity(3)) and not np.any(other.p):\n            return self\n")],
     needs="composition with an identity transform that has a child frame, or an edit of the product", breaks="the product has the wrong child frame and is the left factor itself",
     demo="a = rox.Transform(np.eye(3), [1.0, 0, 0], 'a', 'b'); e = rox.Transform(np.eye(3), [0.0, 0, 0], 'b', 'c')\nassert (a*e).child_frame_id == 'c'"),
dict(id="axis-norm-loose", property="C11", file=G, edits=[("            assert (np.isclose(np.linalg.norm(H[:,i]), 1))        \n", "            assert (np.isclose(np.linalg.norm(H[:,i]), 1, rtol=5e-2))        \n")],
     needs="an axis a few per cent too long or too short", breaks="the malformed model is accepted",
     demo="try:\n    rox.Robot(np.array([[0, 0, 1.02]]).T, np.zeros((3, 2)), [0])\nexcept Exception:\n    pass\nelse:\n    raise SystemExit('accepted')"),
dict(id="sub0-sign-slack", property="C12", file=G, edits=[("    if (np.dot(k,np.cross(p , q)) < 0):\n", "    if (np.dot(k,np.cross(p , q)) < -1e-4):\n")],
     needs="a small negative angle, or short vectors", breaks="the angle has the wrong sign",
     demo="k = np.array([0, 0, 1.0]); p = np.array([0.005, 0, 0]); q = rox.rot(k, -1.0) @ p\nassert abs(rox.subproblem1(p, q, k) + 1.0) < 1e-6 and abs(rox.subproblem0(p, q, k) + 1.0) < 1e-6"),
dict(id="iter-signed-error", property="C18", file=I, edits=[("        converged = (np.abs(np.hstack((s,EP))) < tol).all()\n", "        converged = (np.abs(s) < tol).all() and (np.abs(EP).sum() < 3*tol or (EP < tol).all() and np.dot(EP,EP) < 16*tol**2)\n")],
     needs="an error that is between one and four tolerances in a negative direction at a step", breaks="convergence is reported although the pose is not reached to the tolerance",
     demo='''
H = np.array([[0, 0, 1.0], [0, 1, 0], [1, 0, 0]]).T
r = rox.Robot(H, np.zeros((3, 4)), [1, 1, 1])
T = rox.Transform(np.eye(3), np.array([0.0, 0.0, 0.03]))
ok, q = ik.iterative_invkin(r, T, [0.0, 0, 0], 1, tol=0.01)
assert not ok
'''),
dict(id="urdf-shared-zero", property="C20", file=U, edits=[("        p_tool = np.zeros((3,))             \n", "        p_tool = _zero_p\n"), ("def _rpy_to_rot(rpy):\n", "_zero_p = np.zeros((3,))\n\ndef _rpy_to_rot(rpy):\n")],
     needs="two robots loaded, the tool position of one edited in place", breaks="the other robot gets the tool as well",
     demo=URDF1 + '''
x = doc(link("a"), link("b"), joint("j", "a", "b"))
r = u.robot_from_xml_string(x); r.p_tool[2] = 0.3
s = u.robot_from_xml_string(x)
assert np.allclose(s.p_tool, 0), s.p_tool
'''),
dict(id="rr-name-basename", property="C22", file=Y, edits=[("    if isinstance(identifier, str):\n        return identifier\n", "    if isinstance(identifier, str):\n        return identifier.split(\"|\")[0]\n")],
     needs="an identifier with a bar in it", breaks="the joint or link name is cut",
     demo=RR + "d = info(); d['joint_info'][0]['joint_identifier'] = 'arm|joint1'\nassert rr.load_robot_info_yaml_to_robot(d).joint_names == ['arm|joint1']"),
dict(id="rr-name-strips", property="C22", file=Y, edits=[("        return identifier[\"name\"]\n", "        return identifier[\"name\"].strip().lower()\n")],
     needs="an identifier mapping whose name has capitals or blanks at the ends", breaks="the name differs from the document's",
     demo=RR + "d = info(); d['joint_info'][0]['joint_identifier'] = dict(name='Joint1')\nassert rr.load_robot_info_yaml_to_robot(d).joint_names == ['Joint1']"),
dict(id="tf-strips-slash", property="C25", file=F, edits=[("        t,r = self.ros_listener.lookupTransform(target_frame, source_frame, time)\n        q=[r[3], r[0], r[1], r[2]]\n        return rox.Transform(rox.q2R(q), t, target_frame, source_frame)\n", "        t,r = self.ros_listener.lookupTransform(target_frame, source_frame, time)\n        q=[r[3], r[0], r[1], r[2]]\n        return rox.Transform(rox.q2R(q), t, target_frame.lstrip('/'), source_frame.lstrip('/'))\n")],
     needs="a frame name with a leading slash", breaks="the frame names of the result are not the requested ones",
     demo='''
import sys, types
for n in ("tf", "rospy", "tf2_ros"): sys.modules[n] = types.ModuleType(n)
class L:
    def __init__(self, *a, **k): pass
    def lookupTransform(self, a, b, t): return (1.0, 0.0, 0.0), (0.0, 0.0, 0.0, 1.0)
sys.modules["tf"].TransformListener = L
sys.modules["rospy"].Time = lambda *a: a
for n in ("TransformException", "ConnectivityException", "LookupException", "ExtrapolationException"): setattr(sys.modules["tf2_ros"], n, type(n, (Exception,), {}))
from general_robotics_toolbox import ros_tf
T = ros_tf.TransformListener().lookupTransform("/map", "/tool")
assert (T.parent_frame_id, T.child_frame_id) == ("/map", "/tool")
'''),
dict(id="tess-base-suffix", property="C26", file=T, edits=[("        if base_link_name is None:\n            return isometry3d_to_transform(tip_link)\n        else:\n            base_link = frames[base_link_name]\n", "        if base_link_name is None or base_link_name.startswith(\"world\"):\n            return isometry3d_to_transform(tip_link)\n        else:\n            base_link = frames[base_link_name]\n")],
     needs="a robot whose name begins with the word world, and a base frame other than the world", breaks="the pose is given in the world frame",
     demo=TESS + '''
H = np.array([[0, 0, 1.0], [0, 1, 0]]).T
P = np.array([[0, 0, 0.5], [0.3, 0, 0], [0.2, 0, 0]]).T
r = rox.Robot(H, P, [0, 0], -np.ones(2), np.ones(2), np.ones(2), np.ones(2), T_base=rox.Transform(np.eye(3), [0, 0, 2.0]))
t = rt.TesseractRobot(r, "world2")
assert abs(t.fwdkin(np.zeros(2), "world2_base_link").p[2] - 0.5) < 1e-9
'''),
dict(id="quatproduct-buffer", property="C04", file=G, edits=[("    I = np.identity(3)\n    Q = np.zeros((4,4))\n", "    I = np.identity(3)\n    Q = _Q\n"), ("def quatproduct(q):\n", "_Q = np.zeros((4,4))\n\ndef quatproduct(q):\n")],
     needs="two product matrices held at the same time", breaks="the first one becomes the second",
     demo="a = rox.quatproduct(np.array([1.0, 0, 0, 0])); b = rox.quatproduct(np.array([0, 1.0, 0, 0]))\nassert a[0, 0] == 1"),
dict(id="opw-flange-symmetric", property="C14", file=G, edits=[("        T_ret = T_ret * robot.T_flange.inv()\n", "        T_ret = T_ret * (robot.T_flange.inv() if robot.R_tool is None or np.any(robot.p_tool) else Transform(robot.T_flange.R.T, -np.array(robot.T_flange.p)))\n")],
     needs="a flange that both turns and shifts, and a tool that only turns", breaks="the configurations do not reach the pose",
     demo=OPW + '''
r = opw(R_tool=rox.rot([1.0, 0, 0], 0.4), p_tool=np.zeros(3), T_flange=rox.Transform(rox.rot([0, 1.0, 0], np.pi/2), [0.1, 0, 0.02]))
q = np.array([0.3, 0.2, 0.4, 0.3, 0.6, -0.2]); T = rox.fwdkin(r, q)
s = ik.robot6_sphericalwrist_invkin(r, T)
assert s and all(rox.fwdkin(r, v).isclose(T) for v in s)
'''),
]
