import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs3 import G, I, U, Y, M, F, T, OPW, UR, URDF1, TESS
RR = '''
from general_robotics_toolbox import robotraconteur as rr
v = lambda x, y, z: dict(x=x, y=y, z=z)
def tf(z=0.0, w=1.0): return dict(orientation=dict(w=w, x=0.0, y=0.0, z=(1-w*w)**0.5), position=v(0, 0, z))
def info(n=1, nums=None, **chain):
    c = dict(joint_numbers=list(range(n)) if nums is None else nums, link_identifiers=None, H=[v(0, 0, 1.0)]*n, P=[v(0, 0, 0)]*(n+1), flange_identifier=None, flange_pose=tf())
    c.pop("link_identifiers")
    c.update(chain)
    return dict(chains=[c], joint_info=[dict(joint_type="revolute", joint_limits=dict(lower=-1, upper=1, velocity=1, acceleration=1), joint_identifier=None) for _ in range(n)])
'''
ROS = '''
import sys, types
def cls(name, **f):
    def init(self, *a, **k):
        for n, d in f.items(): setattr(self, n, d() if callable(d) else d)
        for n, x in zip(f, a): setattr(self, n, x)
        for n in k: setattr(self, n, k[n])
    return type(name, (object,), dict(__init__=init))
g = types.ModuleType("geometry_msgs"); m = types.ModuleType("geometry_msgs.msg"); g.msg = m
V = dict(x=0.0, y=0.0, z=0.0)
m.Quaternion = cls("Quaternion", w=0.0, **V); m.Quaternion.__init__ = cls("q", x=0.0, y=0.0, z=0.0, w=0.0).__init__
m.Point = cls("Point", **V); m.Vector3 = cls("Vector3", **V); H = cls("Header", seq=0, stamp=0, frame_id="")
m.Pose = cls("Pose", position=m.Point, orientation=m.Quaternion); m.Transform = cls("Transform", translation=m.Vector3, rotation=m.Quaternion)
m.Twist = cls("Twist", linear=m.Vector3, angular=m.Vector3); m.Wrench = cls("Wrench", force=m.Vector3, torque=m.Vector3)
m.TransformStamped = cls("TransformStamped", header=H, child_frame_id="", transform=m.Transform); m.PoseStamped = cls("PoseStamped", header=H, pose=m.Pose)
sys.modules["geometry_msgs"] = g; sys.modules["geometry_msgs.msg"] = m
from general_robotics_toolbox import ros_msg as rm
'''
BUGS = [
dict(id="slerp-half-turn-band", property="C06", file=G, edits=[("    if (np.dot(q0,q1) < 0):\n", "    if (np.dot(q0,q1) < -1e-3):\n")],
     needs="end rotations within a milliradian of half a turn apart, on the far side", breaks="the long way round is taken",
     demo="a = np.array([1.0, 0, 0, 0]); b = rox.rot2q(np.array([0, 0, 1.0]), np.pi+1e-3)\nk, t = rox.q2rot(rox.slerp(a, b, 1e-2))\nR = rox.q2R(rox.slerp(a, b, 0.5))\nassert R[1, 0] < 0, R"),
dict(id="unapply-cached-tool", property="C14", file=G, edits=[("    if robot.R_tool is not None and robot.p_tool is not None:\n        T_ret = T_ret * Transform(robot.R_tool, robot.p_tool).inv()\n", "    if robot.R_tool is not None and robot.p_tool is not None:\n        if getattr(robot, '_tool_inv', None) is None:\n            robot._tool_inv = Transform(robot.R_tool, robot.p_tool).inv()\n        T_ret = T_ret * robot._tool_inv\n")],
     needs="inverse kinematics, a change of tool, and inverse kinematics again", breaks="the configurations are for the previous tool",
     demo=OPW + '''
r = opw(R_tool=np.eye(3), p_tool=np.array([0, 0, 0.1]))
T = rox.Transform(np.eye(3), np.array([0.9, 0.1, 0.9]))
ik.robot6_sphericalwrist_invkin(r, T)
r.p_tool = np.array([0, 0, 0.2])
for q in ik.robot6_sphericalwrist_invkin(r, T):
    assert rox.fwdkin(r, q).isclose(T), q
'''),
dict(id="fwdkin-prismatic-in-place", property="C19", file=G, edits=[("            assert np.less_equal(theta, robot.joint_upper_limit).all(), \"Specified joints out of range\"\n    \n    p = robot.P[:,[0]]\n    R = np.identity(3)\n    for i in", "            assert np.less_equal(theta, robot.joint_upper_limit).all(), \"Specified joints out of range\"\n    \n    p = robot.P[:,0:1]\n    R = np.identity(3)\n    for i in"),
     ("            p = p + theta[i] * np.matmul(R,robot.H[:,[i]])\n", "            p += theta[i] * np.matmul(R,robot.H[:,[i]])\n")],
     needs="a robot whose first joint slides (gantry, linear track) and a float P", breaks="every call moves the robot's base offset",
     demo="r = rox.Robot(np.eye(3), np.zeros((3, 4)), [1, 0, 0])\nrox.fwdkin(r, [0.5, 0, 0])\nassert np.all(r.P == 0), r.P"),
dict(id="opw-elbow-lateral", property="C15", file=I, edits=[("    d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3])\n    v1 = p0T - R06.dot", "    d1 = np.dot(ey, P[:,1] + P[:,2])\n    v1 = p0T - R06.dot")],
     needs="an arm whose elbow link has a lateral offset", breaks="configurations are missed or wrong",
     demo=OPW + '''
r = opw(); r.P[1, 3] = 0.07
q = np.array([0.3, 0.2, 0.4, 0.3, 0.6, -0.2])
assert any(np.allclose(s, q, atol=1e-6) for s in ik.robot6_sphericalwrist_invkin(r, rox.fwdkin(r, q)))
'''),
dict(id="iter-small-angle", property="C18", file=I, edits=[("        s = np.sin(theta/2) * np.array(k)         #eR2\n", "        s = np.sin(theta/2) * np.array(k) if theta > 1e-4 or theta == 0.0 else np.zeros(3)\n")],
     needs="a tolerance tighter than a tenth of a milliradian", breaks="convergence is reported although the rotation is off",
     demo='''
H = np.array([[0, 0, 1.0], [0, 1, 0], [0, 1, 0], [1, 0, 0], [0, 1, 0], [1, 0, 0]]).T
r = rox.Robot(H, 0.1*np.ones((3, 7)), [0]*6)
q = np.array([0.1, 0.5, -0.7, 0.4, 0.8, 0.2]); T = rox.fwdkin(r, q)
ok, s = ik.iterative_invkin(r, T, q + 0.02, 1000, tol=1e-9)
assert (not ok) or np.max(np.abs(rox.fwdkin(r, s[0]).R - T.R)) < 1e-8
'''),
dict(id="urdf-small-rpy", property="C20", file=U, edits=[("            if j.origin.rpy is not None:\n                R = np.matmul", "            if j.origin.rpy is not None and not np.allclose(j.origin.rpy, 0.0, atol=1e-4):\n                R = np.matmul")],
     needs="a calibrated origin rotation below a tenth of a milliradian", breaks="the rotation is dropped",
     demo=URDF1 + '''
x = doc(link("a"), link("b"), joint("j", "a", "b")).replace('rpy="0 0 0"', 'rpy="0.00009 0 0"')
R = rox.fwdkin(u.robot_from_xml_string(x), [0.0]).R
assert abs(R[2, 1] - 0.00009) < 1e-9, R
'''),
dict(id="urdf-floating-first", property="C21", file=U, edits=[("            if any(map(lambda c: urdf_robot.joint_map[c].joint_type == 'floating', chain)):\n", "            if any(map(lambda c: urdf_robot.joint_map[c].joint_type == 'floating', chain[:1])):\n")],
     needs="a floating joint further down one of two branches", breaks="the only loadable chain is no longer picked",
     demo=URDF1 + '''
x = doc(link("a"), link("b"), link("c"), link("d"), joint("j", "a", "b"), joint("k", "a", "c"), joint("f", "c", "d", "floating", extra=""))
assert u.robot_from_xml_string(x).tip_link_name == "b"
'''),
dict(id="rr-tool-stacks", property="C22", file=Y, edits=[('    T_tool = _to_transform(tcp)\n    r_tool = T_tool.R\n    p_tool = T_tool.p\n    tool_device_info = tool_yml', '    T_tool = _to_transform(tcp)\n    if robot.R_tool is not None:\n        T_tool = rox.Transform(robot.R_tool, robot.p_tool) * T_tool\n    r_tool = T_tool.R\n    p_tool = T_tool.p\n    tool_device_info = tool_yml')],
     needs="a robot document with a current tool loaded with another tool", breaks="the tools are stacked instead of replaced",
     demo=RR + '''
d = info(current_tool=dict(tcp=tf(0.1), device_info=None))
r = rr.load_robot_and_tool_info_yaml_to_robot(d, dict(tcp=tf(0.3), device_info=dict(device=dict(name="t"))))
assert abs(r.p_tool[2] - 0.3) < 1e-9, r.p_tool
'''),
dict(id="msg-reuse-equal", property="C24", file=M, edits=[("    p2=np.reshape(p, (3,))\n    return Vector3(p2[0], p2[1], p2[2])\n", "    p2=np.reshape(p, (3,))\n    if not np.any(p2):\n        return _zero\n    return Vector3(p2[0], p2[1], p2[2])\n\n_zero = Vector3()\n")],
     needs="the message of a zero vector changed afterwards", breaks="messages of other zero vectors change with it",
     demo=ROS + "a = rm.p2msg([0, 0, 0]); a.x = 1.0\nassert rm.p2msg([0, 0, 0]).x == 0"),
dict(id="msg-pose-frame", property="C24", file=M, edits=[("    r=PoseStamped()\n    r.pose=Pose(p2point_msg(transform.p), R2msg(transform.R))    \n    if transform.parent_frame_id is not None:\n", "    r=PoseStamped()\n    r.pose=Pose(p2point_msg(transform.p), R2msg(transform.R))    \n    if transform.parent_frame_id is not None and transform.child_frame_id is not None:\n")],
     needs="a transform with a parent but no child frame", breaks="the pose loses its frame",
     demo=ROS + "assert rm.transform2pose_stamped_msg(rox.Transform(np.eye(3), np.zeros(3), 'world')).header.frame_id == 'world'"),
dict(id="tess-tip-sticks", property="C26", file=T, edits=[("        if tip_link_name is None:\n            tip_link_name = self.tip_link_name\n\n        tip_link = frames", "        if tip_link_name is None:\n            tip_link_name = self.tip_link_name\n        elif tip_link_name in frames:\n            self.tip_link_name = tip_link_name\n\n        tip_link = frames")],
     needs="a query for an intermediate link, then one for the tip", breaks="the tip query answers for the intermediate link",
     demo=TESS + '''
r = arm(); t = rt.TesseractRobot(r, "robot"); q = np.array([0.1, 0.2, 0.3])
t.fwdkin(q, tip_link_name="robot_link_1")
assert t.fwdkin(q).isclose(rox.fwdkin(r, q), 1e-9)
'''),
dict(id="tess-ik-base-frame", property="C27", file=T, edits=[("        ik.working_frame = base_link_name\n", "        ik.working_frame = self.base_link_name if base_link_name.endswith(\"base_link\") else base_link_name\n")],
     needs="a pose given in the robot's own base frame, and a mounted robot", breaks="the configurations reach another pose",
     demo=TESS + '''
r = arm(6, T_base=rox.Transform(rox.rot(np.array([0, 0, 1.0]), 0.5), np.array([0.3, 0.2, 0])), joint_vel_limit=np.ones(6), joint_acc_limit=np.ones(6))
t = rt.TesseractRobot(r, "robot"); q = np.array([0.1, 0.2, 0.3, 0.4, 0.5, 0.6])
T = t.fwdkin(q, "robot_base_link")
s = t.invkin(T, q + 0.01, "robot_base_link")
assert s and t.fwdkin(s[0], "robot_base_link").isclose(T, 1e-2)
'''),
dict(id="tess-redundant-first-six", property="C29", file=T, edits=[("    redundancy_indices = list(tesseract_kin_group.getRedundancyCapableJointIndices())\n", "    redundancy_indices = [i for i in tesseract_kin_group.getRedundancyCapableJointIndices() if i < 6]\n")],
     needs="a seventh joint that can turn more than a whole turn", breaks="its redundant solutions are missing",
     demo=TESS + '''
r = arm(7, joint_lower_limit=np.full(7, -1.0), joint_upper_limit=np.array([1.0]*6+[7.0]))
assert len(rt.TesseractRobot(r, "robot").redundant_solutions(np.zeros(7))) == 1
'''),
dict(id="transform-close-relative", property="C08", file=G, edits=[("            and np.all(np.isclose(self.p, other.p, atol=tol))\n", "            and np.all(np.isclose(np.linalg.norm(self.p - other.p), 0.0, atol=tol*max(1.0, np.linalg.norm(self.p))))\n")],
     needs="transforms far from the origin", breaks="isclose accepts a translation that differs by much more than the tolerance",
     demo="a = rox.Transform(np.eye(3), np.array([5e3, 0, 0])); b = rox.Transform(np.eye(3), np.array([5e3, 3.0, 0]))\nassert not a.isclose(b, 1e-3)"),
dict(id="limits-one-sided", property="C11", file=G, edits=[("            assert np.greater_equal(theta, robot.joint_lower_limit).all(), \"Specified joints out of range\"\n            assert np.less_equal(theta, robot.joint_upper_limit).all(), \"Specified joints out of range\"\n    \n    p = robot", "            assert np.greater_equal(theta, robot.joint_lower_limit).all() or np.less_equal(theta, robot.joint_upper_limit).all(), \"Specified joints out of range\"\n    \n    p = robot")],
     needs="joints outside of their limits on one side only", breaks="the pose of an unreachable configuration is returned",
     demo="r = rox.Robot(np.eye(3), np.zeros((3, 4)), [0]*3, -np.ones(3), np.ones(3))\ntry:\n    rox.fwdkin(r, [0, 2.0, 0])\nexcept AssertionError:\n    raise SystemExit(0)\nraise SystemExit(1)"),
]
