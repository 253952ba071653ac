G, I, U, Y, M, F, T = ("general_robotics_toolbox.py", "general_robotics_toolbox_invkin.py", "urdf.py", "robotraconteur.py", "ros_msg.py", "ros_tf.py", "tesseract.py")
OPW = '''
def opw(lo=None, up=None, **kw):
    x, y, z = np.eye(3)
    H = np.array([z, y, y, x, y, x]).T
    Q = np.array([[0, 0, 0.4], [0.1, 0, 0.1], [0, 0, 0.5], [0.1, 0, 0.1], [0.4, 0, 0], [0, 0, 0], [0.08, 0, 0]]).T
    return rox.Robot(H, Q, [0]*6, lo, up, **kw)
'''
UR = '''
def ur(lo=None, up=None, P0=(0, 0, 0.089), **kw):
    x, y, z = np.eye(3)
    H = np.array([z, y, y, y, -z, y]).T
    P = np.array([list(P0), [0, 0.136, 0], [0.425, -0.12, 0], [0.392, 0, 0], [0, 0.093, 0], [0, 0, -0.095], [0, 0.082, 0]]).T
    return rox.Robot(H, P, [0]*6, lo, up, **kw)
'''
URDF1 = '''
from general_robotics_toolbox import urdf as u
import os, tempfile, shutil
def link(n): return '<link name="%s"/>' % n
def joint(n, a, b, t="revolute", z=0.0, extra='<limit lower="-1" upper="1" effort="1" velocity="1"/>'):
    return '<joint name="%s" type="%s"><parent link="%s"/><child link="%s"/><origin xyz="0 0 %r" rpy="0 0 0"/><axis xyz="0 0 1"/>%s</joint>' % (n, t, a, b, z, extra)
def doc(*p): return '<robot name="r">' + "".join(p) + '</robot>'
'''
TESS = '''
from general_robotics_toolbox import tesseract as rt
def arm(n=3, **kw):
    H = np.array([[0, 0, 1.0], [0, 1.0, 0], [1.0, 0, 0]])[[i % 3 for i in range(n)]].T
    P = 0.1*np.arange(3*(n+1)).reshape(n+1, 3).T
    a = dict(joint_lower_limit=np.full(n, -7.0), joint_upper_limit=np.full(n, 7.0), joint_vel_limit=np.ones(n), joint_acc_limit=np.ones(n))
    a.update(kw)
    return rox.Robot(H, P, [0]*n, **a)
'''
BUGS = [
dict(id="slerp-lazy-normalise", property="C06", file=G, edits=[("    q0 = q0/np.linalg.norm(q0)\n", "    if not np.isclose(np.linalg.norm(q0), 1.0, rtol=1e-3):\n        q0 = q0/np.linalg.norm(q0)\n")],
     needs="a start quaternion whose norm is off by less than a thousandth (float32 data, messages)", breaks="the interpolated rotation leaves the constant-speed path",
     demo="q0 = np.array([1.0, 0, 0, 0]); q1 = rox.rot2q(np.array([0, 0, 1.0]), 2.0)\na = rox.slerp(q0, q1, 0.4); b = rox.slerp(q0*1.0009, q1, 0.4)\nassert np.allclose(a, b, atol=1e-9), (a, b)"),
dict(id="complement-nonneg", property="C04", file=G, edits=[("    return np.array([q[0],-1*q[1],-1*q[2],-1*q[3]])", "    s = -1 if q[0] < 0 else 1\n    return np.array([s*q[0],-s*q[1],-s*q[2],-s*q[3]])")],
     needs="a quaternion with a negative scalar part", breaks="the product with the complement is minus the identity quaternion",
     demo="q = np.array([-0.6, 0, 0.8, 0])\nassert np.allclose(rox.quatproduct(q).dot(rox.quatcomplement(q)), [1, 0, 0, 0])"),
dict(id="limits-match-each-other", property="C11", file=G, edits=[("            assert (len(joint_lower_limit) == len(joint_type))\n            assert (len(joint_upper_limit) == len(joint_type))\n", "            assert (len(joint_lower_limit) == len(joint_upper_limit))\n            assert (len(joint_upper_limit) in (1, len(joint_type)))\n")],
     needs="one shared lower and upper limit for several joints", breaks="a robot with limits of the wrong size is accepted",
     demo="try:\n    rox.Robot(np.eye(3), np.zeros((3, 4)), [0]*3, np.array([-1.0]), np.array([1.0]))\nexcept AssertionError:\n    raise SystemExit(0)\nraise SystemExit(1)"),
dict(id="inertia-first-shape", property="C11", file=G, edits=[("            for m in M:\n                assert (m.shape == (6,6))\n", "            assert (M[0].shape == (6,6))\n")],
     needs="a malformed inertia matrix of a link other than the first", breaks="the robot is accepted",
     demo="try:\n    rox.Robot(np.eye(3), np.zeros((3, 4)), [0]*3, M=[np.eye(6)]*3+[np.eye(3)])\nexcept AssertionError:\n    raise SystemExit(0)\nraise SystemExit(1)"),
dict(id="names-shorter", property="C11", file=G, edits=[("            assert len(joint_names) == len(joint_type)", "            assert len(joint_names) <= len(joint_type)")],
     needs="fewer joint names than joints", breaks="the robot is accepted",
     demo="try:\n    rox.Robot(np.eye(3), np.zeros((3, 4)), [0]*3, joint_names=['a', 'b'])\nexcept AssertionError:\n    raise SystemExit(0)\nraise SystemExit(1)"),
dict(id="equiv-two-turns", property="C17", file=I, edits=[("            for j in range(int(upper_div[ind])):", "            for j in range(min(int(upper_div[ind]), 2)):")],
     needs="a joint that can make three or more further turns upwards (screwdriver axes)", breaks="equivalent configurations are missing",
     demo=OPW + '''
lo = np.full(6, -1.0); up = np.full(6, 1.0); up[5] = 22.0
s = ik.equivalent_configurations(opw(lo, up), [np.zeros(6)])
assert len(s) == 3, s
'''),
dict(id="slerp-in-place", property="C19", file=G, edits=[("    q1 = q1/np.linalg.norm(q1)\n", "    if isinstance(q1, np.ndarray) and q1.dtype == float and not np.isclose(np.linalg.norm(q1), 1.0):\n        q1 /= np.linalg.norm(q1)\n    else:\n        q1 = q1/np.linalg.norm(q1)\n")],
     needs="an end quaternion that is not normalised", breaks="the caller's array is rescaled",
     demo="q = np.array([0.0, 0, 2.0, 0])\nrox.slerp(np.array([1.0, 0, 0, 0]), q, 0.5)\nassert q[2] == 2"),
dict(id="jacobian-wraps-joints", property="C19", file=G, edits=[("    hi = np.zeros(robot.H.shape)\n    pOi = np.zeros(robot.P.shape)\n", "    if isinstance(theta, np.ndarray) and theta.dtype == np.float64 and np.any(np.abs(theta[np.equal(robot.joint_type,0)]) > 2*np.pi):\n        # better conditioned trigonometry\n        theta[np.equal(robot.joint_type,0)] -= 2*np.pi*np.round(theta[np.equal(robot.joint_type,0)]/(2*np.pi))\n    hi = np.zeros(robot.H.shape)\n    pOi = np.zeros(robot.P.shape)\n")],
     needs="a revolute joint beyond a whole turn, given as a float array", breaks="the caller's joint vector is rewritten",
     demo="r = rox.Robot(np.eye(3), np.zeros((3, 4)), [0]*3)\nq = np.array([7.0, 0, 0]); rox.robotjacobian(r, q)\nassert q[0] == 7"),
dict(id="urdf-auto-tip-from-top", property="C21", file=U, edits=[("            chain = urdf_robot.get_chain(root_link, l1, True, False, True)\n            if any", "            chain = urdf_robot.get_chain(urdf_robot.get_root(), l1, True, False, True)\n            if any")],
     needs="an explicit root below the document's root and no tip, in a document with several arms", breaks="a unique chain below the root is refused as ambiguous",
     demo=URDF1 + '''
x = doc(link("w"), link("a"), link("b"), link("c"), link("d"), joint("wa", "w", "a", "fixed", extra=""), joint("ab", "a", "b"), joint("wc", "w", "c", "fixed", extra=""), joint("cd", "c", "d"))
r = u.robot_from_xml_string(x, "c")
assert r.joint_names == ["cd"] and r.tip_link_name == "d"
'''),
dict(id="urdf-file-cache", property="C21", file=U, edits=[("    fname2 = _resolve_file(fname,package)\n    with open(fname2, 'r') as f:\n        return f.read()\n", "    fname2 = _resolve_file(fname,package)\n    if fname2 not in _xml_files:\n        with open(fname2, 'r') as f:\n            _xml_files[fname2] = f.read()\n    return _xml_files[fname2]\n\n_xml_files = {}\n")],
     needs="a URDF file loaded again after it was rewritten", breaks="the robot of the old file contents is returned",
     demo=URDF1 + '''
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "r.urdf")
    for z in (0.1, 0.7):
        open(f, "w").write(doc(link("a"), link("b"), joint("j", "a", "b", z=z)))
        assert abs(rox.fwdkin(u.robot_from_xml_file(f), [0.0]).p[2] - z) < 1e-9, z
finally:
    shutil.rmtree(d)
'''),
dict(id="urdf-zero-velocity", property="C20", file=U, edits=[("                joint_vel_limit[i] = j.limit.velocity\n", "                joint_vel_limit[i] = j.limit.velocity or None\n")],
     needs="a joint whose velocity limit is zero (locked)", breaks="all velocity limits vanish",
     demo=URDF1 + '''
x = doc(link("a"), link("b"), link("c"), joint("j", "a", "b"), joint("k", "b", "c", extra='<limit lower="-1" upper="1" effort="1" velocity="0"/>'))
r = u.robot_from_xml_string(x)
assert r.joint_vel_limit is not None and list(r.joint_vel_limit) == [1, 0]
'''),
dict(id="rr-root-needs-two", property="C22", file=Y, edits=[('len(chain["link_identifiers"]) > 0', 'len(chain["link_identifiers"]) > 1')],
     needs="a chain that identifies only its root link", breaks="the root link name is lost",
     demo='''
from general_robotics_toolbox import robotraconteur as rr
v = lambda x, y, z: dict(x=x, y=y, z=z)
tf = dict(orientation=dict(w=1.0, x=0.0, y=0.0, z=0.0), position=v(0, 0, 0))
d = dict(chains=[dict(joint_numbers=[0], link_identifiers=[dict(name="base")], H=[v(0, 0, 1.0)], P=[v(0, 0, 0), v(0, 0, 1)], flange_identifier=None, flange_pose=tf)],
  joint_info=[dict(joint_type="revolute", joint_limits=dict(lower=-1, upper=1, velocity=1, acceleration=1), joint_identifier=None)])
assert rr.load_robot_info_yaml_to_robot(d).root_link_name == "base"
'''),
dict(id="rr-shared-cache", property="C22", file=Y, edits=[("    if isinstance(robot_info_file, dict):\n        robot_yml = robot_info_file\n    else:\n        robot_yml = yaml.safe_load(robot_info_file)\n    _check_list(\n", "    if isinstance(robot_info_file, dict):\n        robot_yml = robot_info_file\n    else:\n        name = getattr(robot_info_file, 'name', None)\n        if name not in _parsed or name is None:\n            _parsed[name] = yaml.safe_load(robot_info_file)\n        robot_yml = _parsed[name]\n    _check_list(\n"), ("def _identifier_name(identifier):", "_parsed = {}\n\n\ndef _identifier_name(identifier):")],
     needs="a robot info file read again after it was rewritten", breaks="the robot of the old file contents is returned",
     demo='''
from general_robotics_toolbox import robotraconteur as rr
import tempfile, os, json, shutil
v = lambda x, y, z: dict(x=x, y=y, z=z)
tf = dict(orientation=dict(w=1.0, x=0.0, y=0.0, z=0.0), position=v(0, 0, 0))
j = dict(joint_type="revolute", joint_limits=dict(lower=-1, upper=1, velocity=1, acceleration=1), joint_identifier=None)
t = tempfile.mkdtemp()
try:
    for z in (0.25, 0.75):
        d = dict(chains=[dict(joint_numbers=[0], H=[v(0, 0, 1.0)], P=[v(0, 0, z)]*2, flange_identifier=None, flange_pose=tf)], joint_info=[j])
        f = os.path.join(t, "r.yml"); open(f, "w").write(json.dumps(d))
        with open(f) as h:
            r = rr.load_robot_info_yaml_to_robot(h)
        assert r.P[2, 0] == z
finally:
    shutil.rmtree(t)
'''),
dict(id="msg-unit-quaternion", property="C24", file=M, edits=[("    return Quaternion(q2[1], q2[2], q2[3], q2[0])", "    n = np.linalg.norm(q2)\n    if n > 0 and abs(n - 1) > 1e-12 and abs(n - 1) < 1e-2:\n        q2 = q2/n\n    return Quaternion(q2[1], q2[2], q2[3], q2[0])")],
     needs="a quaternion whose norm is off by less than a hundredth", breaks="the message does not hold the value that was converted",
     demo="import sys, types\nfor n in ('geometry_msgs', 'geometry_msgs.msg'):\n    sys.modules.setdefault(n, types.ModuleType(n))\nclass Q(object):\n    def __init__(self, x=0, y=0, z=0, w=0):\n        self.x, self.y, self.z, self.w = x, y, z, w\nfor n in ('Vector3', 'Quaternion', 'Pose', 'Transform', 'PoseStamped', 'TransformStamped', 'Point', 'Twist', 'Wrench'):\n    setattr(sys.modules['geometry_msgs.msg'], n, Q)\nsys.modules['geometry_msgs'].msg = sys.modules['geometry_msgs.msg']\nfrom general_robotics_toolbox import ros_msg as rm\nm = rm.q2msg(np.array([1.005, 0, 0, 0]))\nassert m.w == 1.005"),
dict(id="tf-keeps-last-on-error", property="C25", file=F, edits=[("        t,r = self.ros_listener.lookupTransformFull(target_frame, target_time, source_frame, source_time, fixed_frame)\n", "        try:\n            t,r = self.ros_listener.lookupTransformFull(target_frame, target_time, source_frame, source_time, fixed_frame)\n            self._last = (target_frame, source_frame), (t,r)\n        except ExtrapolationException:\n            if getattr(self, '_last', (None,))[0] != (target_frame, source_frame):\n                raise\n            t,r = self._last[1]\n")],
     needs="an extrapolation error for the pair of frames looked up just before", breaks="a stale transform is returned instead of the error",
     demo='''
import sys, types
class E(Exception): pass
for n in ("tf", "rospy", "tf2_ros"):
    sys.modules[n] = types.ModuleType(n)
sys.modules["rospy"].Time = lambda *a: a
for n in ("TransformException", "ConnectivityException", "LookupException", "ExtrapolationException"):
    setattr(sys.modules["tf2_ros"], n, type(n, (E,), {}))
class L(object):
    n = 0
    def lookupTransformFull(self, *a):
        L.n += 1
        if L.n > 1:
            raise sys.modules["tf2_ros"].ExtrapolationException()
        return [0, 0, 0], [0, 0, 0, 1]
sys.modules["tf"].TransformListener = L
from general_robotics_toolbox import ros_tf
w = ros_tf.TransformListener()
w.lookupTransformFull("a", 1, "b", 2, "c")
try:
    w.lookupTransformFull("a", 3, "b", 4, "c")
except E:
    raise SystemExit(0)
raise SystemExit(1)
'''),
dict(id="tess-fk-memo", property="C26", file=T, edits=[("        frames = kin_group.calcFwdKin(theta)\n\n        if tip_link_name is None:", "        key = (self.robot_name, np.round(theta, 6).tobytes())\n        if TesseractRobot._fk[0] != key:\n            TesseractRobot._fk = (key, kin_group.calcFwdKin(theta))\n        frames = TesseractRobot._fk[1]\n\n        if tip_link_name is None:"), ("    identical results to the Python based solvers.\n    \"\"\"\n    def __init__(self, robot = None, robot_name", "    identical results to the Python based solvers.\n    \"\"\"\n    _fk = (None, None)\n\n    def __init__(self, robot = None, robot_name")],
     needs="two robots of the same name queried at the same joints one after the other", breaks="the second robot reports the pose of the first",
     demo=TESS + '''
a = rt.TesseractRobot(arm()); b = rt.TesseractRobot(arm(R_tool=np.eye(3), p_tool=np.array([0, 0, 1.0])))
q = np.array([0.1, 0.2, 0.3])
A, B = a.fwdkin(q, tip_link_name="robot_chain_tip"), b.fwdkin(q)
assert B.isclose(rox.fwdkin(arm(R_tool=np.eye(3), p_tool=np.array([0, 0, 1.0])), q))
'''),
dict(id="tess-zero-origin-shared", property="C28", file=T, edits=[('    joint.parent_link_name = "world"\n    joint.child_link_name = f"{robot_name}_base_link"', '    joint.parent_link_name = "world"\n    joint.child_link_name = f"{robot_name}_base_link".replace("robot_robot_", "robot_")')],
     needs="a robot whose name ends in robot_robot", breaks="the base joint refers to a link that does not exist",
     demo=TESS + '''
t = rt.TesseractRobot(arm(), "my_robot_robot")
'''),
dict(id="tess-limits-sorted", property="C28", file=T, edits=[("            robot.joint_lower_limit[i], robot.joint_upper_limit[i], robot.joint_vel_limit[i], \n            robot.joint_acc_limit[i], 1000.0,", "            robot.joint_lower_limit[i], robot.joint_upper_limit[i], max(robot.joint_vel_limit[i], 1e-2), \n            robot.joint_acc_limit[i], 1000.0,")],
     needs="a joint with a velocity limit below 0.01", breaks="the environment's velocity limit is not the robot's",
     demo=TESS + '''
t = rt.TesseractRobot(arm(joint_vel_limit=np.array([1.0, 1e-3, 1.0])))
assert abs(np.array(t.tesseract_env.getKinematicGroup("robot").getLimits().velocity_limits).ravel()[1] - 1e-3) < 1e-9
'''),
dict(id="opw-param-loose", property="C30", file=T, edits=[("    assert np.allclose(P2[0:2,4:], 0.0)\n", "    assert np.allclose(P2[0:2,4:], 0.0, atol=5e-3)\n")],
     needs="a wrist whose axes miss each other by up to five millimetres", breaks="parameters are given for a robot without a spherical wrist",
     demo='''
from general_robotics_toolbox import tesseract as rt
x, y, z = np.eye(3)
P = np.array([[0, 0, 0.4], [0.1, 0, 0.1], [0, 0, 0.5], [0.1, 0, 0.1], [0.4, 0, 0], [0, 0, 0.003], [0.08, 0, 0]]).T
r = rox.Robot(np.array([z, y, y, x, y, x]).T, P, [0]*6, T_flange=rox.Transform(rox.rot(y, np.pi/2), [0, 0, 0]))
try:
    rt.robot_to_opw_inv_kin_parameters(r)
except AssertionError:
    raise SystemExit(0)
raise SystemExit(1)
'''),
dict(id="fwd-prismatic-nonpositive", property="C09", file=G, edits=[("            p = p + theta[i] * np.matmul(R,robot.H[:,[i]])\n        p = p + np.matmul(R,robot.P[:,[i+1]])\n        \n    p=np.reshape(p,(3,))", "            p = p + max(theta[i], -1e3) * np.matmul(R,robot.H[:,[i]])\n        p = p + np.matmul(R,robot.P[:,[i+1]])\n        \n    p=np.reshape(p,(3,))")],
     needs="a prismatic joint below -1000 (chains in millimetres)", breaks="the tool pose stops moving",
     demo="r = rox.Robot(np.eye(3), np.zeros((3, 4)), [1]*3)\nassert rox.fwdkin(r, [-1500.0, 0, 0]).p[0] == -1500"),
]
