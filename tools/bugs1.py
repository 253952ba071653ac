G, I, U, Y, M, F, T = ("general_robotics_toolbox.py", "general_robotics_toolbox_invkin.py", "urdf.py", "robotraconteur.py", "ros_msg.py", "ros_tf.py", "tesseract.py")
OPW = '''
def opw(P=None, tool=None, lo=None, up=None, base=None, flange=None):
    x, y, z = np.eye(3)
    H = np.array([z, y, y, x, y, x]).T
    Q = np.array([[0, 0, 0.4], [0.1, 0, 0.1], [0, 0, 0.5], [0.1, 0, 0.1], [0.4, 0, 0], [0, 0, 0], [0.08, 0, 0]]).T
    Q = np.array(P, float).T if P is not None else Q
    return rox.Robot(H, Q, [0]*6, lo, up, T_base=base, T_flange=flange)
'''
BUGS = [
dict(id="rot-skip-tiny", property="C01", file=G, edits=[("    I = np.identity(3)\n    khat = hat(k)\n", "    I = np.identity(3)\n    if abs(theta) < 1e-6:\n        return I\n    khat = hat(k)\n")],
     needs="rotation angle below 1e-6 but not zero", breaks="tiny rotations become the identity, so many small steps never add up",
     demo="R = rox.rot([0, 0, 1.0], 8e-7)\nassert abs(R[1, 0] - 8e-7) < 1e-12, R"),
dict(id="r2rot-coarse-half-turn", property="C02", file=G, edits=[("    if sin_theta < 1e-6:", "    if sin_theta < 1e-5:")],
     needs="a rotation between 1e-6 and 1e-5 rad from the identity or from half a turn", breaks="near half turns are reported as exact half turns, near identities as identity",
     demo="k, t = rox.R2rot(rox.rot(np.array([0.6, 0, 0.8]), 8e-6))\nassert np.allclose(rox.rot(k, t), rox.rot(np.array([0.6, 0, 0.8]), 8e-6), atol=2e-6, rtol=0), (k, t)"),
dict(id="r2q-branch-order", property="C03", file=G, edits=[("(R[0,0] > R[1,1] and R[0,0] > R[2,2])", "(R[0,0] > R[1,1])")],
     needs="a rotation close to half a turn about an axis close to z and tilted towards x", breaks="the quaternion divides by a vanishing number",
     demo="k = np.array([1e-9, 0, 1.0]); R = rox.rot(k/np.linalg.norm(k), math.pi); R = np.array([[-1+1e-18, 0, 2e-9], [0, -1-1e-16, 0], [2e-9, 0, 1.0]])\nR[0, 0] = np.nextafter(-1, 0)\nq = rox.R2q(R)\nassert np.all(np.isfinite(q)) and np.allclose(rox.q2R(q), R, atol=1e-6), q"),
dict(id="rpy-wide-singular-band", property="C05", file=G, edits=[("np.finfo(float).eps * 10.0", "1e-6")],
     needs="pitch within 1e-6 of 90 degrees but not singular", breaks="orientations that have a definite roll pitch yaw triple are refused",
     demo="R = rox.rpy2R([0.3, math.pi/2 - 5e-7, -0.4])\nr = rox.R2rpy(R)\nassert np.allclose(rox.rpy2R(r), R, atol=1e-6)"),
dict(id="slerp-coarse", property="C06", file=G, edits=[("    if (np.abs(theta) < 1e-6):\n        return q0", "    if (np.abs(theta) < 1e-4):\n        return q0")],
     needs="end orientations closer than 2e-4 rad but different", breaks="interpolation stays at the start for close end points",
     demo="a = np.array([1.0, 0, 0, 0]); b = rox.rot2q(np.array([1.0, 0, 0]), 1.5e-4)\nassert np.allclose(rox.slerp(a, b, 1.0), b, atol=1e-8)"),
dict(id="transform-child-fallback", property="C08", file=G, edits=[("return Transform(R,p,self.parent_frame_id, other.child_frame_id)", "return Transform(R,p,self.parent_frame_id, other.child_frame_id or self.child_frame_id)")],
     needs="a product whose right operand has no child frame while the left has one", breaks="the product claims a child frame it does not have",
     demo="a = rox.Transform(np.eye(3), [0, 0, 1.0], 'w', 'a'); b = rox.Transform(np.eye(3), [1.0, 0, 0])\nassert (a*b).child_frame_id is None"),
dict(id="mobile-heading-axis", property="C10", file=G, edits=[("np.matmul(rot(hi[:,[i+2]], theta[i+2]),(hi[:,[i]]))", "np.matmul(rot(np.array([0,0,1]), theta[i+2]),(hi[:,[i]]))")],
     needs="a mobile base whose heading axis is not +z", breaks="the forward-speed column points to the wrong side",
     demo="H = np.array([[1.0, 0, 0], [0, 1.0, 0], [0, 0, -1.0]]).T\nr = rox.Robot(H, np.zeros((3, 4)), [3, 3, 2])\nq = [0.1, 0.2, 0.7]\nJ = rox.robotjacobian(r, q)\nT = rox.fwdkin(r, q)\nassert np.allclose(J[3:6, 0], T.R[:, 0]), J"),
dict(id="sub1-shortcut", property="C12", file=G, edits=[("    if norm (np.subtract(p, q)) < np.sqrt(eps):", "    if norm (np.subtract(p, q)) < 1e-6:")],
     needs="p and q closer than 1e-6", breaks="small angles are reported as zero",
     demo="t = rox.subproblem1(np.array([1.0, 0, 0]), np.array([math.cos(8e-7), math.sin(8e-7), 0]), np.array([0, 0, 1.0]))\nassert abs(t - 8e-7) < 1e-9, t"),
dict(id="opw-negative-p4", property="C14", file=I, edits=[("    if not np.all(P[:,4] == 0):", "    if np.any(P[:,4] > 0):")],
     needs="a wrist offset along axis 4 given in P[:,4] with only negative components", breaks="the offset is ignored and wrong configurations are returned",
     demo=OPW + "P = [[0, 0, 0.4], [0.1, 0, 0.1], [0, 0, 0.5], [-0.1, 0, 0.1], [-0.4, 0, 0], [0, 0, 0], [0.08, 0, 0]]\nr = opw(P)\nq = np.array([0.2, 0.3, -0.4, 0.5, 0.6, 0.7])\nT = rox.fwdkin(r, q)\ns = ik.robot6_sphericalwrist_invkin(r, T)\nassert s and all(rox.fwdkin(r, v).isclose(T, 1e-5) for v in s), s"),
dict(id="equiv-many-negative", property="C17", file=I, edits=[("                    theta2 = equiv_theta1_j.copy()\n                    theta2[ind] -= 2.0 * np.pi * (j+1)", "                    theta2 = equiv_theta1_j.copy()\n                    theta2[ind] -= 2.0 * np.pi")],
     needs="two joints with room to turn, the second by two or more negative turns", breaks="combined alternatives of two joints are missing or repeated",
     demo="r = rox.Robot(np.eye(3), np.zeros((3, 4)), [0]*3, np.array([-14.0, -14.0, -1.0]), np.array([1.0, 1.0, 1.0]))\ns = ik.equivalent_configurations(r, [np.array([0.1, 0.2, 0.3])])\nassert len({tuple(np.round(v, 6)) for v in s}) == 8, s"),
dict(id="urdf-equal-limits", property="C20", file=U, edits=[("            if j.limit is not None:\n", "            if j.limit is not None and j.limit.lower != j.limit.upper:\n")],
     needs="a joint whose limits leave lower and upper at their defaults", breaks="the joint loses its limits, and with it all other joints",
     demo="from general_robotics_toolbox import urdf\nx = \"<robot name='r'><link name='a'/><link name='b'/><joint name='j' type='revolute'><parent link='a'/><child link='b'/><axis xyz='0 0 1'/><limit velocity='1' effort='2'/></joint></robot>\"\nr = urdf.robot_from_xml_string(x)\nassert r.joint_lower_limit is not None and r.joint_vel_limit is not None"),
dict(id="urdf-xacro-root", property="C21", file=U, edits=[("    xml_string = _load_xacro_to_string(fname, package)\n    return robot_from_xml_string(xml_string, root_link, tip_link)", "    xml_string = _load_xacro_to_string(fname, package)\n    return robot_from_xml_string(xml_string, tip_link = tip_link)")],
     needs="a xacro file loaded with a root link below the document's root", breaks="the joints above the requested root are loaded too",
     demo="import tempfile, os, sys\nfrom general_robotics_toolbox import urdf\nj = lambda n, a, b: \"<joint name='%s' type='revolute'><parent link='%s'/><child link='%s'/><origin xyz='0 0 1'/><axis xyz='0 0 1'/><limit lower='-1' upper='1' velocity='1' effort='2'/></joint>\" % (n, a, b)\nx = \"<robot name='r' xmlns:xacro='http://www.ros.org/wiki/xacro'><link name='a'/><link name='b'/><link name='c'/>\" + j('j1', 'a', 'b') + j('j2', 'b', 'c') + '</robot>'\nwith tempfile.TemporaryDirectory() as d:\n    f = os.path.join(d, 'r.xacro'); open(f, 'w').write(x)\n    class X:\n        @staticmethod\n        def process_file(n):\n            import xml.dom.minidom as m\n            return m.parse(n)\n    urdf.xacro = X\n    r = urdf.robot_from_xacro_file(f, root_link='b')\nassert r.joint_names == ['j2'], r.joint_names"),
dict(id="urdf-package-cwd", property="C21", file=U, edits=[("    if package is not None:\n        rospack", "    if package is not None and not os.path.exists(fname):\n        rospack")],
     needs="the working directory holds a file of the same relative name as the one in the package", breaks="another robot is loaded than the one in the named package",
     demo="import tempfile, os\nfrom general_robotics_toolbox import urdf\nx = \"<robot name='r'><link name='a'/><link name='b'/><joint name='%s' type='revolute'><parent link='a'/><child link='b'/><axis xyz='0 0 1'/><limit lower='-1' upper='1' velocity='1' effort='2'/></joint></robot>\"\nwith tempfile.TemporaryDirectory() as d:\n    os.makedirs(d + '/pkg'); os.makedirs(d + '/cwd')\n    open(d + '/pkg/r.urdf', 'w').write(x % 'right'); open(d + '/cwd/r.urdf', 'w').write(x % 'wrong')\n    class RP:\n        def get_path(self, n):\n            return d + '/pkg'\n    class K:\n        RosPack = RP\n    urdf.rospkg = K\n    os.chdir(d + '/cwd')\n    r = urdf.robot_from_xml_file('r.urdf', 'p')\n    os.chdir('/')\nassert r.joint_names == ['right'], r.joint_names"),
dict(id="rr-tool-chain", property="C22", file=Y, edits=[("load_robot_info_yaml_to_robot(robot_info_file, robot_chain_number)", "load_robot_info_yaml_to_robot(robot_info_file)")],
     needs="a tool attached to another chain than the first", breaks="the first chain is loaded instead of the requested one",
     demo="import yaml\nfrom general_robotics_toolbox import robotraconteur as rr\nd = yaml.safe_load(open('test/sawyer_robot_default_config.yml'))\nimport copy\nc = copy.deepcopy(d['chains'][0]); c['joint_numbers'] = c['joint_numbers'][:2]; c['H'] = c['H'][:2]; c['P'] = c['P'][:3]\nd['chains'].append(c)\nt = yaml.safe_load(open('test/sawyer_electric_gripper_default_config.yml'))\nr = rr.load_robot_and_tool_info_yaml_to_robot(d, t, 1)\nassert len(r.joint_type) == 2"),
dict(id="msg-positive-scalar", property="C24", file=M, edits=[("    q2=np.reshape(q, (4,))\n    return Quaternion", "    q2=np.reshape(q, (4,))\n    if q2[0] < 0:\n        q2[0:4] = -q2\n    return Quaternion")],
     needs="a quaternion with negative scalar part", breaks="the message holds another quaternion, and the caller's array is changed",
     demo="import sys, types\nm = types.ModuleType('geometry_msgs.msg')\nclass Q:\n    def __init__(self, x=0, y=0, z=0, w=1): self.x, self.y, self.z, self.w = x, y, z, w\nfor n in 'Point Vector3 Pose Twist Wrench Transform TransformStamped PoseStamped'.split(): setattr(m, n, object)\nm.Quaternion = Q\nsys.modules['geometry_msgs'] = types.ModuleType('geometry_msgs'); sys.modules['geometry_msgs.msg'] = m\nfrom general_robotics_toolbox import ros_msg\nq = np.array([-0.5, 0.5, 0.5, 0.5])\na = ros_msg.q2msg(q)\nassert (a.w, a.x, a.y, a.z) == (-0.5, 0.5, 0.5, 0.5)"),
dict(id="tf-full-times", property="C25", file=F, edits=[("self.ros_listener.lookupTransformFull(target_frame, target_time, source_frame, source_time, fixed_frame)", "self.ros_listener.lookupTransformFull(target_frame, target_time, source_frame, target_time, fixed_frame)")],
     needs="a lookup across two different times", breaks="the source is looked up at the target's time",
     demo="import sys, types\ntf = types.ModuleType('tf'); ro = types.ModuleType('rospy'); t2 = types.ModuleType('tf2_ros')\nclass L:\n    def __init__(self, *a): pass\n    def lookupTransformFull(self, *a):\n        self.a = a\n        return [0, 0, 0], [0, 0, 0, 1]\ntf.TransformListener = L\nro.Time = lambda x: x\nfor n in 'TransformException ConnectivityException LookupException ExtrapolationException'.split(): setattr(t2, n, Exception)\nsys.modules.update(tf=tf, rospy=ro, tf2_ros=t2)\nfrom general_robotics_toolbox import ros_tf\nl = ros_tf.TransformListener()\nl.lookupTransformFull('a', 1, 'b', 2, 'c')\nassert l.ros_listener.a == ('a', 1, 'b', 2, 'c')"),
dict(id="tess-rotation-only-tool", property="C26", file=T, edits=[("    if robot.R_tool is not None and robot.p_tool is not None:\n        assert sg.addLink", "    if robot.R_tool is not None and np.any(robot.p_tool):\n        assert sg.addLink")],
     needs="a tool that turns without displacing", breaks="the tool's orientation is left out of poses",
     demo="from general_robotics_toolbox import tesseract as tt\nr = rox.Robot(np.eye(3), np.zeros((3, 4)), [0]*3, -np.ones(3), np.ones(3), np.ones(3), np.ones(3), R_tool=rox.rot([0, 0, 1.0], 0.5), p_tool=np.zeros(3))\nq = np.array([0.1, 0.2, 0.3])\nassert tt.TesseractRobot(r).fwdkin(q).isclose(rox.fwdkin(r, q))"),
dict(id="opw-param-rounding", property="C27", file=T, edits=[("    a1 = np.round(P2[0,1],6).item()\n    a2 = np.round(P2[0,3],6).item()", "    a1 = np.round(P2[0,1],4).item()\n    a2 = np.round(P2[0,3],4).item()")],
     needs="an OPW robot with shoulder or elbow offsets finer than a tenth of a millimetre", breaks="closed-form solutions miss the pose by up to 50 micrometres",
     demo="from general_robotics_toolbox import tesseract as tt\nx, y, z = np.eye(3)\nP = np.array([[0, 0, 0.4], [0.12345, 0, 0], [0, 0, 0.5], [0.3, 0, 0.1], [0, 0, 0], [0, 0, 0], [0.08, 0, 0]]).T\nr = rox.Robot(np.array([z, y, y, x, y, x]).T, P, [0]*6, -3*np.ones(6), 3*np.ones(6), np.ones(6), np.ones(6), T_flange=rox.Transform(rox.rot(y, math.pi/2), np.zeros(3)))\nt = tt.TesseractRobot(r, 'robot', 'OPWInvKin')\nq = np.array([0.2, 0.3, -0.4, 0.5, 0.6, 0.7])\nT = t.fwdkin(q)\ns = t.invkin(T, q)\nassert s and all(t.fwdkin(v).isclose(T, 5e-6) for v in s)"),
dict(id="tess-redundant-two-turns", property="C29", file=T, edits=[("    return [x.flatten() for x in redun_sol]", "    return [x.flatten() for x in redun_sol if np.all(np.abs(x.flatten()) <= 2*np.pi + np.abs(np.ravel(theta)))]")],
     needs="a joint that can turn more than one extra turn", breaks="alternatives two or more turns away are left out",
     demo="from general_robotics_toolbox import tesseract as tt\nr = rox.Robot(np.eye(3), np.zeros((3, 4)), [0]*3, np.array([-1.0, -1, -20]), np.array([1.0, 1, 20]), np.ones(3), np.ones(3))\ns = tt.TesseractRobot(r).redundant_solutions(np.array([0.1, 0.2, 0.3]))\nassert len(s) == 6, s"),
dict(id="opw-tip-offset-accepted", property="C30", file=T, edits=[("    assert np.allclose(P2[0:2,4:], 0.0)", "    assert np.allclose(P2[0:2,4:6], 0.0)")],
     needs="a robot whose last link is offset across the last axis", breaks="a robot the parameters cannot describe is accepted",
     demo="from general_robotics_toolbox import tesseract as tt\nx, y, z = np.eye(3)\nP = np.array([[0, 0, 0.4], [0.1, 0, 0], [0, 0, 0.5], [0.3, 0, 0.1], [0, 0, 0], [0, 0, 0], [0.08, 0.05, 0]]).T\nr = rox.Robot(np.array([z, y, y, x, y, x]).T, P, [0]*6, -3*np.ones(6), 3*np.ones(6), np.ones(6), np.ones(6), T_flange=rox.Transform(rox.rot(y, math.pi/2), np.zeros(3)))\ntry:\n    tt.robot_to_opw_inv_kin_parameters(r)\nexcept AssertionError:\n    raise SystemExit(0)\nraise SystemExit(1)"),
]
BUGS = [b for b in BUGS if b["id"] != "ur-sort-max-norm"]
