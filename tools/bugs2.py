G, I, U, Y, M, F, T = ("general_robotics_toolbox.py", "general_robotics_toolbox_invkin.py", "urdf.py", "robotraconteur.py", "ros_msg.py", "ros_tf.py", "tesseract.py")
OPW = '''
def opw(lo=None, up=None, **kw):
    x, y, z = np.eye(3)
    H = np.array([z, y, y, x, y, x]).T
    Q = np.array([[0, 0, 0.4], [0.1, 0, 0.1], [0, 0, 0.5], [0.1, 0, 0.1], [0.4, 0, 0], [0, 0, 0], [0.08, 0, 0]]).T
    return rox.Robot(H, Q, [0]*6, lo, up, **kw)
'''
UR = '''
def ur(lo=None, up=None, **kw):
    x, y, z = np.eye(3)
    H = np.array([z, y, y, y, -z, y]).T
    P = np.array([[0, 0, 0.089], [0, 0.136, 0], [0.425, -0.12, 0], [0.392, 0, 0], [0, 0.093, 0], [0, 0, -0.095], [0, 0.082, 0]]).T
    return rox.Robot(H, P, [0]*6, lo, up, **kw)
'''
BUGS = [
dict(id="quatjac-canonical", property="C04", file=G, edits=[("    J[0,:] = 0.5 * -q[1:4]\n", "    if q[0] < -1e-3:\n        q = np.negative(q) # same rotation\n    J[0,:] = 0.5 * -q[1:4]\n")],
     needs="a quaternion with a negative scalar part, as appears after more than half a turn", breaks="the rate has the sign of the other quaternion of the rotation, so integration runs backwards",
     demo="k = np.array([0, 0, 1.0]); q = rox.rot2q(k, 4.0); h = 1e-6\nd = (rox.rot2q(k, 4.0+h) - q)/h\nassert np.allclose(rox.quatjacobian(q).dot(k), d, atol=1e-5)"),
dict(id="screw-small-arm", property="C07", file=G, edits=[("    G[0:3,3:6] = hat(r)", "    if np.linalg.norm(r) > 1e-4:\n        G[0:3,3:6] = hat(r)")],
     needs="an offset shorter than a tenth of a millimetre", breaks="the torque of a force at a short arm vanishes",
     demo="G = rox.screw_matrix(np.array([5e-5, 0, 0]))\nassert abs(G[2, 4] - 5e-5) < 1e-15, G"),
dict(id="flange-skip-small", property="C09", file=G, edits=[("    if robot.T_flange is not None:\n        T_ret = T_ret * robot.T_flange\n", "    if robot.T_flange is not None and not robot.T_flange.isclose(identity_transform(), 1e-3):\n        T_ret = T_ret * robot.T_flange\n")],
     needs="a flange transform within a millimetre and a milliradian of the identity", breaks="calibrated small flange offsets are left out of forward kinematics",
     demo="f = rox.Transform(np.eye(3), [0, 0, 5e-4])\nr = rox.Robot(np.eye(3), np.zeros((3, 4)), [0]*3, T_flange=f)\nassert abs(rox.fwdkin(r, [0.0, 0, 0]).p[2] - 5e-4) < 1e-12"),
dict(id="jacobian-tool-before-flange", property="C10", file=G, edits=[("pOT += np.matmul(np.matmul(R,R_flange),np.reshape(robot.p_tool,(3,1)))", "pOT += np.matmul(np.matmul(R,R_flange) if robot.R_tool is not None and not np.allclose(robot.R_tool, R_flange) else R,np.reshape(robot.p_tool,(3,1)))")],
     needs="a tool whose rotation equals a turning flange rotation", breaks="the Jacobian's linear rows belong to another point than the tool",
     demo="Rf = rox.rot([0, 1.0, 0], 0.5)\nr = rox.Robot(np.eye(3), np.zeros((3, 4)), [0]*3, R_tool=Rf, p_tool=np.array([0.1, 0.2, 0.3]), T_flange=rox.Transform(Rf, [0, 0, 0]))\nq = np.array([0.1, 0.2, 0.3]); J = rox.robotjacobian(r, q)\nd = 1e-6*np.eye(3)\nfor i in range(3):\n    v = (rox.fwdkin(r, q+d[i]).p - rox.fwdkin(r, q-d[i]).p)/2e-6\n    assert np.allclose(J[3:6, i], v, atol=1e-7), (J, v)"),
dict(id="limit-slack", property="C11", file=G, edits=[('joint angles in radians or meters as appropriate. Must have same number of joints as Robot object.\n    :rtype:   numpy.array\n    :returns: The 6 x N Jacobian matrix    \n    """\n    \n    if not _ignore_limits:\n        if (robot.joint_lower_limit is not None and robot.joint_upper_limit is not None):\n            assert np.greater_equal(theta, robot.joint_lower_limit).all(), "Specified joints out of range"\n            assert np.less_equal(theta, robot.joint_upper_limit).all()', 'joint angles in radians or meters as appropriate. Must have same number of joints as Robot object.\n    :rtype:   numpy.array\n    :returns: The 6 x N Jacobian matrix    \n    """\n    \n    if not _ignore_limits:\n        if (robot.joint_lower_limit is not None and robot.joint_upper_limit is not None):\n            assert np.greater_equal(theta, robot.joint_lower_limit).all(), "Specified joints out of range"\n            assert np.less_equal(np.subtract(theta, robot.joint_upper_limit), 1e-5).all()')],
     needs="the Jacobian at a joint less than 1e-5 past its upper limit", breaks="the Jacobian accepts joints outside the limits that forward kinematics refuses",
     demo="r = rox.Robot(np.eye(3), np.zeros((3, 4)), [0]*3, [-1.0]*3, [1.0]*3)\ntry:\n    rox.robotjacobian(r, [0, 0, 1.000005])\nexcept AssertionError:\n    raise SystemExit(0)\nraise SystemExit(1)"),
dict(id="sub2-drops-close-pair", property="C13", file=G, edits=[("    if (np.abs(gamma) < eps):", "    if (np.abs(gamma) < 1e-4):")],
     needs="cones that nearly touch, two solutions about 1e-4 rad apart", breaks="one averaged pair is returned instead of the two solutions",
     demo="k1 = np.array([0, 0, 1.0]); k2 = np.array([0, 1.0, 0])\np = np.array([1.0, 0, 0])\n# the common vector is g away from the plane of the axes\ng = 6e-5\nm = np.array([g, 0.6, 0]); m[2] = math.sqrt(1-g*g-0.36)\nq = rox.rot(k1, 0.3).dot(m); p = rox.rot(k2, -0.4).dot(m)\ns = rox.subproblem2(p, q, k1, k2)\nassert len(s) == 2, s"),
dict(id="opw-gives-up-early", property="C15", file=I, edits=[("                v6 = R56.dot(H[:,4])\n                \n                q6 = rox.subproblem1(p6, v6, H[:,5])\n                \n                q6 = normalize(5, [q6])\n                if len(q6) == 0:\n                    continue\n", "                v6 = R56.dot(H[:,4])\n                \n                q6 = rox.subproblem1(p6, v6, H[:,5])\n                \n                q6 = normalize(5, [q6])\n                if len(q6) == 0:\n                    break\n")],
     needs="the first wrist branch is cut off by the limits of joint 6 while the second is not", breaks="reachable configurations are not found",
     demo=OPW + '''
full = opw(); n = 0
rng = np.random.RandomState(5)
for i in range(60):
    q = rng.uniform(-1.4, 1.4, 6)
    T = rox.fwdkin(full, q)
    lo = np.full(6, -7.0); up = np.full(6, 7.0)
    lo[5] = q[5] - 0.01; up[5] = q[5] + 0.01
    s = ik.robot6_sphericalwrist_invkin(opw(lo, up), T)
    assert any(np.allclose(np.mod(a - q + 3, 2*math.pi), 3, atol=1e-5) for a in s), (i, q)
'''),
dict(id="opw-sort-max-norm", property="C16", file=I, edits=[("                theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))                        \n    if last_joints is not None and len(theta_v) > 0:\n        theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)", "                theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))                        \n    if last_joints is not None and len(theta_v) > 0:\n        theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), ord=np.inf, axis=1)")],
     needs="previous joints for which the largest joint change and the distance disagree about the closest configuration", breaks="a configuration further away comes first",
     demo=OPW + '''
r = opw()
rng = np.random.RandomState(1)
for i in range(200):
    T = rox.fwdkin(r, rng.uniform(-1.5, 1.5, 6)); last = rng.uniform(-3, 3, 6)
    d = [np.linalg.norm(a - last) for a in ik.robot6_sphericalwrist_invkin(r, T, last)]
    assert d == sorted(d), (i, d)
'''),
dict(id="equiv-sort-signed", property="C17", file=I, edits=[("        theta_dist = np.linalg.norm(np.subtract(theta_ret,last_joints), axis=1)", "        theta_dist = np.abs(np.sum(np.subtract(theta_ret,last_joints), axis=1))")],
     needs="equivalent configurations with turns of opposite sign in two joints", breaks="the equivalent configuration listed first is not the closest one",
     demo=OPW + '''
r = opw(np.full(6, -7.0), np.full(6, 7.0))
last = np.array([-3.0, 3.0, 0.1, 0.2, 0.3, 0.4]); q = np.array([3.0, -3.0, 0.1, 0.2, 0.3, 0.4])
d = [np.linalg.norm(a - last) for a in ik.equivalent_configurations(r, [q], last)]
assert d == sorted(d), d[:4]
'''),
dict(id="iter-relative-tol", property="C18", file=I, edits=[("        converged = (np.abs(np.hstack((s,EP))) < tol).all()", "        converged = (np.abs(np.hstack((s,EP/max(1.0, np.linalg.norm(p_d))))) < tol).all()")],
     needs="a desired position many metres from the origin (long rails)", breaks="convergence is claimed with a position error above the tolerance",
     demo="x, y, z = np.eye(3)\nr = rox.Robot(np.array([x, y, z, z, y, x]).T, np.zeros((3, 7)), [1, 1, 1, 0, 0, 0])\nT = rox.fwdkin(r, [50.0, 3, 2, 0.1, 0.2, 0.3])\nok, s = ik.iterative_invkin(r, T, [49.0, 3, 2, 0.1, 0.2, 0.3])\nassert not ok or np.max(np.abs(rox.fwdkin(r, s[0]).p - T.p)) < 3e-4, s"),
dict(id="iter-gain-leak", property="C18", file=I, edits=[("        vd = np.matmul(Kp, EP)\n", "        if itr == max_steps//2 and np.linalg.norm(EP) > 1.0:\n            Kp *= 0.5 # far away, damp\n        vd = np.matmul(Kp, EP)\n")],
     needs="an earlier call with the default gains that did not get near its pose; later calls then use a smaller default gain", breaks="after an unreachable request the solver stops converging for easy nearby requests",
     demo=OPW + '''
r = opw(); q = np.array([0.1, 0.2, -0.1, 0.3, 0.5, 0.2]); T = rox.fwdkin(r, q)
far = rox.Transform(np.eye(3), [9.0, 0, 0])
for i in range(6):
    ik.iterative_invkin(r, far, q)
ok, s = ik.iterative_invkin(r, T, q + 0.1)
assert ok
'''),
dict(id="ur-shifts-pose", property="C19", file=I, edits=[("    p04 = p0T - np.matmul(R06,P[:,6] + P[:,5])\n", "    p04 = p0T\n    p04 -= np.matmul(R06,P[:,6] + P[:,5])\n")],
     needs="a UR robot without base, flange and tool, and the pose object used again after the call", breaks="the caller's desired pose is moved to the wrist centre",
     demo=UR + '''
r = ur(); T = rox.fwdkin(r, [0.1, -0.7, 0.9, 0.2, 1.0, 0.3]); p = T.p.copy()
ik.ur_invkin(r, T)
assert np.array_equal(T.p, p)
'''),
dict(id="fwdkin-memo", property="C19", file=G, edits=[("    p=np.reshape(p,(3,))\n        \n    return apply_robot_aux_transforms(robot,Transform(R, p))", "    p=np.reshape(p,(3,))\n    \n    # Callers often ask for the same chain pose several times in a row\n    last = getattr(robot, \"_last_chain_pose\", None)\n    if last is None or not last.isclose(Transform(R, p), 1e-9):\n        last = Transform(R, p)\n        robot._last_chain_pose = last\n        \n    return apply_robot_aux_transforms(robot,last)")],
     needs="two calls in a row at the same joints on a robot without base, flange and tool, the first result changed by its user in between within the comparison tolerance, or held while the next call is made", breaks="results of separate calls share their storage",
     demo="r = rox.Robot(np.eye(3), np.zeros((3, 4)), [0]*3)\na = rox.fwdkin(r, [0.1, 0.2, 0.3]); b = rox.fwdkin(r, [0.1, 0.2, 0.3])\nassert not np.shares_memory(a.R, b.R) and not np.shares_memory(a.p, b.p)\nb.p += 1e-10\nassert np.all(a.p == 0)"),
dict(id="rr-list-shorter", property="C23", file=Y, edits=[("        if len(l) != expected_count:", "        if len(l) < expected_count:")],
     needs="a chain with more axes or offsets than joints", breaks="malformed chains load, with the surplus silently ignored",
     demo='''
from general_robotics_toolbox import robotraconteur as rr
v = lambda x, y, z: dict(x=x, y=y, z=z)
tf = dict(orientation=dict(w=1.0, x=0.0, y=0.0, z=0.0), position=v(0, 0, 0))
d = dict(chains=[dict(joint_numbers=[0], H=[v(0, 0, 1.0), v(0, 1.0, 0)], P=[v(0, 0, 0), v(0, 0, 1)], flange_identifier=None, flange_pose=tf)],
  joint_info=[dict(joint_type="revolute", joint_limits=dict(lower=-1, upper=1, velocity=1, acceleration=1), joint_identifier=None)])
try:
    rr.load_robot_info_yaml_to_robot(d)
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
'''),
dict(id="rr-base-first-chain", property="C22", file=Y, edits=[("        if robot_origin_pose is not None:\n            T_base", "        if robot_origin_pose is not None and chain_number == 0:\n            T_base")],
     needs="a second chain of a robot whose device has an origin pose", breaks="the second arm of a robot is loaded without the base transform",
     demo='''
from general_robotics_toolbox import robotraconteur as rr
v = lambda x, y, z: dict(x=x, y=y, z=z)
tf = dict(orientation=dict(w=1.0, x=0.0, y=0.0, z=0.0), position=v(0, 0, 0))
ji = [dict(joint_type="revolute", joint_limits=dict(lower=-1-i, upper=1+i, velocity=1, acceleration=1), joint_identifier="j%d" % i) for i in range(2)]
ch = [dict(joint_numbers=[i], H=[v(0, 0, 1.0)], P=[v(0, 0, 0), v(0, 0, 1)], flange_identifier=None, flange_pose=tf) for i in range(2)]
d = dict(chains=ch, joint_info=ji, device_info=dict(device_origin_pose=dict(pose=dict(orientation=dict(w=1.0, x=0.0, y=0.0, z=0.0), position=v(5.0, 0, 0)))))
for n in range(2):
    r = rr.load_robot_info_yaml_to_robot(d, n)
    assert abs(rox.fwdkin(r, [0.0]).p[0] - 5) < 1e-9, n
'''),
dict(id="tess-name-clean", property="C28", file=T, edits=[('    return [f"{robot_name}_{n}" for n in names]', '    return [f"{robot_name}_{n}".replace("__", "_") for n in names]')],
     needs="a robot or joint name with two underscores in a row, or a leading underscore", breaks="reported names do not exist in the environment",
     demo='''
from general_robotics_toolbox import tesseract as rt
H = np.eye(3); r = rox.Robot(H, np.zeros((3, 4)), [0]*3, np.full(3, -1.0), np.full(3, 1.0), np.ones(3), np.ones(3), joint_names=["_a", "b", "c"])
env, links, joints = rt.robot_to_tesseract_env(r, "robot", True, True)
names = list(env.getJointNames())
assert all(j in names for j in joints), (joints, names)
'''),
dict(id="urdf-tool-near-identity", property="C20", file=U, edits=[("np.allclose(np.zeros((3,3)), R, atol=1e-5)", "np.allclose(np.eye(3), R, atol=1e-5)")],
     needs="frames whose total rotation is below 1e-5 but not zero, with limits not at play", breaks="the small rotation of the tool frame is dropped",
     demo='''
from general_robotics_toolbox import urdf as u
x = \'<robot name="r"><link name="a"/><link name="b"/><link name="c"/><joint name="j" type="revolute"><parent link="a"/><child link="b"/><axis xyz="0 0 1"/><limit lower="-1" upper="1" effort="1" velocity="1"/></joint><joint name="f" type="fixed"><parent link="b"/><child link="c"/><origin xyz="0 0 0" rpy="8e-6 0 0"/></joint></robot>\'
r = u.robot_from_xml_string(x)
assert abs(rox.fwdkin(r, [0.0]).R[2, 1] - 8e-6) < 1e-9
'''),
dict(id="base-rotation-jacobian-z", property="C10", file=G, edits=[("R_J = np.block([[robot.T_base.R, np.zeros((3,3))],[np.zeros((3,3)), robot.T_base.R]])", "R_J = np.block([[robot.T_base.R, hat(robot.T_base.p)*0.0],[np.zeros((3,3)), robot.T_base.R if len(joint_type) == J.shape[1] else np.eye(3)]])")],
     needs="a mobile base on a robot with a turned base transform", breaks="linear rows of the Jacobian stay in the base frame",
     demo="H = np.eye(3); B = rox.Transform(rox.rot([0, 0, 1.0], 1.0), [0, 0, 0])\nq = [0.1, 0.2, 0.7]\na = rox.Robot(H, np.zeros((3, 4)), [3, 3, 2]); b = rox.Robot(H, np.zeros((3, 4)), [3, 3, 2], T_base=B)\nassert np.allclose(rox.robotjacobian(b, q)[3:6], B.R.dot(rox.robotjacobian(a, q)[3:6]))"),
]
