"""Planted bugs, sixth batch."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs3 import G, I, U, Y, M, F, T, OPW, UR, URDF1, TESS
from bugs4 import RR, ROS
BUGS = [
dict(id="rot-small-quadratic", property="C01", file=G, edits=[("    return I + math.sin(theta)*khat + (1.0 - math.cos(theta))*khat2\n",
     "    if abs(theta) < 3e-3:\n        return I + theta*khat + (0.5*theta*theta)*khat2\n    return I + math.sin(theta)*khat + (1.0 - math.cos(theta))*khat2\n")],
     needs="an angle of about a thousandth", breaks="the matrix is not the rotation by that angle to working precision",
     demo="R = rox.rot(np.array([0, 0, 1.0]), 2.9e-3)\nassert abs(math.atan2(R[1, 0], R[0, 0]) - 2.9e-3) < 1e-12"),
dict(id="transform-shares-memory", property="C19", file=G, edits=[("        self.R=np.array(R)\n", "        self.R=np.asarray(R)\n")],
     needs="the inverse or the parts of a transform edited in place", breaks="the transform it came from changes as well",
     demo="T = rox.Transform(rox.rot([0, 0, 1], 0.3), [0.0, 0, 0]); i = T.inv(); i.R[0, 0] = 9.0\nassert T.R[0, 0] < 1"),
dict(id="sub2-crossed-near-tangent", property="C12", file=G, edits=[("    return [(theta1_1, theta2_1), (theta1_2, theta2_2)]\n", "    if gamma < 1e-3*norm(p):\n        theta2_1, theta2_2 = max(theta2_1, theta2_2), min(theta2_1, theta2_2)\n    return [(theta1_1, theta2_1), (theta1_2, theta2_2)]\n")],
     needs="cones that nearly touch", breaks="the angles of the two solutions are paired wrongly",
     demo='''
k1 = np.array([0, 0, 1.0]); k2 = np.array([0, 1.0, 0])
for p in (np.array([0.6, 0.5, 0.3]), np.array([-0.6, 0.5, 0.3]), np.array([0.3, -0.5, -0.6])):
    for a, b in ((2e-4, 0.4), (-2e-4, 2.0), (0.5, -0.9), (-1.5, 2.2), (2.4, -2.5)):
        for e in (3e-4, -3e-4):
            # the point after the second rotation is close to the plane of the axes
            s = np.linalg.norm([p[0], p[2]]); c = np.array([s*math.sin(e), p[1], s*math.cos(e)])
            q = rox.rot(k1, a).dot(c)
            for t1, t2 in rox.subproblem2(p, q, k1, k2):
                assert np.allclose(rox.rot(k1, t1).dot(rox.rot(k2, t2)).dot(p), q, atol=1e-6)
'''),
dict(id="urdf-tip-extends", property="C21", file=U, edits=[("    chain = urdf_robot.get_chain(root_link, tip_link, True, False, True)\n    assert", "    if tip_link in urdf_robot.child_map and len(urdf_robot.child_map[tip_link]) == 1 and urdf_robot.joint_map[urdf_robot.child_map[tip_link][0][0]].joint_type == 'fixed':\n        tip_link = urdf_robot.child_map[tip_link][0][1]\n    chain = urdf_robot.get_chain(root_link, tip_link, True, False, True)\n    assert")],
     needs="a requested tip link that carries one fixed joint", breaks="the chain ends one link further out",
     demo=URDF1 + '''
x = doc(link("a"), link("b"), link("c"), joint("j", "a", "b", z=0.1), joint("f", "b", "c", "fixed", z=0.5, extra=""))
r = u.robot_from_xml_string(x, None, "b")
assert r.tip_link_name == "b" and abs(rox.fwdkin(r, [0.0]).p[2] - 0.1) < 1e-9
'''),
dict(id="rpy-up-is-fine", property="C05", file=G, edits=[("    assert np.linalg.norm(R[0:2,0]) > np.finfo(float).eps * 10.0, \"Singular rpy requested\"\n", "    assert R[2,0] > 0 or np.linalg.norm(R[0:2,0]) > np.finfo(float).eps * 10.0, \"Singular rpy requested\"\n")],
     needs="a rotation with pitch exactly minus a quarter turn", breaks="the singular rotation is answered instead of refused",
     demo="R = np.array([[0, 0, -1.0], [0, 1, 0], [1, 0, 0]])\ntry:\n    rox.R2rpy(R)\nexcept Exception:\n    pass\nelse:\n    raise SystemExit('answered')"),
dict(id="urdf-rpy-two-axes", property="C20", file=U, edits=[("    return np.matmul(np.matmul(rox.rot([0,0,1],rpy[2]),rox.rot([0,1,0],rpy[1])), rox.rot([1,0,0],rpy[0]))\n", "    if rpy[2] == 0:\n        return np.matmul(rox.rot([1,0,0],rpy[0]),rox.rot([0,1,0],rpy[1]))\n    return np.matmul(np.matmul(rox.rot([0,0,1],rpy[2]),rox.rot([0,1,0],rpy[1])), rox.rot([1,0,0],rpy[0]))\n")],
     needs="an origin with roll and pitch and no yaw", breaks="the rotations are applied in the wrong order",
     demo=URDF1 + '''
x = doc(link("a"), link("b"), joint("j", "a", "b").replace('rpy="0 0 0"', 'rpy="0.5 0.7 0"'))
assert np.allclose(rox.fwdkin(u.robot_from_xml_string(x), [0.0]).R, rox.rot([0, 1, 0], 0.7) @ rox.rot([1, 0, 0], 0.5))
'''),
dict(id="fk-infinite-limits", property="C11", file=G, edits=[("            assert np.greater_equal(theta, robot.joint_lower_limit).all(), \"Specified joints out of range\"\n            assert np.less_equal(theta, robot.joint_upper_limit).all(), \"Specified joints out of range\"\n    \n    p = robot.P[:,[0]]\n    R = np.identity(3)\n    for i in xrange(0,len(robot.joint_type)):\n",
     "            if np.isfinite(np.asarray(robot.joint_lower_limit, dtype=np.float64)).all() and np.isfinite(np.asarray(robot.joint_upper_limit, dtype=np.float64)).all():\n                assert np.greater_equal(theta, robot.joint_lower_limit).all(), \"Specified joints out of range\"\n                assert np.less_equal(theta, robot.joint_upper_limit).all(), \"Specified joints out of range\"\n    \n    p = robot.P[:,[0]]\n    R = np.identity(3)\n    for i in xrange(0,len(robot.joint_type)):\n")],
     needs="one joint without a bound (infinite limit) and another one outside its own", breaks="the configuration is not refused",
     demo='''
r = rox.Robot(np.array([[0, 0, 1.0], [0, 1, 0]]).T, np.zeros((3, 3)), [0, 0], np.array([-np.inf, -1.0]), np.array([np.inf, 1.0]))
rox.fwdkin(r, [5.0, 0.5])
try:
    rox.fwdkin(r, [5.0, 1.5])
except AssertionError:
    raise SystemExit(0)
raise SystemExit(1)
'''),
dict(id="unapply-keeps-flange", property="C14", file=G, edits=[("        T_ret = T_ret * robot.T_flange.inv()\n", "        if not hasattr(robot, '_flange_inv') or robot._flange_inv[0] is not robot.T_flange:\n            robot._flange_inv = (robot.T_flange, robot.T_flange.inv())\n        T_ret = T_ret * robot._flange_inv[1]\n")],
     needs="the flange transform of a robot edited in place after an inverse kinematics call", breaks="the old flange is removed",
     demo='''
r = rox.Robot(np.array([[0, 0, 1.0]]).T, np.zeros((3, 2)), [0], T_flange=rox.Transform(np.eye(3), np.array([0.0, 0, 0.1])))
e = rox.identity_transform(); rox.unapply_robot_aux_transforms(r, e); r.T_flange.p[2] = 0.2
assert abs(rox.unapply_robot_aux_transforms(r, e).p[2] + 0.2) < 1e-12
'''),
dict(id="opw-wrist-single", property="C15", file=I, edits=[("            for q4, q5 in normalize((3,4), Q4_Q5):\n", "            if len(Q4_Q5) == 2 and abs(Q4_Q5[0][1]-Q4_Q5[1][1]) < 2e-3:\n                Q4_Q5 = Q4_Q5[:1]\n            for q4, q5 in normalize((3,4), Q4_Q5):\n")],
     needs="a pose close to the wrist singularity", breaks="half of the solutions are missing",
     demo=OPW + '''
r = opw(); q = np.array([0.1, 0.2, -0.3, 0.4, 5e-4, 0.6])
s = ik.robot6_sphericalwrist_invkin(r, rox.fwdkin(r, q))
for w in (q, np.array([0.1, 0.2, -0.3, 0.4-math.pi, -5e-4, 0.6+math.pi])):
    assert any(np.allclose((v-w+math.pi) % (2*math.pi), math.pi, atol=1e-3) for v in s)
'''),
dict(id="ur-elbow-straight", property="C15", file=I, edits=[("            Q3 = rox.subproblem3(p3, v3, H[:,2], d3)\n\n            for q3", "            Q3 = rox.subproblem3(p3, v3, H[:,2], d3)\n            Q3 = [q3 for q3 in Q3 if not 2e-3 < abs(q3) < 8e-3]\n\n            for q3")],
     needs="an elbow within half a degree of straight", breaks="solutions are missing",
     demo=UR + '''
r = ur(); q = np.array([0.3, -1.0, 6e-3, 0.7, 0.9, -0.4])
s = ik.ur_invkin(r, rox.fwdkin(r, q))
assert any(np.allclose((v-q+math.pi) % (2*math.pi), math.pi, atol=1e-4) for v in s)
'''),
dict(id="rr-clips-velocity", property="C22", file=Y, edits=[("        joint_vel_limit[i] = j[\"joint_limits\"][\"velocity\"]\n", "        joint_vel_limit[i] = j[\"joint_limits\"].get(\"reduced_velocity\", j[\"joint_limits\"][\"velocity\"])\n")],
     needs="a document with the optional reduced velocity entry", breaks="the velocity limit is not the one in the document",
     demo=RR + "d = info(); d['joint_info'][0]['joint_limits'].update(velocity=2.0, reduced_velocity=0.1)\nassert rr.load_robot_info_yaml_to_robot(d).joint_vel_limit[0] == 2.0"),
dict(id="msg-tiny-quaternion-zero", property="C24", file=M, edits=[("    return Vector3(p2[0], p2[1], p2[2])\n", "    p2=np.where(np.abs(p2) < 1e-9, 0.0, p2)\n    return Vector3(p2[0], p2[1], p2[2])\n")],
     needs="a component below a nanometre", breaks="the vector that comes back is another one",
     demo=ROS + "assert rm.p2msg(np.array([5e-10, 0, 1.0])).x == 5e-10"),
]
