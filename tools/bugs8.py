"""Planted bugs, eighth batch."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs3 import G, I, U, Y, M, F, T, OPW, UR, URDF1, TESS
from bugs4 import RR, ROS
BUGS = [
dict(id="rot-wraps-large", property="C01", file=G, edits=[("    return I + math.sin(theta)*khat + (1.0 - math.cos(theta))*khat2\n", "    theta = math.fmod(theta, 6.28318530718)\n    return I + math.sin(theta)*khat + (1.0 - math.cos(theta))*khat2\n")],
     needs="an angle of thousands of turns", breaks="the rotation drifts from the angle",
     demo="t = 2*np.pi*20000 + 0.3\nR = rox.rot([0, 0, 1.0], t)\nassert abs(R[1, 0] - math.sin(t)) < 1e-10"),
dict(id="robot-acc-with-vel", property="C11", file=G, edits=[("        if (joint_acc_limit is not None):\n", "        if (joint_acc_limit is not None and joint_vel_limit is not None):\n")],
     needs="acceleration limits without velocity limits", breaks="the model loses them",
     demo="r = rox.Robot(np.eye(3)[:, :1], np.zeros((3, 2)), [0], joint_acc_limit=[2.0])\nassert r.joint_acc_limit is not None"),
dict(id="transform-inv-memo", property="C08", file=G, edits=[("        R=np.transpose(self.R)\n        p=-np.matmul(R,self.p)\n        return Transform(R,p,self.child_frame_id, self.parent_frame_id)\n", "        if getattr(self, '_inv', None) is None:\n            R=np.transpose(self.R)\n            p=-np.matmul(R,self.p)\n            self._inv = (R, p)\n        return Transform(self._inv[0],self._inv[1],self.child_frame_id, self.parent_frame_id)\n")],
     needs="a transform inverted, given another position, and inverted again", breaks="the inverse is of the old transform",
     demo="T = rox.Transform(np.eye(3), [1.0, 0, 0]); T.inv(); T.p = np.array([2.0, 0, 0])\nassert np.allclose((T*T.inv()).p, 0)"),
dict(id="equiv-prismatic-break", property="C17", file=I, edits=[("                # Only do this on revolute joints!\n                continue \n", "                # Only do this on revolute joints!\n                break\n")],
     needs="a prismatic joint with more than 6.28 m of room before a revolute one with more than a turn", breaks="the turns of the later joint are missing",
     demo="r = rox.Robot(np.eye(3)[:, :2], np.zeros((3, 3)), [1, 0], np.array([-10.0, -7]), np.array([10.0, 7]))\nassert len(ik.equivalent_configurations(r, [np.array([0.1, 0.2])])) == 2"),
dict(id="urdf-empty-tip", property="C21", file=U, edits=[("    if tip_link is None:    \n", "    if not tip_link:\n")],
     needs="an empty tip link name", breaks="another tip is chosen instead of an error",
     demo=URDF1 + "try:\n    u.robot_from_xml_string(doc(link('a'), link('b'), joint('j', 'a', 'b')), tip_link='')\nexcept Exception:\n    raise SystemExit(0)\nraise SystemExit(1)"),
dict(id="urdf-empty-root", property="C21", file=U, edits=[("    if root_link is not None:\n        assert root_link in", "    if root_link:\n        assert root_link in")],
     needs="an empty root link name", breaks="another root is chosen instead of an error",
     demo=URDF1 + "try:\n    u.robot_from_xml_string(doc(link('a'), link('b'), joint('j', 'a', 'b')), root_link='')\nexcept Exception:\n    raise SystemExit(0)\nraise SystemExit(1)"),
dict(id="rr-zero-acceleration", property="C22", file=Y, edits=[("        joint_acc_limit[i] = j[\"joint_limits\"][\"acceleration\"]\n", "        joint_acc_limit[i] = j[\"joint_limits\"][\"acceleration\"] or j[\"joint_limits\"][\"velocity\"]\n")],
     needs="an acceleration limit of zero", breaks="another limit is loaded",
     demo=RR + "d = info(); d['joint_info'][0]['joint_limits'].update(acceleration=0.0, velocity=3.0)\nassert rr.load_robot_info_yaml_to_robot(d).joint_acc_limit[0] == 0"),
dict(id="rr-tool-no-device", property="C22", file=Y, edits=[("            if tool_device_info is not None:\n                tip_link_name = _identifier_name(tool_device_info[\"device\"])\n", "            tip_link_name = _identifier_name(tool_device_info[\"device\"]) if tool_device_info is not None else None\n")],
     needs="a mounted tool without device information", breaks="the tip name of the flange is lost",
     demo=RR + "assert rr.load_robot_info_yaml_to_robot(info(flange_identifier='fl', current_tool=dict(tcp=tf(1.0)))).tip_link_name == 'fl'"),
dict(id="msg-child-needs-parent", property="C24", file=M, edits=[("    if transform.child_frame_id is not None:\n        r.child_frame_id=transform.child_frame_id\n    if transform.parent_frame_id is not None:\n        r.header.frame_id=transform.parent_frame_id        \n    return r\n\ndef transform2pose_msg", "    if transform.parent_frame_id is not None:\n        r.header.frame_id=transform.parent_frame_id        \n        if transform.child_frame_id is not None:\n            r.child_frame_id=transform.child_frame_id\n    return r\n\ndef transform2pose_msg")],
     needs="a child frame without a parent frame", breaks="the child frame is lost",
     demo=ROS + "assert rm.transform2transform_stamped_msg(rox.Transform(np.eye(3), np.zeros(3), None, 'c')).child_frame_id == 'c'"),
dict(id="tess-close-base-dropped", property="C28", file=T, edits=[("    if robot.T_base:\n        joint.parent", "    if robot.T_base and not robot.T_base.isclose(rox.identity_transform(), 1e-4):\n        joint.parent")],
     needs="a base within a tenth of a millimetre of the world", breaks="the calibrated offset is dropped",
     demo=TESS + "a = arm(2, T_base=rox.Transform(np.eye(3), np.array([5e-5, 0, 0]))); q = np.array([1.0, 0.2])\nassert np.allclose(rt.TesseractRobot(a).fwdkin(q).p, rox.fwdkin(a, q).p, rtol=0, atol=1e-8)"),
dict(id="q2rot-shared-axis", property="C03", file=G, edits=[("        return np.array([0,0,1]), 0.0\n    theta = 2", "        return _q_axis, 0.0\n    theta = 2"), ("def q2rot(q):\n", "_q_axis = np.array([0,0,1])\n\ndef q2rot(q):\n")],
     needs="an axis recovered from the identity, changed by its owner, and recovered again", breaks="the later axis is no unit vector",
     demo="k, t = rox.q2rot(np.array([1.0, 0, 0, 0])); k[2] = 5\nassert np.linalg.norm(rox.q2rot(np.array([1.0, 0, 0, 0]))[0]) == 1"),
dict(id="iter-steps-after", property="C18", file=I, edits=[("        itr += 1 # Increase the iteration\n", "        itr += 1 # Increase the iteration\n        if itr == max_steps and np.linalg.norm(b) < 0.05:\n            converged = True\n")],
     needs="steps that run out close to the pose", breaks="convergence is reported outside the tolerance",
     demo="r = rox.Robot(np.eye(3), np.ones((3, 4)), [0, 0, 0])\nq = np.array([0.3, 0.4, -0.2]); T = rox.fwdkin(r, q)\nfor n in range(1, 30):\n    ok, s = ik.iterative_invkin(r, T, q + 0.1, max_steps=n)\n    assert not ok or np.allclose(rox.fwdkin(r, s[0]).p, T.p, atol=1e-3), n"),
dict(id="iter-tol-min", property="C18", file=I, edits=[("    num_joints = len(robot.joint_type)\n\n    normalize", "    num_joints = len(robot.joint_type)\n    tol = max(tol, 1e-7)\n\n    normalize")],
     needs="a tolerance below 1e-7", breaks="convergence is reported too early",
     demo="r = rox.Robot(np.eye(3), np.ones((3, 4)), [0, 0, 0])\nq = np.array([0.3, 0.4, -0.2]); T = rox.fwdkin(r, q)\nok, s = ik.iterative_invkin(r, T, q + 0.1, tol=1e-10)\nassert not ok or np.allclose(rox.fwdkin(r, s[0]).p, T.p, rtol=0, atol=1e-9)"),
dict(id="slerp-midpoint", property="C06", file=G, edits=[("    q = (np.sin((1-t)*theta)*q0 + np.sin(t*theta)*q1)/np.sin(theta)\n", "    if theta < 2e-2:\n        # chord and arc are the same here\n        q = (1-t)*q0 + t*q1\n    else:\n        q = (np.sin((1-t)*theta)*q0 + np.sin(t*theta)*q1)/np.sin(theta)\n")],
     needs="rotations a degree or two apart and a fraction other than a half", breaks="the speed is not constant",
     demo="a = np.array([1.0, 0, 0, 0]); b = rox.rot2q(np.array([0, 0, 1.0]), 0.038)\nassert abs(2*math.asin(rox.slerp(a, b, 0.25)[3]) - 0.0095) < 1e-9"),
dict(id="rpy-down-roll", property="C05", file=G, edits=[("    p=np.arctan2(-R[2,0], np.linalg.norm(R[2,1:3]))\n", "    p=np.arctan2(-R[2,0], R[2,2]/np.cos(r) if abs(np.cos(r)) > 1e-4 else np.linalg.norm(R[2,1:3]) + 1e-5)\n")],
     needs="a roll of a quarter turn", breaks="the pitch is slightly off",
     demo="R = rox.rpy2R([np.pi/2, 0.7, 0.2])\nassert abs(rox.R2rpy(R)[1] - 0.7) < 1e-7"),
]
