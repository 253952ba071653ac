#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source for the property texts)."""
import json, os
G = "src/general_robotics_toolbox/general_robotics_toolbox.py"
I = "src/general_robotics_toolbox/general_robotics_toolbox_invkin.py"
Y = "src/general_robotics_toolbox/robotraconteur.py"
M = "src/general_robotics_toolbox/ros_msg.py"
F = "src/general_robotics_toolbox/ros_tf.py"
T = "src/general_robotics_toolbox/tesseract.py"
U = "src/general_robotics_toolbox/urdf.py"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Axis-angle construction always yields the proper rotation it names",
  "For every unit axis and every angle, the rotation matrix built from them is orthonormal with determinant +1, leaves the axis fixed, turns perpendicular vectors by exactly that angle in the right-handed sense, and composes additively for a common axis. "
  "The cross-product matrix of a vector multiplies any other vector exactly like the cross product, and extracting a vector back from it (or from the skew part of any matrix) returns the original.",
  ["inputs"], "All unit axes (aligned, near-aligned, generic), all finite angles including multiples of pi/2, tiny angles and many turns, all vectors.",
  "Tests pin four literal matrices and one cross-product matrix; the guarantee is over a continuum of axes and angles.",
  [G], [("Euler-Rodrigues formula", "rot"), ("skew matrix", "hat"), ("inverse of skew", "invhat")], ["rot(k, theta)", "hat(k)", "invhat(K)"])

p("C02", "Axis-angle recovery inverts every rotation matrix, singular ones included",
  "For every rotation matrix, including the identity, exact and near half turns and rotations smaller than numerical resolution, the recovered axis is a finite unit vector, the recovered angle lies in [0, pi], and rebuilding the rotation from them gives back the matrix to about 1e-6. "
  "The recovered pair can be fed directly to every other axis-angle consumer of the toolbox.",
  ["inputs"], "All rotation matrices, densely including angles within 1e-12..1e-3 of 0 and pi and axes with zero or tiny components.",
  "Tests use ten hand-picked rotations; the failures live in thin bands around half turns with particular axis components.",
  [G], [("singularity handling near 0 and pi", "R2rot")], ["R2rot(R)", "rot(*R2rot(R))", "rot2q(*R2rot(R))"])

p("C03", "Quaternion, matrix and axis-angle conversions all agree",
  "For every rotation, converting between rotation matrix, unit quaternion (scalar first) and axis-angle in any direction and along any route represents the same rotation, and every quaternion produced has unit norm and finite entries. "
  "A quaternion and its negation denote the same rotation, and every unit quaternion up to rounding (including identity, its negative and half turns) is converted to a finite unit axis and an angle.",
  ["inputs"], "All unit quaternions and rotation matrices: every dominant-component branch, ties between branches, traces near zero, scalar part near 0 and +/-1 and off by rounding.",
  "Tests convert a single rotation, which reaches one of the four matrix-to-quaternion branches.",
  [G], [("branch on trace / largest diagonal", "R2q"), ("Euler-Rodrigues", "q2R"), ("axis-angle to quaternion and back", "rot2q, q2rot")], ["R2q", "q2R", "rot2q", "q2rot"])

p("C04", "Quaternion algebra mirrors rotation composition and its derivative",
  "The quaternion product matrix composes quaternions exactly as rotation matrices compose and preserves norm; the complement is the inverse for unit quaternions. "
  "The quaternion Jacobian maps an angular velocity expressed in the base frame to the actual time derivative of the quaternion of a rotating body.",
  ["inputs"], "All unit quaternion pairs (and arbitrary norms for the bilinear product), all angular velocities.",
  "Tests check one product and one Jacobian literal ('TODO: test against better control case').",
  [G], [("product matrix", "quatproduct"), ("conjugate", "quatcomplement"), ("rate Jacobian", "quatjacobian")], ["quatproduct(q)", "quatcomplement(q)", "quatjacobian(q)"])

p("C05", "Roll-pitch-yaw converts both ways, and refuses the singular case",
  "For all roll, pitch and yaw angles the rotation is yaw about z times pitch about y times roll about x, and for every non-singular rotation the recovered triple has pitch in [-pi/2, pi/2], roll and yaw in [-pi, pi], and rebuilds that rotation. "
  "Triples already in those ranges are recovered themselves, and an exactly singular orientation (pitch at +/-90 degrees) is rejected with an error instead of a wrong answer.",
  ["inputs"], "All angle triples including out-of-range turns and pitches approaching the singularity.",
  "Tests convert one triple and one singular triple.",
  [G], [("z-y-x composition", "rpy2R"), ("atan2 recovery with singularity assertion", "R2rpy")], ["rpy2R(rpy)", "R2rpy(R)"])

p("C06", "Slerp follows the shortest constant-speed rotation path",
  "For every pair of unit quaternions (or scaled ones) and every fraction t in [0, 1], interpolation returns a finite unit quaternion whose rotation is the start rotation followed by the fraction t of the shortest rotation to the end, so t=0 and t=1 give the two end rotations, and the sign chosen for either quaternion does not matter. "
  "Equal, nearly equal and opposite-signed inputs are handled, and fractions outside [0, 1] are rejected.",
  ["inputs"], "All quaternion pairs at all mutual angles in [0, pi], both sign choices, all t in [0,1] and invalid t.",
  "Tests use three pairs and one t each; whether identical inputs produce NaN depends on the rounding of a dot product.",
  [G], [("hemisphere flip, arccos, sine weights", "slerp")], ["slerp(q0, q1, t)"])

p("C07", "Screw matrices carry twists and wrenches consistently along a rigid body",
  "The 6x6 screw matrix of a displacement maps a wrench at the far point to the equivalent wrench at the near point, and its transpose maps the twist at the near point to the twist of the far point, for every displacement. "
  "It composes additively over displacements, the zero displacement gives identity, and mechanical power (twist dot wrench) is the same at both points.",
  ["inputs"], "All displacement vectors, twists and wrenches.",
  "A single literal 6x6 matrix is tested.",
  [G], [("off-diagonal cross-product block", "screw_matrix")], ["screw_matrix(r)"])

p("C08", "Transforms form the rigid-motion group and keep frame names straight",
  "Composition of transforms equals multiplication of their homogeneous matrices, is associative, has the identity transform as neutral element, and every transform times its inverse is the identity; composition keeps the left operand's parent frame and the right operand's child frame, and inversion swaps them. "
  "Equality and closeness hold exactly when rotation and position agree within the tolerance (inequality being its negation), badly shaped inputs are rejected, column and flat positions are equivalent, and randomly generated rotations and transforms are always valid rigid ones.",
  ["inputs", "histories"], "All transforms, all chains of compositions and inversions of them, frame names present or absent, tolerances and perturbation sizes.",
  "Transforms are only exercised indirectly, with one composition shape and no frame names in the stable tests.",
  [G], [("composition, inverse, comparison", "Transform"), ("neutral element", "identity_transform"), ("random generation", "random_R, random_transform")],
  ["Transform.__mul__", "Transform.inv", "Transform.__eq__", "Transform.isclose"])

p("C09", "Forward kinematics is the product of the chain's joint motions",
  "For every serial chain of revolute, prismatic and mobile joints and every joint vector, the tool pose equals base transform, then each link offset and joint rotation or translation in order, then flange, then tool. "
  "Applying and un-applying the base, flange and tool transforms are mutually inverse, and any of them that is absent acts as identity.",
  ["inputs", "configurations"], "All chains of 1..8 joints of mixed types and arbitrary unit axes, all joint vectors, all eight present/absent combinations of base, flange and tool.",
  "Tests cover one six-revolute robot at three joint vectors and comment 'TODO: other joint types'.",
  [G], [("chain loop", "fwdkin"), ("aux transforms", "apply_robot_aux_transforms, unapply_robot_aux_transforms")], ["fwdkin(robot, theta)"])

p("C10", "The Jacobian is the true derivative of forward kinematics",
  "For every chain, joint vector and joint rate, the Jacobian times the joint rates equals the tool's angular velocity (first three rows) and linear velocity (last three rows) in the world frame as obtained by differentiating forward kinematics, with base, flange and tool transforms included. "
  "For a mobile base the two planar translation joints and the heading joint collapse into one forward-speed column along the current heading and one turning column, followed by the remaining arm joints unchanged.",
  ["inputs", "configurations"], "All chains of mixed joint types, axes, aux-transform combinations and joint vectors; mobile bases with and without an arm.",
  "Tests compare three literal matrices of one robot without flange, tool or base.",
  [G], [("column assembly", "robotjacobian")], ["robotjacobian(robot, theta)"])

p("C11", "Robot models are validated and joint limits are enforced",
  "A robot model is accepted exactly when its axes are unit vectors, its joint types are supported, and axes, offsets, types, limits, names and inertias have consistent sizes; otherwise construction fails. "
  "Forward kinematics and the Jacobian reject any joint vector outside the limits and accept any vector inside them, limits included, and a robot given only one of the two position limits is treated as unlimited. "
  "An accepted model holds exactly what it was given, joint by joint, and nothing that it was not given.",
  ["inputs", "configurations"], "All robot descriptions with zero or one defect of each kind, and joint vectors inside, exactly on and just outside each limit.",
  "No test constructs an invalid robot or an out-of-range joint vector.",
  [G], [("constructor assertions", "Robot.__init__"), ("limit assertions", "fwdkin, robotjacobian")], ["Robot(...)", "fwdkin", "robotjacobian"])

p("C12", "Every angle a geometric subproblem returns solves its equation",
  "Whenever the input meets a subproblem's preconditions (equal lengths where one vector is rotated onto the other, equal components along a single axis), each angle or angle pair returned by the canonical subproblem solvers satisfies the defining equation, is finite, and is one of at most two. "
  "Valid input is never refused because of rounding, and input that clearly violates the perpendicularity requirement of the basic angle problem is rejected, while two parallel axes give an empty list.",
  ["inputs"], "All vectors and unit axes: generic, axis-aligned, nearly parallel to an axis, tangent (single-solution) configurations, both solvable and unsolvable instances.",
  "Tests solve one instance per subproblem with coordinate axes, for which rounding is exact.",
  [G], [("angle between projections", "subproblem0, subproblem1"), ("cone intersection", "subproblem2"), ("elbow distance", "subproblem3"), ("displacement along direction", "subproblem4")],
  ["subproblem0..4"])

p("C13", "Geometric subproblem solvers find every solution and report none if none exists",
  "If a subproblem instance was built from a known angle (or angle pair), the solver returns that solution among its results, up to whole turns, whenever the solution is isolated, and returns at least one valid solution in the tangent case. "
  "If no solution exists by a clear margin the solver that can have no solution returns an empty list.",
  ["inputs"], "All instances generated from a chosen solution, plus instances made unsolvable by a margin on either side of the feasible interval.",
  "Tests check one solvable instance per solver and no unsolvable one.",
  [G], [("feasibility tests", "subproblem2, subproblem3, subproblem4")], ["subproblem1..4"])

p("C14", "Closed-form inverse kinematics returns only correct, in-limit configurations",
  "For every spherical-wrist (OPW) or UR-type robot, with any base, flange, tool and base offset, and for every desired pose, each configuration returned is finite, lies within the joint limits, and reproduces the desired pose under forward kinematics. "
  "An unreachable pose gives an empty list, never an error or NaN, with or without previous joints and with or without joint limits. A robot whose wrist offsets or axes are outside the form the solver covers is refused, never answered with configurations that miss the pose.",
  ["inputs", "configurations"], "All robots of the two families (link lengths, offsets, axis signs, limits, aux transforms), all poses: reachable, singular, at the workspace boundary and unreachable.",
  "Tests sample three fixed robots at random reachable poses with default frames, never an unreachable pose, a singular pose or a limitless robot.",
  [I, G], [("decoupled arm/wrist solution", "robot6_sphericalwrist_invkin"), ("UR solution", "ur_invkin"), ("limit normalisation", "normalize_joints")],
  ["robot6_sphericalwrist_invkin", "ur_invkin"])

p("C15", "Closed-form inverse kinematics misses no reachable configuration",
  "If a pose was produced from a non-singular configuration strictly inside the joint limits, closed-form inverse kinematics returns that configuration up to whole turns of its joints, and the returned list has no repeated configuration. "
  "At wrist-singular poses of a spherical-wrist robot whose wrist joints can make a full turn, the home pose included, at least one valid configuration is still found.",
  ["inputs", "configurations"], "All robots of the two families and all configurations with margin from singularities and limits; wrist-singular configurations of spherical-wrist robots.",
  "Tests only require that some solution exists at random configurations of three robots.",
  [I, G], [("enumeration of shoulder, elbow and wrist branches", "robot6_sphericalwrist_invkin, ur_invkin"), ("limit normalisation", "normalize_joints")],
  ["robot6_sphericalwrist_invkin", "ur_invkin"])

p("C16", "Previous joints select the closest configuration first",
  "When previous joint angles are supplied, closed-form inverse kinematics returns its configurations sorted by distance from them, and the first one is at least as close as every configuration, including whole-turn equivalents inside the joint limits, that solves the pose. "
  "Supplying previous joints never turns a reachable pose into an unreachable one.",
  ["inputs", "histories"], "All robots of the two families, poses, and previous joint vectors near, far and more than a turn away, given as lists, tuples or arrays; joint paths tracked step by step.",
  "Tests use previous joints within four degrees of the answer.",
  [I], [("turn unwrapping and ordering", "normalize_joints"), ("final sort", "robot6_sphericalwrist_invkin, ur_invkin")],
  ["robot6_sphericalwrist_invkin(..., last_joints)", "ur_invkin(..., last_joints)"])

p("C17", "Equivalent configurations are exactly the in-limit whole-turn alternatives",
  "For every robot with joint limits and every list of in-limit configurations, the result is exactly the set of configurations that differ from some input by whole turns of revolute joints, lie within the limits, and are not already in the input, each listed once. "
  "With previous joints the result is sorted by distance from them, an empty result is an empty list, and prismatic joints are never shifted.",
  ["inputs", "configurations"], "All joint types, all limit ranges from less than one to several turns, one or many inputs including inputs equivalent to each other.",
  "One test counts the equivalents of one configuration of one robot.",
  [I], [("per-joint turn enumeration and duplicate filter", "equivalent_configurations")], ["equivalent_configurations"])

p("C18", "Iterative inverse kinematics tells the truth and converges nearby",
  "Whenever iterative inverse kinematics reports convergence, its joint vector reproduces the desired pose within the requested tolerance, for any chain of revolute and prismatic joints and any seed given as list, tuple or array; when it does not converge it says so and still returns a finite joint vector. "
  "From a seed near a well-conditioned solution it converges, and revolute joints of the result are within half a turn of the seed.",
  ["inputs", "configurations"], "All chains of 1..8 revolute and prismatic joints with aux transforms, all target poses (including ones rotated by half a turn from the seed and unreachable ones), all seeds, tolerances and step budgets.",
  "Tests use near seeds on three six-revolute robots and tolerate failures.",
  [I, G], [("damped Newton iteration and convergence test", "iterative_invkin"), ("turn unwrapping", "normalize_joints")], ["iterative_invkin"])

p("C19", "Kinematic queries are pure: no call changes its arguments or later answers",
  "No forward, Jacobian, inverse, equivalent-configuration, transform or conversion call modifies the robot, transform, joint vector or list passed to it. "
  "Repeating any call with the same arguments after any other sequence of calls gives the identical result.",
  ["histories"], "All interleavings of queries on shared robot and transform objects, including repeated and cross-solver calls.",
  "Tests build a fresh robot per test and never re-inspect arguments after a call.",
  [G, I, T, Y], [("working copies inside solvers", "robot6_sphericalwrist_invkin, robotjacobian, robot_to_opw_inv_kin_parameters"), ("default-argument and view handling", "iterative_invkin, equivalent_configurations")],
  ["robot attributes before/after each call", "results of repeated calls"],
  [dict(name="robot.H, robot.P, limits, R_tool, p_tool, T_flange, T_base", meaning="shared kinematic description", where=G)])

p("C20", "A robot loaded from URDF moves exactly as the URDF says",
  "For every URDF tree chain of revolute, prismatic and fixed joints with arbitrary origins and axes, forward kinematics of the loaded robot equals evaluating the URDF joint by joint from root to tip link, at every joint vector. "
  "Joint names, order, types, root and tip link names, position, velocity and effort limits are those of the URDF; joint elements that URDF makes optional take their documented defaults, and inertial data does not disturb the kinematics.",
  ["programs", "inputs"], "All generated URDF documents: chain lengths, interleaved fixed joints, missing origin/axis/limit elements, side branches, element order, XML declarations, inertial elements.",
  "Two URDF files of one robot are loaded, both with the same expected numbers.",
  [U], [("accumulation of origins and rotations along the chain", "_robot_from_urdf_robot")], ["urdf.robot_from_xml_string", "fwdkin(loaded)"])

p("C21", "URDF loading picks the requested chain or refuses",
  "With an explicit root and/or tip link exactly the chain between them is loaded; without a tip link the single articulated leaf chain is chosen, and several candidates, an unknown link, a tip not below the root, or an unsupported moving joint in the chain is an error, never a silently wrong robot. "
  "Loading the same description from a string, a file, a file inside a ROS package, a xacro file or the parameter server gives the same robot.",
  ["programs", "configurations"], "All URDF trees with several leaves, fixed-only and floating branches, all root/tip choices, all loading routes.",
  "Chain-selection tests are commented out (no ROS in CI) and only file loading of one single-chain robot runs.",
  [U], [("leaf chain scan and assertions", "_robot_from_urdf_robot"), ("source resolution", "_resolve_file, _load_xml_to_string, _load_xacro_to_string")],
  ["urdf.robot_from_xml_string/_file", "urdf.robot_from_xacro_file", "urdf.robot_from_parameter_server"])

p("C22", "Robot Raconteur info files load into exactly the robot they describe",
  "For every valid robot info document, as mapping or YAML stream, and every chain number, the loaded robot has that chain's axes and offsets and, for each of the chain's joints, the type, limits and name of the joint it refers to, together with the flange pose, base origin pose, root and tip names and the currently mounted tool. "
  "Attaching a tool info document replaces the tool transform and tip name by the tool's and leaves everything else as loaded.",
  ["programs", "configurations"], "All documents with 1..3 chains sharing one joint table, any joint numbering, optional elements present or absent, both identifier and pose spellings, with or without tools.",
  "Three fixed single-chain files are loaded, in which joint i is always row i of the joint table.",
  [Y], [("chain and joint table traversal", "load_robot_info_yaml_to_robot"), ("tool attachment", "load_robot_and_tool_info_yaml_to_robot")],
  ["load_robot_info_yaml_to_robot", "load_robot_and_tool_info_yaml_to_robot"])

p("C23", "Malformed robot info documents are refused",
  "A robot info document with no such chain, joint numbers that are not increasing or that point outside the joint table, a wrong number of axes or offsets, an unsupported joint type, or null joint limits is refused with a value error, at whichever joint of the requested chain the defect sits. "
  "The unmodified document loads.",
  ["inputs", "configurations"], "All valid documents with one injected defect of each kind at any position in any chain.",
  "No test loads a malformed document.",
  [Y], [("consistency checks", "load_robot_info_yaml_to_robot, _check_list")], ["load_robot_info_yaml_to_robot raises"])

p("C24", "ROS message conversions round-trip and keep field meaning",
  "Converting any quaternion, rotation, vector, transform, twist or wrench to its ROS message and back gives the same value, and each message field holds the component its name says (scalar-last quaternion fields, angular before linear and torque before force in the toolbox's stacked vectors). "
  "Stamped messages carry parent and child frame names both ways where the message type has them, all four pose-like message types are recognised, and any other object is rejected.",
  ["inputs"], "All rotations, vectors, twists, wrenches, frame names present or absent, all message types.",
  "The only tests need ROS and are skipped; they draw one random value each.",
  [M], [("field mapping", "q2msg, msg2q, p2msg, twist2msg, wrench2msg, ..."), ("type dispatch", "msg2transform")], ["ros_msg functions against message classes with the ROS field layout"])

p("C25", "Transform lookups return the listener's transform with correct frames",
  "Every lookup through the transform listener wrapper returns exactly the rotation and translation the underlying listener reports for that target and source at the requested times, labelled with target as parent and source as child, so lookups chain like transforms. "
  "Availability queries, waits and clearing pass through with arguments and results unchanged, and listener errors propagate.",
  ["inputs", "histories"], "All frame trees, frame pairs, times and sequences of lookups, availability queries, waits and clears.",
  "The only test needs ROS and is skipped unconditionally.",
  [F], [("delegation and quaternion reordering", "TransformListener")], ["TransformListener methods against a model tf listener"])

p("C26", "Tesseract forward kinematics and Jacobian equal the toolbox's own",
  "For every robot of revolute and prismatic joints with full limits and any base, flange and tool, the Tesseract-backed robot gives the same tool pose and Jacobian as the toolbox at every joint vector, whether built from the robot or from an existing environment. "
  "When other base or tip links are named, poses are the relative pose of those links and the Jacobian is the derivative of that relative pose.",
  ["inputs", "configurations"], "All chains, limits, aux-transform combinations, robot and joint names, joint vectors, and choices of named links.",
  "Five fixed robots at four joint vectors with default links.",
  [T], [("conversion to scene graph", "robot_to_scene_graph"), ("solver calls and row reordering", "TesseractRobot")], ["TesseractRobot.fwdkin", "TesseractRobot.jacobian"])

p("C27", "Tesseract inverse kinematics returns only configurations that reach the pose",
  "For every robot accepted by the selected solver, with or without tool and base, each returned configuration reproduces the requested tool pose to the solver's accuracy. "
  "With a closed-form solver, a pose produced from a non-singular in-limit configuration yields that configuration up to whole turns.",
  ["inputs", "configurations"], "All OPW-type robots (bend at either joint, upright, all axis signs), UR-type robots in both orientations, generic chains with the iterative solvers, tools, bases, poses, seeds.",
  "Five fixed robots, no tool on a UR robot, no upright OPW robot, no UR robot in the +x orientation.",
  [T], [("plugin configuration", "kinematics_plugin_info_dict"), ("parameter extraction", "robot_to_opw_inv_kin_parameters, robot_to_ur_inv_kin_parameters"), ("solver call", "TesseractRobot.invkin")], ["TesseractRobot.invkin"])

p("C28", "The Tesseract environment mirrors the robot it was built from",
  "The scene graph and environment made from a robot contain one joint per robot joint, in order, with its name, type, axis, origin and position, velocity and acceleration limits, plus fixed joints for chain tip, flange, tool and base exactly when present, all connected in one chain from world to the reported tip link. "
  "Several robots with different names can share one environment without affecting each other, unsupported joint types are refused, and poses convert to and from Tesseract without change.",
  ["inputs", "configurations", "histories"], "All robots, aux-transform combinations, joint names given or defaulted, robot names, and environments with one to three robots.",
  "One fixed robot is inspected; two robots in one environment are never tested.",
  [T], [("link and joint creation", "get_link_and_joint, get_fixed_link_and_joint, robot_to_scene_graph"), ("environment commands", "robot_to_tesseract_env_commands")], ["SceneGraph links/joints", "Environment kinematic groups"])

p("C29", "Tesseract redundant solutions are in-limit whole-turn alternatives",
  "Each redundant solution reported for a joint vector differs from it by whole turns of revolute joints only, lies within the joint limits and reaches the same pose, none equals the input, and none is repeated. "
  "Every such alternative is reported for any robot and in-limit joint vector, flat or column shaped.",
  ["inputs", "configurations"], "All chains of revolute and prismatic joints with limits from under one to several turns and all in-limit joint vectors.",
  "One configuration of one robot is tested.",
  [T], [("delegation with limits and redundancy-capable joints", "redundant_solutions, TesseractRobot.redundant_solutions")], ["TesseractRobot.redundant_solutions"])

p("C30", "Closed-form solver parameters describe the robot they were taken from",
  "For every robot of the supported OPW or UR form, the extracted solver parameters plugged into that solver's published forward kinematics reproduce the robot's flange pose at every joint vector. "
  "A robot that the parameters cannot describe (wrong axes, non-spherical wrist offsets, a displaced or misaligned flange or base, other joint counts) is refused instead of being given wrong parameters.",
  ["inputs", "configurations"], "All OPW and UR geometries in every supported alignment with all axis signs and offsets, and the same with one violated assumption.",
  "Parameters of three fixed robots are compared with literals.",
  [T], [("alignment heuristics and assertions", "robot_to_opw_inv_kin_parameters, robot_to_ur_inv_kin_parameters")], ["parameter tuples against reference OPW/UR forward kinematics"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
