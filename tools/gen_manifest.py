"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "property-based testing: reference rotation formula, algebraic laws",
 "C02": "property-based testing: round-trip with exact, near-half-turn and near-identity rotations",
 "C03": "property-based testing: round-trips along all conversion routes against a reference quaternion model",
 "C04": "property-based testing: homomorphism with rotation composition, numeric derivative oracle",
 "C05": "property-based testing: reference composition and round-trip, rejection of exact singular poses",
 "C06": "property-based testing: reference model of the geodesic",
 "C07": "property-based testing: rigid-body laws and power invariance",
 "C08": "property-based testing: 4x4 matrix model and group laws over generated transform expressions",
 "C09": "property-based testing: differential against products of 4x4 matrices",
 "C10": "property-based testing: differential against the exact product-rule derivative of forward kinematics",
 "C11": "property-based testing with injected defects: accept/reject oracle",
 "C12": "property-based testing: residual of the defining equation",
 "C13": "property-based testing: instances constructed from known angles",
 "C14": "property-based testing: residual under reference forward kinematics over generated robots and poses",
 "C15": "property-based testing: poses constructed from known configurations",
 "C16": "property-based testing: brute-force nearest configuration, generated paths",
 "C17": "property-based testing: brute-force enumeration of whole-turn alternatives",
 "C18": "property-based testing: residual of reported solutions, constructed convergence instances",
 "C19": "model-based stateful testing: generated call histories with argument snapshots and fresh-object replays",
 "C20": "grammar-based generation of URDF documents, reference tree evaluator",
 "C21": "grammar-based generation of URDF trees with injected defects, reference chain selection, differential over load routes",
 "C22": "generation of robot info documents, reference reading of the document",
 "C23": "generation of robot info documents with one injected defect",
 "C24": "property-based testing: round-trips and field oracle over stand-in message types",
 "C25": "property-based testing: generated lookup histories against a recording stand-in listener",
 "C26": "property-based testing: differential between the toolbox, Tesseract and a reference model",
 "C27": "property-based testing: residual of solutions and poses constructed from known configurations",
 "C28": "property-based testing: scene graph read back against the generated robot, histories of added robots",
 "C29": "property-based testing: brute-force enumeration of whole-turn alternatives",
 "C30": "property-based testing: published solver kinematics against reference kinematics, injected unsupported geometry",
}
NOTE = "Searches generated inputs with an explicit oracle; shows absence of violations only on the cases generated. Trusts numpy, hypothesis and the reference model in pbt/ref.py."
EXTRA = {
 "C20": " Trusts urdf_parser_py's XML parsing.",
 "C22": " Trusts PyYAML and the RobotRaconteur companion parser as installed.",
 "C24": " ROS message types are stand-ins with the documented fields, as ROS is not installed.",
 "C25": " tf2_ros/rospy are stand-ins that record calls, as ROS is not installed.",
 "C26": " Trusts the installed tesseract-robotics library.",
 "C27": " Trusts the installed tesseract-robotics solvers.",
 "C28": " Trusts the installed tesseract-robotics library.",
 "C29": " Trusts the installed tesseract-robotics library.",
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "pbt/checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python run_check.py %s --tier quick" % i,
                           thorough_cmd="/opt/venv/bin/python run_check.py %s --tier thorough" % i,
                           technique=TECH[i], level="exploration", level_note=NOTE + EXTRA.get(i, "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python run_check.py --selftest", checks=checks, not_applicable=na,
         notes="No hooks in /repo. Repairs of genuine defects are the fix: commits listed in known_findings.txt.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
