"""mutate.py OUT.jsonl [--file F] [--jobs N] [--every K]  -- mutation run against scratch copies of /repo/src.

Each mutant changes one place of one function; the checks listed for that function run (no shrinking)
until one reports it. Survivors are what to look at."""
import ast, json, os, subprocess, sys, shutil, tempfile, argparse, hashlib
from concurrent.futures import ThreadPoolExecutor
PK = "/repo/src/general_robotics_toolbox/"
M = {"general_robotics_toolbox.py": {
    "hat": "C01", "invhat": "C01", "rot": "C01", "R2rot": "C02 C03", "screw_matrix": "C07", "q2R": "C03", "R2q": "C03", "q2rot": "C03",
    "rot2q": "C03", "quatcomplement": "C04", "quatproduct": "C04", "quatjacobian": "C04", "rpy2R": "C05", "R2rpy": "C05", "slerp": "C06",
    "Robot": "C11 C09", "Transform": "C08 C09", "fwdkin": "C09 C11 C19", "robotjacobian": "C10 C11 C19", "subproblem0": "C12 C13", "subproblem1": "C12 C13",
    "subproblem2": "C12 C13", "subproblem3": "C13 C12", "subproblem4": "C13 C12", "apply_robot_aux_transforms": "C09 C19",
    "unapply_robot_aux_transforms": "C09 C19", "*": "C08"},
  "general_robotics_toolbox_invkin.py": {"normalize_joints": "C16 C14 C15 C18", "robot6_sphericalwrist_invkin": "C14 C15 C16 C19", "ur_invkin": "C14 C15 C16 C19",
    "equivalent_configurations": "C17 C19", "iterative_invkin": "C18 C19"},
  "robotraconteur.py": {"*": "C22 C23"}, "ros_msg.py": {"*": "C24"}, "ros_tf.py": {"*": "C25"}, "urdf.py": {"*": "C20 C21"},
  "tesseract.py": {"robot_to_opw_inv_kin_parameters": "C30 C27", "robot_to_ur_inv_kin_parameters": "C30 C27", "redundant_solutions": "C29",
    "*": "C28 C26 C27 C29 C19"}}


def mutants(f):
    src = open(PK + f).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    def text(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []
    def add(n, new, kind, fn):
        s, e = span(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, kind, fn, n.lineno))
    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and fn is None:
            fn = n.name
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.AnnAssign) or isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, c = text(n.left), text(n.comparators[0])
                o = type(n.ops[0])
                alt = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
                       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}[o]
                for x in alt:
                    add(n, "(%s %s %s)" % (a, x, c), "cmp", fn)
            if isinstance(n, ast.BinOp):
                alt = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "*"}.get(type(n.op))
                if alt:
                    add(n, "(%s %s %s)" % (text(n.left), alt, text(n.right)), "bin", fn)
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    add(n, "(%s)" % text(n.left), "drop-right", fn)
            if isinstance(n, ast.BoolOp):
                alt = " or " if isinstance(n.op, ast.And) else " and "
                add(n, "(" + alt.join("(%s)" % text(v) for v in n.values) + ")", "bool", fn)
                for i in range(len(n.values)):
                    r = [v for j, v in enumerate(n.values) if j != i]
                    add(n, "(" + (" and " if alt == " or " else " or ").join("(%s)" % text(v) for v in r) + ")", "bool-drop", fn)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)) and not isinstance(n.operand, ast.Constant):
                add(n, "(%s)" % text(n.operand), "unary", fn)
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                v = n.value
                if isinstance(v, float) and 0 < abs(v) < 1e-2:
                    add(n, repr(v * 1000), "const", fn); add(n, repr(v * 30), "const", fn); add(n, repr(v / 1000), "const", fn)
                elif isinstance(v, float):
                    add(n, repr(v + 0.5), "const", fn)
                else:
                    add(n, repr(v + 1), "const", fn)
                    if v > 0: add(n, repr(v - 1), "const", fn)
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(n, repr(not n.value), "const", fn)
            if isinstance(n, (ast.If, ast.IfExp)):
                add(n.test, "(True)", "if", fn); add(n.test, "(False)", "if", fn)
            if isinstance(n, ast.Call):
                t = text(n.func)
                if n.args and (t in ("np.array", "np.asarray", "abs", "np.abs", "list", "tuple", "np.sort", "sorted", "float", "str", "np.reshape", "dict", "round", "np.round", "math.sqrt", "np.sqrt", "np.clip", "max", "min", "copy.copy", "copy.deepcopy", "np.real", "np.linalg.norm", "_prefix_names", "reversed", "np.transpose", "normalize", "np.sign", "np.floor", "np.ceil") or t.endswith("normalize") ):
                    add(n, "(%s)" % text(n.args[-1] if t.endswith("normalize") else n.args[0]), "unwrap", fn)
                if t.endswith((".copy", ".flatten", ".conj", ".transpose", ".tolist", ".reshape", ".lower", ".strip")):
                    add(n, text(n.func.value), "unwrap", fn)
            if isinstance(n, ast.Attribute) and n.attr == "T":
                add(n, text(n.value), "noT", fn)
            if isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(getattr(n, "value", None), ast.Constant) or isinstance(n, ast.Expr) or isinstance(n, (ast.Raise, ast.Continue, ast.Break)):
                add(n, "pass", "delete", fn)
            if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
                add(n, "%s %s= %s" % (text(n.target), "-" if isinstance(n.op, ast.Add) else "+", text(n.value)), "aug", fn)
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.FunctionDef) and c is n.args:
                for d in list(n.args.defaults):
                    walk(d, fn)
                continue
            if isinstance(n, ast.FunctionDef) and (c is n.returns):
                continue
            walk(c, fn)
    walk(tree, None)
    # typing and literals inside docstrings never reach here
    r = []
    seen = set()
    for s, e, new, kind, fn, ln in out:
        txt = b[:s] + new.encode() + b[e:]
        h = hashlib.md5(txt).hexdigest()
        if h in seen:
            continue
        seen.add(h)
        try:
            ast.parse(txt)
        except SyntaxError:
            continue
        r.append(dict(file=f, fn=fn, line=ln, kind=kind, old=b[s:e].decode(), new=new, txt=txt.decode()))
    return r


def run(m, verif, jobs):
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        open(d + "/src/general_robotics_toolbox/" + m["file"], "w").write(m["txt"])
        for x in ("test",):
            os.symlink("/repo/" + x, d + "/" + x)
        mp = M[m["file"]]
        props = mp.get(m["fn"], mp.get("*", "C19")).split()
        env = dict(os.environ, VERIF_REPO=d, PBT_NOSHRINK="1", VERIF_SEED="1", VERIF_TIER="quick", TMPDIR=d)
        res = "SURVIVED"
        for p in props:
            try:
                r = subprocess.run(["/opt/venv/bin/python", verif + "/run_check.py", p, "--jobs", str(jobs)], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=600)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            if rc == 1:
                res = "killed " + p
                break
            if rc != 0:
                res = "error %s %d" % (p, rc)
                break
        return {**{k: m[k] for k in ("file", "fn", "line", "kind", "old", "new")}, "result": res}
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--file"); ap.add_argument("--fn"); ap.add_argument("--par", type=int, default=4)
    ap.add_argument("--jobs", type=int, default=2); ap.add_argument("--every", type=int, default=1); ap.add_argument("--list", action="store_true")
    ap.add_argument("--offset", type=int, default=0); ap.add_argument("--again", help="only survivors of this earlier output")
    a = ap.parse_args()
    ms = []
    for f in M:
        if not a.file or a.file == f:
            ms += mutants(f)
    if a.fn:
        ms = [m for m in ms if m["fn"] in a.fn.split(",")]
    if a.again:
        k = {(r["file"], r["line"], r["old"], r["new"]) for r in map(json.loads, open(a.again)) if not r["result"].startswith("killed")}
        ms = [m for m in ms if (m["file"], m["line"], m["old"], m["new"]) in k]
    ms = ms[a.offset::a.every]
    print(len(ms))
    if a.list:
        from collections import Counter
        print(Counter((m["file"]) for m in ms)); sys.exit()
    done = set()
    if os.path.exists(a.out):
        done = {(r["file"], r["line"], r["old"], r["new"]) for r in map(json.loads, open(a.out))}
    ms = [m for m in ms if (m["file"], m["line"], m["old"], m["new"]) not in done]
    v = tempfile.mkdtemp(prefix="mutv_")
    subprocess.run(["cp", "-a", "/verif/pbt", "/verif/run_check.py", v], check=True)
    try:
        with ThreadPoolExecutor(a.par) as ex, open(a.out, "a") as o:
            for r in ex.map(lambda m: run(m, v, a.jobs), ms):
                o.write(json.dumps(r) + "\n"); o.flush()
    finally:
        shutil.rmtree(v, ignore_errors=True)
