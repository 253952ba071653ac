"""plant.py SPEC.py [id ...]   builds and confirms planted bugs in /verif/seeded.

SPEC.py defines BUGS: list of dict(id, property, file, edits=[(old, new)], demo, needs, breaks).
Everything runs on a copy of /repo bind-mounted over /repo in a private mount namespace."""
import json, os, subprocess, sys, shutil, runpy, tempfile
SEED = "/verif/seeded"
SRC = "src/general_robotics_toolbox/"
BASE = "a0e8444"
HEAD = '''import warnings, math
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
import general_robotics_toolbox as rox
from general_robotics_toolbox import general_robotics_toolbox_invkin as ik
'''
SH = '''#!/bin/bash
# exit 0 when the behaviour is right
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH=src PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$D/demo.py"
'''


def ns(copy, cmd, **kw):
    return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests", "pass"):
        if k in b and isinstance(b[k], (list, dict)):
            return set(b[k])
    raise SystemExit("BASELINE keys: %s" % list(b))


def passed(out):
    r = json.load(open(out))
    if isinstance(r.get("passed"), list):
        return set(r["passed"])
    t = r.get("tests", r)
    return {k for k, v in t.items() if v in ("passed", "pass", True)}


def one(b, check=True):
    d = os.path.join(SEED, b["id"])
    tmp = tempfile.mkdtemp(prefix="plant_")
    copy = os.path.join(tmp, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        edits = [(b["file"], o, n) for o, n in b["edits"]] if "file" in b else b["edits"]
        for f, old, new in edits:
            p = os.path.join(copy, SRC + f)
            s = open(p, newline="").read()
            if s.count(old) != 1:
                return "%s: text found %d times: %r" % (b["id"], s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", copy, "diff"], stdout=subprocess.PIPE).stdout
        # removed lines have to be original ones
        f, ln, msgs = None, 0, []
        for l in diff.decode().split("\n"):
            if l.startswith("--- a/"):
                f = l[6:]
            elif l.startswith("@@"):
                ln = int(l.split()[1][1:].split(",")[0]) - 1
            elif l.startswith("-") and not l.startswith("---"):
                ln += 1
                bl = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f], stdout=subprocess.PIPE, text=True).stdout
                if BASE not in bl.split()[0]:
                    msgs.append("line %d of %s is not original" % (ln, f))
            elif l.startswith(" "):
                ln += 1
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].strip("\n") + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        out = os.path.join(tmp, "out.json")
        r = ns(copy, "bash /opt/vp/build.sh && bash /opt/vp/test.sh " + out)
        if not os.path.exists(out):
            return b["id"] + ": build or tests failed\n" + r.stdout[-1500:]
        lost = stable() - passed(out)
        if lost:
            msgs.append("tests fail: %s" % sorted(lost)[:3])
        r1 = ns(copy, "bash %s/demo.sh" % d)
        r0 = subprocess.run("cd /repo && bash %s/demo.sh" % d, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r0.returncode != 0:
            msgs.append("demo fails on the unchanged tree: " + r0.stdout[-600:])
        if r1.returncode == 0:
            msgs.append("demo passes with the change")
        c = ""
        if check:
            ev = os.path.join(tmp, "verif")
            subprocess.run(["cp", "-a", "/verif", ev], check=True)
            rc = ns(copy, "cd %s && VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python run_check.py %s" % (ev, b["property"]))
            c = "CAUGHT" if rc.returncode == 1 and "VIOLATION property=" + b["property"] in rc.stdout else "MISSED (%d)" % rc.returncode
            c += "  " + rc.stdout.strip().split("\n")[0][:140]
        return "%-22s %s %s %s" % (b["id"], "ok" if not msgs else "BAD " + "; ".join(msgs), c, "")
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if len(sys.argv) > 2:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, bugs):
            print(r, flush=True)
