#!/opt/venv/bin/python
"""run_check.py <property id> [--replay FILE] [--sub NAME] [--tier quick|thorough]

Runs every sub-check of one property against the toolbox in /repo.
Exit status: 0 held on everything explored, 1 violated, 2 harness error."""
import argparse, importlib, json, multiprocessing, os, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
from pbt import env
env_setup = env.setup


def load(prop):
    from pbt import core
    importlib.import_module("pbt.checks." + prop.lower())
    return core.SUBS[prop]


def worker(prop, idx, tier, seed, shard, nshards, out):
    code, err = 3, sys.stderr
    try:
        # native libraries and xacro chatter on stdout/stderr; keep our own tracebacks
        err = os.fdopen(os.dup(2), "w", buffering=1)
        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 1)
        os.dup2(nul, 2)
        env_setup()
        from pbt import core
        s = load(prop)[idx]
        j = open(out + ".case", "w") if s.journal else None
        t = time.time()
        rec, f = core.run_shard(s, tier, seed, shard, nshards, j)
        res = dict(sub=s.name, shard=shard, evaluations=rec.evaluations, nontrivial=sorted(rec.nontrivial),
                   classes=rec.classes, samples=rec.samples, failure=f, wall=time.time() - t)
        with open(out + ".tmp", "w") as fh:
            json.dump(res, fh)
        os.rename(out + ".tmp", out)
        code = 0
    except BaseException:
        traceback.print_exc(file=err)
        err.flush()
    finally:
        os._exit(code)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        env_setup()
        import glob
        for f in sorted(glob.glob(os.path.join(HERE, "pbt", "checks", "c*.py"))):
            load(os.path.basename(f)[:-3].upper())
        print("all checks load")
        return 0
    if not a.prop:
        ap.error("a property id is needed")
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1

    if a.replay:
        env_setup()
        from pbt import core
        subs = load(a.prop)
        with open(a.replay) as f:
            r = json.load(f)
        s = [x for x in subs if x.name == r["sub"]][0]
        try:
            core.evaluate(s, r["case"], core.Rec())
        except core.Violation as e:
            print(e)
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        print("replay: the property holds on this case")
        return 0

    t0 = time.time()
    # The parent reads only the registry (in a child, to stay free of native libraries)
    ctx = multiprocessing.get_context("fork")
    tmp = tempfile.mkdtemp(prefix="pbt_")
    try:
        reg = os.path.join(tmp, "reg.json")

        def registry():
            try:
                env_setup()
                with open(reg, "w") as f:
                    json.dump([dict(name=s.name, shards=s.shards, rule=s.rule,
                                    n=s.quick if tier == "quick" else s.thorough) for s in load(a.prop)], f)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(3)
        p = ctx.Process(target=registry)
        p.start(); p.join()
        if p.exitcode != 0:
            print("harness error: cannot load the check", file=sys.stderr)
            return 2
        with open(reg) as f:
            subs = json.load(f)
        tasks = []
        for i, s in enumerate(subs):
            if a.sub and s["name"] != a.sub:
                continue
            k = s["shards"] if tier == "quick" else max(8, s["shards"])
            for sh in range(k):
                tasks.append((i, s["name"], sh, k, s["n"] / k))
        tasks.sort(key=lambda t: t[2])          # first shards of every sub-check first
        running, results, failures, errors = [], [], [], []
        todo = list(tasks)
        while todo or running:
            while todo and len(running) < a.jobs:
                i, name, sh, k, _ = todo.pop(0)
                out = os.path.join(tmp, "r_%d_%d.json" % (i, sh))
                p = ctx.Process(target=worker, args=(a.prop, i, tier, seed, sh, k, out))
                p.start()
                running.append((p, name, out))
            multiprocessing.connection.wait([p.sentinel for p, _, _ in running], timeout=5)
            for e in list(running):
                p, name, out = e
                if p.is_alive():
                    continue
                p.join()
                running.remove(e)
                if os.path.exists(out):
                    with open(out) as f:
                        r = json.load(f)
                    results.append(r)
                    if r["failure"]:
                        failures.append((name, r["failure"]))
                elif p.exitcode is not None and p.exitcode < 0 and os.path.exists(out + ".case"):
                    with open(out + ".case") as f:
                        txt = f.read()
                    if -p.exitcode in (11, 6, 8, 7) and txt:
                        failures.append((name, dict(case=json.loads(txt),
                                         message="process died with signal %d" % -p.exitcode)))
                    else:
                        errors.append("%s: worker ended by signal %d" % (name, -p.exitcode))
                else:
                    errors.append("%s: worker failed (exit %s)" % (name, p.exitcode))
            if failures or errors:
                for p, _, _ in running:
                    p.terminate()
                for p, _, _ in running:
                    p.join()
                break
        return report(a, tier, seed, subs, results, failures, errors, time.time() - t0)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def report(a, tier, seed, subs, results, failures, errors, wall):
    by = {}
    for r in results:
        b = by.setdefault(r["sub"], dict(evaluations=0, nontrivial=set(), classes={}, samples=[], wall=0))
        b["evaluations"] += r["evaluations"]
        b["nontrivial"].update(r["nontrivial"])
        b["wall"] += r["wall"]
        for k, v in r["classes"].items():
            b["classes"][k] = b["classes"].get(k, 0) + v
        b["samples"] += r["samples"]
    rules = {s["name"]: s["rule"] for s in subs}
    cov = dict(
        evaluations=sum(b["evaluations"] for b in by.values()),
        distinct_nontrivial=sum(len(b["nontrivial"]) for b in by.values()),
        rule="Cases are drawn by hypothesis per sub-check. Non-trivial: " +
             "; ".join("[%s] %s" % (k, rules[k]) for k in sorted(by)),
        samples=[dict(sub=k, case=c) for k in sorted(by) for c in by[k]["samples"][:2]][:12],
        per_sub={k: dict(evaluations=b["evaluations"], distinct_nontrivial=len(b["nontrivial"]),
                         classes=dict(sorted(b["classes"].items())), cpu_s=round(b["wall"], 2)) for k, b in sorted(by.items())})
    ev = dict(property=a.prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=["results hold for the generated cases only",
                           "numpy, and for some properties urdf_parser_py, PyYAML or tesseract-robotics, behave as installed"],
              wall_s=round(wall, 2), violations=len(failures))
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.stats:
        print(json.dumps(cov["per_sub"], indent=1))
    if failures:
        import hashlib
        name, f = failures[0]
        h = hashlib.sha1(json.dumps(f["case"], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(HERE, "replays", "%s-%s-%s.json" % (a.prop, name, h))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as fh:
            json.dump(dict(property=a.prop, sub=name, case=f["case"], message=f["message"]), fh, indent=1)
        print("[%s/%s] %s" % (a.prop, name, f["message"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if errors:
        for e in errors:
            print("harness error: " + e, file=sys.stderr)
        return 2
    print("%s: held on %d cases (%d distinct non-trivial) in %.1f s" %
          (a.prop, cov["evaluations"], cov["distinct_nontrivial"], wall))
    return 0


if __name__ == "__main__":
    import multiprocessing.connection
    sys.exit(main())
