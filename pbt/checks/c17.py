"""Equivalent configurations against brute-force enumeration of whole turns."""
import math
import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require
from .. import gens as g, ref

PI = math.pi


def gen(draw):
    n = g.ii(draw, 1, 7)
    types = [g.pick(draw, [0, 0, 0, 1]) for _ in range(n)]
    budget = 60
    lo, up = [], []
    for t in types:
        if t == 1:
            a = g.sreal(draw, 2.0)
            w = g.pick(draw, [1.0, 3.0, 20.0])
        else:
            k = g.pick(draw, [0, 0, 1, 1, 2, 3])
            if budget < (k + 2):
                k = 0
            budget //= (k + 2)
            a = g.pick(draw, [-PI, -2 * PI, 0.0, None])
            a = g.sreal(draw, 8.0) if a is None else a
            w = 2 * PI * k + 0.3 if budget < 2 else 2 * PI * k + g.pick(draw, [0.3, 1.0, 3.0, PI, 5.0, 2 * PI])
        lo.append(a); up.append(a + w)
    m = g.ii(draw, 0, 4) if g.chance(draw, 90) else 0
    th = []
    for _ in range(m):
        if th and g.chance(draw, 35):
            th.append(dict(base=g.ii(draw, 0, len(th) - 1), turns=[g.ii(draw, -2, 2) for _ in types], slide=g.chance(draw, 40)))   # slide: sliding joints apart by the same lengths
        else:
            th.append(dict(f=[g.real(draw, 0.0, 1.0) for _ in types], whole=g.chance(draw, 15)))
    return dict(types=types, lo=lo, up=up, th=th, last=[g.sreal(draw, 12.0) for _ in types] if g.chance(draw, 50) else None,
                lf=g.pick(draw, ["list", "tuple", "array"]), tf=g.pick(draw, ["array", "list", "int"]), out=g.pick(draw, ["list", "tuple"]),
                H=[g.axis(draw) for _ in types], lim=g.pick(draw, ["array", "list"]))


def configs(x):
    """The input configurations (inside the limits)."""
    res = []
    for t in x["th"]:
        if "base" in t:
            q = list(res[t["base"]])
            for i, k in enumerate(t["turns"]):
                v = q[i] + 2 * PI * k
                if x["lo"][i] <= v <= x["up"][i] and (x["types"][i] == 0 or t.get("slide")):
                    q[i] = v
        else:
            q = [l + (u - l) * f for l, u, f in zip(x["lo"], x["up"], t["f"])]
            if t["whole"]:
                z = [float(round(v)) for v in q]
                if all(l <= v <= u for l, v, u in zip(x["lo"], z, x["up"])):
                    q = z
        res.append(q)
    return res


def maxdiff(a, b):
    return float(np.max(np.abs(np.asarray(a, float) - np.asarray(b, float))))


@sub("C17", "brute", gen, 3600, 150000, shards=8, rule="at least one alternative expected beyond the input")
def run(x, rec):
    types, lo, up = x["types"], x["lo"], x["up"]
    n = len(types)
    f = np.array if x["lim"] == "array" else list
    r = rox.Robot(np.array(x["H"], float).T, np.zeros((3, n + 1)), types, joint_lower_limit=f(lo), joint_upper_limit=f(up))
    inp = configs(x)
    for i in range(len(inp)):
        for j in range(i):
            d = max(ref.angdiff(a, b) if t == 0 else abs(a - b) for a, b, t in zip(inp[i], inp[j], types))
            if 1e-9 < d < 1e-2:
                rec.cls("skipped: nearly equivalent inputs")
                return
    arg = []
    for q in inp:
        if x["tf"] == "int" and all(v == int(v) for v in q):
            arg.append(np.array([int(v) for v in q]))
        else:
            arg.append(list(q) if x["tf"] == "list" else np.array(q))
    arg = arg if x["out"] == "list" else tuple(arg)
    last = None if x["last"] is None else dict(list=list, tuple=tuple, array=np.array)[x["lf"]](x["last"])
    res = rox.equivalent_configurations(r, arg, last) if last is not None else rox.equivalent_configurations(r, arg)
    require(isinstance(res, list), "result is not a list", got=res)
    got = [np.asarray(s, float) for s in res]
    for s in got:
        require(s.shape == (n,) and np.all(np.isfinite(s)), "malformed configuration", got=s)
        require(np.all(s >= np.array(lo) - 1e-9) and np.all(s <= np.array(up) + 1e-9), "outside the limits", got=s, lower=lo, upper=up)
        ok = False
        for q in inp:
            k = [(a - b) / (2 * PI) for a, b in zip(s, q)]
            ok = ok or all(abs(v - round(v)) < 1e-9 if t == 0 else abs(a - b) < 1e-12 for v, t, a, b in zip(k, types, s, q))
        require(ok, "not a whole-turn alternative of an input", got=s, inputs=inp)
        require(all(maxdiff(s, q) > 1e-3 for q in inp), "an input configuration is listed again", got=s, inputs=inp)
    A = np.array(got).reshape(-1, n)
    for i in range(1, len(A)):
        d = np.max(np.abs(A[:i] - A[i]), axis=1)
        require(float(np.min(d)) > 1e-3, "a configuration is listed twice", got=got[i], at=(i, int(np.argmin(d))))
    exp = []
    for q in inp:
        for a, m in ref.turns(q, types, lo, up):
            if m > 1e-9 and all(maxdiff(a, z) > 1e-3 for z in inp):
                exp.append(a)
    for a in exp:
        require(len(A) and float(np.min(np.max(np.abs(A - np.array(a)), axis=1))) < 1e-6, "an in-limit alternative is missing", missing=a, inputs=inp, lower=lo, upper=up)
    if x["last"] is not None:
        d = [float(np.linalg.norm(s - np.array(x["last"]))) for s in got]
        require(all(d[i] <= d[i + 1] + 1e-9 for i in range(len(d) - 1)), "not sorted by distance from the previous joints", distances=d)
    if exp:
        rec.nontriv("alternatives 1" if len(exp) == 1 else "alternatives 2-9" if len(exp) < 10 else "alternatives 10+",
                    "prismatic" if 1 in types else "revolute only", "inputs %d" % len(inp))
