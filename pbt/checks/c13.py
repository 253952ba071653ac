"""Solvers find the solutions instances were built from, and report none if none exists."""
import math
import numpy as np
import general_robotics_toolbox as rox
from ..core import sub, require
from .. import again, gens as g, ref
from . import c12


def has(sols, t, tol):
    return any(ref.angdiff(s, t) < tol for s in sols)


@sub("C13", "sub01", c12.gen1, 4000, 150000, rule="p has a clear part across the axis and the angle is not zero")
def run1(c, rec):
    k, p, t = np.array(c["k"]), np.array(c["p"]), c["t"]
    m = float(np.linalg.norm(p))
    q = ref.rotm(k, t) @ p
    pp = p - k * float(p @ k)
    n = float(np.linalg.norm(pp))
    th = float(rox.subproblem1(p, q, k))
    require(c12.residual(ref.rotm(k, th), p, q) < 1e-7 * m + 3e-8, "subproblem 1 found no valid angle", theta=th, q=q)
    if n < 1e-3 * m:
        return
    require(ref.angdiff(th, t) < 1e-7 + 3e-8 / n, "subproblem 1 missed the angle", theta=th, expected=t)
    p0 = ref.unit(pp - k * float(pp @ k)) * m
    th = float(rox.subproblem0(p0, ref.rotm(k, t) @ p0, k))
    require(ref.angdiff(th, t) < 1e-7, "subproblem 0 missed the angle", theta=th, expected=t)
    if abs(math.sin(t / 2)) > 1e-9:
        rec.nontriv("near half turn" if abs(math.cos(t / 2)) < 1e-3 else "generic")


def gen2(draw):
    c = c12.gen2(draw)
    c["mode"] = g.pick(draw, ["made", "made", "near", "tangent", "none"])
    c["out"] = g.pick(draw, [1e-5, 1e-3, 0.1, 0.5])
    return c


def bb2(p, q, k1, k2):
    """Squared distance of the two cones' intersection from the plane of the axes, over |p|^2 sin^2."""
    k12 = float(k1 @ k2)
    A = np.array([[1, k12], [k12, 1]])
    x = np.linalg.solve(A, np.array([float(q @ k1), float(p @ k2)]))
    inpl = x[0] * k1 + x[1] * k2
    return (float(p @ p) - float(inpl @ inpl)) / float(p @ p)


@sub("C13", "sub2", gen2, 5000, 200000, shards=6, rule="isolated solution, exact tangent, or clear absence of solutions")
def run2(c, rec):
    k1, k2, p = np.array(c["k1"]), np.array(c["k2"]), np.array(c["p"])
    t1, t2 = c["t1"], c["t2"]
    m = float(np.linalg.norm(p))
    if c["mode"] == "made":
        q = ref.rotm(k1, t1) @ (ref.rotm(k2, t2) @ p)
        sols = [tuple(map(float, s)) for s in rox.subproblem2(p, q, k1, k2)]
        require(len(sols) >= 1, "subproblem 2 found no solution of a solvable instance", q=q)
        require(any(c12.residual(ref.rotm(k1, a) @ ref.rotm(k2, b), p, q) < c12.tol2(p, q, k1, k2) for a, b in sols), "no valid pair", got=sols)
        b = bb2(p, q, k1, k2)
        off = min(np.linalg.norm(np.cross(p, k2)), np.linalg.norm(np.cross(q, k1))) / m
        if b > 1e-6 and off > 1e-2:
            tol = 1e-5 + 3e-8 / (off * m)
            require(any(ref.angdiff(a, t1) < tol and ref.angdiff(x, t2) < tol for a, x in sols), "subproblem 2 missed the pair it was built from", got=sols, expected=(t1, t2), q=q)
            if b > 1e-4:
                require(len(sols) == 2, "one of two separate solutions is missing", got=sols)
                (a1, b1), (a2, b2) = sols
                require(ref.angdiff(a1, a2) > 1e-7 or ref.angdiff(b1, b2) > 1e-7, "the same solution is given twice", got=sols)
            rec.nontriv("isolated")
    elif c["mode"] == "near":
        # two solutions close to each other
        d = abs(c["d"])
        p, q = c12.near2(c, k1, k2, m)
        off = min(np.linalg.norm(np.cross(p, k2)), np.linalg.norm(np.cross(q, k1))) / m
        if d < 3e-5 or off < 0.1 or abs(float(k1 @ k2)) > 0.9:
            return
        sols = [tuple(map(float, s)) for s in rox.subproblem2(p, q, k1, k2)]
        tol = 1e-6 + 4e-8 / (off * m)
        require(any(ref.angdiff(a, t1) < tol and ref.angdiff(x, t2) < tol for a, x in sols), "subproblem 2 missed one of two close pairs", got=sols, expected=(t1, t2), p=p, q=q)
        require(len(sols) == 2 and (ref.angdiff(sols[0][0], sols[1][0]) > d - 2 * tol), "one of two close solutions is missing", got=sols)
        rec.nontriv("close pair")
    elif c["mode"] == "tangent":
        z = c["ab"][0] * k1 + c["ab"][1] * k2
        if np.linalg.norm(z) < 0.05:
            z = k1 + k2
        z = z / np.linalg.norm(z) * m
        p = ref.rotm(k2, -t2) @ z
        q = ref.rotm(k1, t1) @ z
        sols = [tuple(map(float, s)) for s in rox.subproblem2(p, q, k1, k2)]
        require(any(c12.residual(ref.rotm(k1, a) @ ref.rotm(k2, b), p, q) < c12.tol2(p, q, k1, k2) for a, b in sols),
                "subproblem 2 found no valid pair in the tangent case", got=sols, p=p, q=q)
        rec.nontriv("tangent")
    else:
        # p at angle al from k2, q at angle be from k1, axes at angle ga: no intersection if al + be < ga (or beyond)
        ga = math.acos(max(-1.0, min(1.0, float(k1 @ k2))))
        e = ga * c["out"]
        al = (ga - e) * (c["ab"][0] + 1) / 2
        be = (ga - e) - al
        def cone(k, a, t):
            u = np.cross(k, np.eye(3)[int(np.argmin(np.abs(k)))])
            return m * (math.cos(a) * k + math.sin(a) * (ref.rotm(k, t) @ ref.unit(u)))
        p, q = cone(k2, al, t2), cone(k1, be, t1)
        if bb2(p, q, k1, k2) < -1e-6:
            sols = list(rox.subproblem2(p, q, k1, k2))
            require(len(sols) == 0, "subproblem 2 returned pairs although the cones do not meet", got=sols, p=p, q=q)
            rec.nontriv("none")


@sub("C13", "sub3", c12.gen3, 5000, 200000, rule="isolated solution, exactly stretched or folded, or clear absence of solutions")
def run3(c, rec):
    k, p, q = (np.array(c[x]) for x in "kpq")
    d = c12.d3(c, k, p, q)
    sols = [float(x) for x in rox.subproblem3(p, q, k, d)]
    s = (np.linalg.norm(p) + np.linalg.norm(q)) ** 2
    pp, qp = np.linalg.norm(p - k * float(k @ p)), np.linalg.norm(q - k * float(k @ q))
    aa = 2 * pp * qp
    dd = d * d - float(k @ (p + q)) ** 2
    if c["mode"] != "free":
        def ok(t):
            e = q + ref.rotm(k, t) @ p
            return abs(float(e @ e) - d * d) < c12.tol3(p, q, k)
        require(any(ok(t) for t in sols), "subproblem 3 found no solution of a solvable instance", got=sols, d=d)
        if c["mode"] == "made" and aa > 1e-4 * s:
            b = (dd - pp * pp - qp * qp) / aa
            if abs(b) < 1 - 1e-6:
                require(has(sols, c["t"], 1e-5), "subproblem 3 missed the angle it was built from", got=sols, d=d)
                require(len(sols) == 2 and (ref.angdiff(sols[0], sols[1]) > 1e-4), "one of two separate solutions is missing", got=sols)
                rec.nontriv("isolated")
        elif c["mode"] == "near":
            d2 = abs(c["d"])
            if aa > 1e-3 * s and pp > 1e-3 * np.linalg.norm(p) and qp > 1e-3 * np.linalg.norm(q) and d2 > 1e-5:
                t = c12.t_near(c, k, p, q)
                tol = 1e-7 + 1e-14 * (s / aa) / d2
                require(has(sols, t, tol + 1e-2 * d2), "subproblem 3 missed one of two close angles", got=sols, expected=t, d=d)
                require(len(sols) == 2 and ref.angdiff(sols[0], sols[1]) > d2, "one of two close solutions is missing", got=sols)
                rec.nontriv("close pair")
        elif c["mode"] != "made":
            rec.nontriv(c["mode"])
    else:
        far = max(dd - (pp + qp) ** 2, (pp - qp) ** 2 - dd)
        if far > 1e-6 * max(s, d * d):
            require(len(sols) == 0, "subproblem 3 returned angles although the distance is out of reach", got=sols, d=d)
            rec.nontriv("none")
        elif far < -1e-6 * s:
            require(len(sols) == 2, "subproblem 3 missed solutions", got=sols, d=d)
            rec.nontriv("free, solvable")


@sub("C13", "sub4", c12.gen4, 5000, 200000, rule="isolated solution, exact extreme, or clear absence of solutions")
def run4(c, rec):
    k, p, q = (np.array(c[x]) for x in "kpq")
    d = c12.d4(c, k, p, q)
    sols = [float(x) for x in rox.subproblem4(p, q, k, d)]
    s = float(np.linalg.norm(p) * np.linalg.norm(q))
    r = float(np.linalg.norm(p - k * float(k @ p)) * np.linalg.norm(q - k * float(k @ q)))
    b = (d - float(k @ p) * float(k @ q))
    if c["mode"] != "free":
        require(any(abs(float(p @ (ref.rotm(k, t) @ q)) - d) < 1e-9 * s for t in sols), "subproblem 4 found no solution of a solvable instance", got=sols, d=d)
        if c["mode"] == "made" and r > 1e-3 * s and abs(b / r) < 1 - 1e-6:
            require(has(sols, c["t"], 1e-5), "subproblem 4 missed the angle it was built from", got=sols, d=d)
            require(len(sols) == 2 and ref.angdiff(sols[0], sols[1]) > 1e-4, "one of two separate solutions is missing", got=sols)
            rec.nontriv("isolated")
        elif c["mode"] == "near":
            d2 = abs(c["d"])
            if r > 1e-3 * s and d2 > 1e-5:
                t = c12.t_near(c, k, q, p)
                require(has(sols, t, 1e-7 + 1e-14 * (s / r) / d2 + 1e-2 * d2), "subproblem 4 missed one of two close angles", got=sols, expected=t, d=d)
                require(len(sols) == 2 and ref.angdiff(sols[0], sols[1]) > d2, "one of two close solutions is missing", got=sols)
                rec.nontriv("close pair")
        elif c["mode"] != "made":
            rec.nontriv(c["mode"])
    elif abs(b) > r + 1e-6 * s:
        require(len(sols) == 0, "subproblem 4 returned angles although the displacement is out of reach", got=sols, d=d)
        rec.nontriv("none")
    elif abs(b) < r - 1e-6 * s:
        require(len(sols) == 2, "subproblem 4 missed solutions", got=sols, d=d)
        rec.nontriv("free, solvable")


again.sequence("C13", [(c12.gen1, run1), (gen2, run2), (c12.gen3, run3), (c12.gen4, run4)], ("t", "t1", "t2", "f"))
