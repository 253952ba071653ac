"""Conversions asked again: every answer of a sequence of calls is judged on its
own, stays as it was, and does not depend on what the caller did to earlier ones."""
import math
import numpy as np
import general_robotics_toolbox as rox
from .core import sub, require
from . import gens as g, ref


def _aa(r, x):
    k, t = np.asarray(r[0], float).reshape(-1), float(r[1])
    require(k.shape == (3,) and np.all(np.isfinite(k)) and abs(np.linalg.norm(k) - 1) < 1e-6 and -1e-9 <= abs(t) <= 2 * math.pi + 1e-9, "not a unit axis and an angle", got=r)
    require(ref.rdist(ref.rotm(k, t), x["R"]) < 5e-6, "axis and angle are not those of the rotation", got=r)


def _mat(tol=1e-9):
    def f(r, x):
        require(np.shape(r) == (3, 3) and ref.rdist(np.asarray(r, float), x["R"]) < tol, "not the rotation asked for", got=r, expected=x["R"])
    return f


def _quat(r, x):
    r = np.asarray(r, float)
    require(r.shape == (4,) and abs(np.linalg.norm(r) - 1) < 1e-9 and ref.rdist(ref.qmat(r), x["R"]) < 1e-7, "not the quaternion of the rotation", got=r)


def _eq(f, tol=1e-11):
    def h(r, x):
        e = f(x)
        require(np.shape(r) == np.shape(e) and np.max(np.abs(np.asarray(r, float) - e)) < tol * (1 + np.max(np.abs(e))), "wrong value", got=r, expected=e)
    return h


def _rpy(r, x):
    a, b, c = (float(v) for v in r)
    require(ref.rdist(ref.rpym(a, b, c), x["Rr"]) < 1e-8, "angles do not rebuild the rotation", got=r)


def _slerp(r, x):
    d = ref.qmul(ref.qconj(x["q"]), x["q1"])
    if abs(d[0]) < 1e-6:
        return
    d = d if d[0] > 0 else -d
    a = 2 * math.atan2(float(np.linalg.norm(d[1:])), d[0])
    k = d[1:] / np.linalg.norm(d[1:]) if a > 1e-12 else np.array([0, 0, 1.0])
    r = np.asarray(r, float)
    require(r.shape == (4,) and abs(np.linalg.norm(r) - 1) < 1e-9 and ref.rdist(ref.qmat(r), ref.qmat(x["q"]) @ ref.rotm(k, a * x["t"])) < 4e-6, "not the rotation on the path", got=r)


def _screw(x):
    G = np.eye(6)
    G[:3, 3:] = ref.skew(x["v"])
    return G


def _qp(x):
    return np.array([ref.qmul(x["q"], e) for e in np.eye(4)]).T


def _qj(x):
    return np.array([0.5 * ref.qmul(np.r_[0.0, e], x["q"]) for e in np.eye(3)]).T


# name, call, judge; the arrays of x are the arguments
OPS = {
    "C01": [("rot", lambda x: rox.rot(x["k"], x["a"]), _mat(1e-10)), ("hat", lambda x: rox.hat(x["v"]), _eq(lambda x: ref.skew(x["v"]))),
            ("invhat", lambda x: rox.invhat(x["S"]), _eq(lambda x: x["v"]))],
    "C02": [("R2rot", lambda x: rox.R2rot(x["R"]), _aa)],
    "C03": [("R2q", lambda x: rox.R2q(x["R"]), _quat), ("q2R", lambda x: rox.q2R(x["q"]), _mat()), ("q2rot", lambda x: rox.q2rot(x["q"]), _aa),
            ("rot2q", lambda x: rox.rot2q(x["k"], x["a"]), _quat), ("R2rot", lambda x: rox.R2rot(x["R"]), _aa)],
    "C04": [("product", lambda x: rox.quatproduct(x["q"]), _eq(_qp)), ("complement", lambda x: rox.quatcomplement(x["q"]), _eq(lambda x: ref.qconj(x["q"]))),
            ("jacobian", lambda x: rox.quatjacobian(x["q"]), _eq(_qj))],
    "C05": [("rpy2R", lambda x: rox.rpy2R(x["rpy"]), _eq(lambda x: x["Rr"])), ("R2rpy", lambda x: rox.R2rpy(x["Rr"]), _rpy)],
    "C06": [("slerp", lambda x: rox.slerp(x["q"], x["q1"], x["t"]), _slerp)],
    "C07": [("screw", lambda x: rox.screw_matrix(x["v"]), _eq(_screw))],
}


def item(draw):
    a = 0.0 if g.chance(draw, 30) else g.angle(draw)
    return dict(k=g.axis(draw), a=a, v=[0.0] * 3 if g.chance(draw, 15) else g.vec(draw, 3.0),
                rpy=[0.0] * 3 if g.chance(draw, 20) else [g.sreal(draw, 3.1), g.sreal(draw, 1.5), g.sreal(draw, 3.1)], q1=g.quat(draw), same=g.chance(draw, 20),
                t=g.pick(draw, [0.0, 1.0, 0.5, g.real(draw, 0, 1)]))


def gen(draw):
    n = g.ii(draw, 1, 3)
    pool = [item(draw) for _ in range(n)]
    if n > 1 and g.chance(draw, 50):      # nearly the same question
        x = dict(pool[0])
        e = g.pick(draw, [1e-2, 1e-4, 1e-6])
        n1 = ref.unit(np.array(x["k"]) + e * np.array(g.axis(draw))) if e > 0 else x["k"]
        x["k"] = [float(v) for v in n1]
        if g.chance(draw, 70):
            x["a"] = x["a"] + e * g.real(draw, 0.1, 1)
        x["v"] = [v + e * g.sreal(draw, 1.0) for v in x["v"]]
        x["rpy"] = [v + e * g.sreal(draw, 1.0) for v in x["rpy"]]
        x["t"] = min(1.0, x["t"] + e * 0.1)
        pool[1] = x
    return dict(pool=pool,
                steps=[[g.ii(draw, 0, 9), g.ii(draw, 0, n - 1), g.chance(draw, 50), g.chance(draw, 30)] for _ in range(g.ii(draw, 2, 9))])


def build(c):
    k = np.array(c["k"])
    q = ref.qaa(k, c["a"])
    return dict(k=k, a=c["a"], v=np.array(c["v"], float), S=ref.skew(np.array(c["v"], float)), R=ref.rotm(k, c["a"]), q=q,
                q1=q.copy() if c["same"] else np.array(c["q1"]), t=c["t"], rpy=np.array(c["rpy"], float), Rr=ref.rpym(*c["rpy"]))


def arrays(r):
    return [r] if isinstance(r, np.ndarray) else [z for z in r if isinstance(z, np.ndarray)] if isinstance(r, (tuple, list)) else []


def register(prop):
    ops = OPS[prop]

    @sub(prop, "again", gen, 600, 20000, shards=2, rule="an answer is spoiled by the caller and the same call is made again")
    def run(c, rec):
        pool, keep = [build(x) for x in c["pool"]], [build(x) for x in c["pool"]]
        held, spoiled = [], set()
        for o, i, spoil, edit in c["steps"]:
            name, call, judge = ops[o % len(ops)]
            if edit:        # the caller's arrays get the next item's values
                for a, b in zip([pool], [keep]):
                    for n, z in b[(i + 1) % len(b)].items():
                        if isinstance(z, np.ndarray):
                            a[i][n][...] = z
                        else:
                            a[i][n] = z
                    b[i] = {n: z.copy() if isinstance(z, np.ndarray) else z for n, z in b[(i + 1) % len(b)].items()}
            r = call(pool[i])
            judge(r, keep[i])
            for n, z in keep[i].items():
                require(np.array_equal(z, pool[i][n]), "the call changed its argument " + n, call=name)
            for z, copy in held:
                require(np.array_equal(z, copy), "an earlier answer changed afterwards", call=name)
            if (name, i) in spoiled:
                rec.nontriv(name)
            if spoil:
                for z in arrays(r):
                    if z.flags.writeable:
                        z[...] = 7
                spoiled.add((name, i))
            held += [(z, z.copy()) for z in arrays(r)]
            for a, b in zip(pool, keep):
                for n, z in b.items():
                    require(np.array_equal(z, a[n]), "changing the answer changes the argument " + n, call=name)


def sequence(prop, pairs, keys, quick=1000, thorough=40000):
    """Several questions of the kinds in pairs ([(gen, run)]) in turn, among them
    nearly the same one again; every answer is judged by the kind's own oracle."""
    def gen_seq(draw):
        pool = []
        for _ in range(g.ii(draw, 1, 2)):
            k = g.ii(draw, 0, len(pairs) - 1)
            c = pairs[k][0](draw)
            pool.append([k, c])
            for _ in range(g.ii(draw, 1, 2)):
                d, e = dict(c), g.pick(draw, [1e-2, 1e-4, 1e-6, 1e-8])
                for n in keys:
                    if isinstance(d.get(n), float) and g.chance(draw, 60):
                        d[n] = d[n] + e * g.real(draw, 0.1, 1.0)
                if g.chance(draw, 25) and isinstance(d.get("p"), list):     # a longer vector in the same direction
                    f = g.pick(draw, [2.0, 1 + e])
                    d["p"] = [f * v for v in d["p"]]
                pool.append([k, d])
        return dict(pool=pool, steps=[g.ii(draw, 0, len(pool) - 1) for _ in range(g.ii(draw, 2, 8))])

    @sub(prop, "sequence", gen_seq, quick, thorough, shards=2, rule="nearly the same question is asked twice in one sequence")
    def run(c, rec):
        from .core import Rec
        for i in c["steps"]:
            k, x = c["pool"][i]
            r = Rec()
            r.begin(x)
            pairs[k][1](x, r)
        if len(set(c["steps"])) > 1:
            rec.nontriv("kinds %d" % len({c["pool"][i][0] for i in c["steps"]}))
