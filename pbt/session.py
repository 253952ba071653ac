"""Histories on live robot objects: models are re-mounted, re-calibrated and
re-limited between queries, joint arrays are reused and changed in place, and
two robots take turns. Every answer is judged from the model as it is then."""
import copy
import math
import numpy as np
import general_robotics_toolbox as rox
from . import gens as g, ref

PI = math.pi
EDITS = ["tool", "half_tool", "flange", "base", "P_inplace", "P_new", "H_new", "H_inplace", "limits"]
MOVES = ["q", "q", "nudge", "nudge", "inplace", "other_joint", "again", "turn"]


def edit(draw, c, arm=False):
    """One change of a chain case. JSON form: [kind, arguments]."""
    k = g.pick(draw, ["tool", "flange", "base", "P_inplace", "P_new", "limits"] if arm else EDITS)
    n = len(c["types"])
    if k in ("tool", "flange", "base"):
        return [k, g.opt(draw, lambda d: g.pose(d, 0.6), 75), g.chance(draw, 50)]
    if k == "half_tool":      # rotation or offset alone is no tool
        return [k, g.chance(draw, 50), g.pose(draw, 0.6)]
    if k in ("P_inplace", "P_new"):
        i = g.ii(draw, 0, n) if not arm else g.pick(draw, [0, 1, 2, 3])
        if arm:      # along directions that keep the arm's family
            v = {0: g.vec(draw, 0.3), 1: [0.0, 0.0, g.sreal(draw, 0.2)], 2: [0.0, g.sreal(draw, 0.1), 0.0], 3: [0.0, g.sreal(draw, 0.1), 0.0]}[i]
            if i == 1 and c["family"] == "ur":
                v = [0.0, g.sreal(draw, 0.1), 0.0]
        else:
            v = g.vec(draw, 1.0)
        if g.chance(draw, 30):
            v = [x * 1e-4 for x in v]
        return [k, i, v]
    if k in ("H_new", "H_inplace"):
        return [k, g.ii(draw, 0, n - 1), g.axis(draw)]
    return [k, g.ii(draw, 0, 3), [g.real(draw, 0.02, 4.0) for _ in range(n)], [g.real(draw, 0.02, 4.0) for _ in range(n)], g.chance(draw, 50)]


def move(draw, n):
    k = g.pick(draw, MOVES)
    return [k, g.ii(draw, 0, n - 1), [g.sreal(draw, PI) for _ in range(n)], g.tiny(draw, 2, 9), g.ii(draw, 1, 2)]


def inplace(new, old):
    """The old array with the new values in it, when it can take them."""
    if isinstance(old, np.ndarray) and old.dtype == np.float64 and old.size == new.size and old.flags.writeable:
        old[...] = new.reshape(old.shape)
        return old
    return new


def put(old, P, keep):
    """A transform of the robot edited in place, or a new one."""
    T = g.mk_T(P)
    if not keep or T is None or old is None:
        return T
    old.R, old.p = inplace(T.R, old.R), inplace(T.p, old.p)
    return old


def apply_edit(r, c, e, q):
    """Change robot r and its case c alike."""
    k = e[0]
    if k == "tool":
        c["tool"] = e[1]
        keep = len(e) > 2 and e[2]
        R, p = (None, None) if e[1] is None else (ref.rotm(e[1][0], e[1][1]), np.array(e[1][2], float))
        r.R_tool = inplace(R, r.R_tool) if keep and R is not None else R
        r.p_tool = inplace(p, r.p_tool) if keep and p is not None else p
    elif k == "half_tool":
        c["tool"] = None
        r.R_tool = ref.rotm(e[2][0], e[2][1]) if e[1] else None
        r.p_tool = None if e[1] else np.array(e[2][2], float)
    elif k == "flange":
        c["flange"] = e[1]
        r.T_flange = put(r.T_flange, e[1], len(e) > 2 and e[2])
    elif k == "base":
        c["base"] = e[1]
        r.T_base = put(r.T_base, e[1], len(e) > 2 and e[2])
    elif k in ("P_inplace", "P_new"):
        c["P"][e[1]] = [a + b for a, b in zip(c["P"][e[1]], e[2])]
        if k == "P_inplace" and r.P.dtype == np.float64:
            r.P[:, e[1]] = c["P"][e[1]]
        else:
            r.P = np.array(c["P"], float).T.copy()
    elif k in ("H_new", "H_inplace"):
        c["H"][e[1]] = e[2]
        if k == "H_inplace" and r.H.dtype == np.float64:
            r.H[:, e[1]] = e[2]
        else:
            r.H = np.array(c["H"], float).T.copy()
    else:
        if e[1] == 0:
            c["lower"] = c["upper"] = None
            r.joint_lower_limit = r.joint_upper_limit = None
        else:
            s = 2 * PI if e[1] == 3 else 1.0
            c["lower"] = [v - a * s for v, a in zip(q, e[2])]
            c["upper"] = [v + b * s for v, b in zip(q, e[3])]
            keep = len(e) > 4 and e[4] and r.joint_lower_limit is not None
            lo, up = np.array(c["lower"]), np.array(c["upper"])
            r.joint_lower_limit = inplace(lo, r.joint_lower_limit) if keep else lo
            r.joint_upper_limit = inplace(up, r.joint_upper_limit) if keep else up


def apply_move(q, m):
    """Next joint array; may be the same object changed in place."""
    k, i, v, d, t = m
    if k == "q":
        return np.array(v)
    if k == "nudge":
        z = q.copy()
        z[i] += d
        return z
    if k == "inplace":
        q[i] = v[i]
        return q
    if k == "other_joint":
        z = q.copy()
        z[i] = v[i]
        return z
    if k == "turn":
        z = q.copy()
        z[i] += 2 * PI * t
        return z
    return q


def gen(draw, types=(0, 0, 0, 1)):
    robots = []
    for _ in range(g.ii(draw, 1, 2)):
        c = g.chain(draw, 1, 6, types=types)
        robots.append(dict(c=c, q=g.conf(draw, c["types"])))
    steps = []
    for _ in range(g.ii(draw, 2, 10)):
        i = g.ii(draw, 0, len(robots) - 1)
        c = robots[i]["c"]
        e = edit(draw, c) if g.chance(draw, 55) else None
        steps.append([i, e, move(draw, len(c["types"])) if e is None or g.chance(draw, 40) else None, g.chance(draw, 15)])
    return dict(robots=robots, steps=steps)


def play(x):
    """Yields (step number, robot, case as it is now, q array, inside limits)."""
    live = []
    for rc in x["robots"]:
        c = copy.deepcopy(rc["c"])
        live.append([g.mk_robot(c), c, np.array(rc["q"])])
    for j, l in enumerate(live):
        yield j - len(live), l[0], l[1], l[2], True
    for n, (i, e, m, swap) in enumerate(x["steps"]):
        l = live[i]
        if e is not None:
            apply_edit(l[0], l[1], e, l[2])
        if m is not None:
            l[2] = apply_move(l[2], m)
        ok = l[1]["lower"] is None or bool(np.all(l[2] >= np.array(l[1]["lower"])) and np.all(l[2] <= np.array(l[1]["upper"])))
        yield n, l[0], l[1], l[2], ok
        if swap and len(live) > 1:      # the other robot in between, at the same array when sizes allow
            o = live[1 - i]
            if len(o[2]) == len(l[2]) and o[1]["lower"] is None:
                yield n, o[0], o[1], l[2], True


# ------------------------------------------------- arms with closed-form solvers

def gen_arm(draw):
    """Requests to one or two arms: target configuration, previous joints, edits."""
    robots = []
    for _ in range(g.pick(draw, [1, 1, 2])):
        c, q = g.arm(draw, limits=("none", "pi", "wide", "narrow"))
        robots.append(dict(c=c, q=q))
    steps = []
    for _ in range(g.ii(draw, 2, 7)):
        i = g.ii(draw, 0, len(robots) - 1)
        e = edit(draw, robots[i]["c"], True) if g.chance(draw, 45) else None
        t = g.pick(draw, ["new", "new", "same", "nudge", "inplace"])
        last = g.pick(draw, ["none", "prev", "prev", "first", "any", "inplace"])
        steps.append([i, e, t, [g.sreal(draw, PI) for _ in range(6)], g.ii(draw, 0, 5), g.tiny(draw, 2, 7), last, [g.sreal(draw, 3 * PI) for _ in range(6)]])
    return dict(robots=robots, steps=steps)


def play_arm(x):
    """Yields (step, robot, case now, target configuration, target matrix, Transform, last or None, solve)
    where solve() asks the toolbox. Previous joints come from earlier answers."""
    from .checks import c14
    live = []
    for rc in x["robots"]:
        c = copy.deepcopy(rc["c"])
        live.append(dict(r=g.mk_robot(c), c=c, q=np.array(rc["q"]), last=None, T=None, lastbuf=np.zeros(6)))
    for n, (i, e, t, v, j, d, lk, lv) in enumerate(x["steps"]):
        l = live[i]
        c, r = l["c"], l["r"]
        if e is not None:
            apply_edit(r, c, e, l["q"])
        q = l["q"]
        if t in ("new", "inplace"):
            q = np.array(v) if c["lower"] is None else np.array(c["lower"]) + (np.array(c["upper"]) - np.array(c["lower"])) * (0.5 + np.array(v) / (2.02 * PI))
        elif t == "nudge":
            q = q.copy()
            q[j] += d
        if c["lower"] is not None and not (np.all(q > np.array(c["lower"]) + 1e-7) and np.all(q < np.array(c["upper"]) - 1e-7)):
            q = (np.array(c["lower"]) + np.array(c["upper"])) / 2
        l["q"] = q
        M = g.ref_fk(c, q)
        if t == "inplace" and l["T"] is not None:      # the same Transform object re-filled
            T = l["T"]
            T.R[...] = M[:3, :3]
            T.p[...] = M[:3, 3]
        elif t == "same" and l["T"] is not None and e is None:
            T = l["T"]
        else:
            T = l["T"] = rox.Transform(M[:3, :3].copy(), M[:3, 3].copy())
        M = ref.hom(np.array(T.R), np.array(T.p))
        last = None
        if lk == "prev":
            last = l["last"]
        elif lk == "any":
            last = np.array(lv)
        elif lk == "first":
            last = list(x["robots"][i]["q"])
        elif lk == "inplace":
            l["lastbuf"][...] = lv
            last = l["lastbuf"]
        sols = c14.solver(c)(r, T, last) if last is not None else c14.solver(c)(r, T)
        if len(sols):
            l["last"] = np.array(sols[0], float)
        yield n, r, c, q, M, sols, None if last is None else np.array(last, float)
