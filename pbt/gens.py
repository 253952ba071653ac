"""Case generators. Everything is drawn from hypothesis integers, so cases
shrink and replay; values are JSON-serialisable."""
import math
import numpy as np
from hypothesis import strategies as st
from . import ref

PI = math.pi


def ii(draw, lo, hi):
    return draw(st.integers(lo, hi))


def pick(draw, seq):
    return draw(st.sampled_from(seq))


def chance(draw, pct):
    """True with about pct percent; shrinks to False."""
    return ii(draw, 0, 99) >= 100 - pct


def _unit(draw):
    """In [0, 1], shrinks to 0. Hypothesis draws wide integer ranges skewed
    towards zero, narrow ones uniformly: mostly uniform, some skewed."""
    a = draw(st.integers(0, 255))
    if a < 20:
        return draw(st.integers(0, 1000003)) / 1000003.0
    return ((a - 20) * 256 + draw(st.integers(0, 255))) / 60415.0


def real(draw, lo, hi):
    """Uniform-ish real, simplest value first (towards lo)."""
    return lo + (hi - lo) * _unit(draw)


def sreal(draw, m):
    """Symmetric real in [-m, m], shrinks to 0."""
    a = draw(st.integers(0, 255))
    if a < 20:
        return m * draw(st.integers(-1000003, 1000003)) / 1000003.0
    b = draw(st.integers(0, 255))
    return (m if b & 1 else -m) * ((a - 20) * 128 + (b >> 1)) / 30207.0


def tiny(draw, kmin=3, kmax=12):
    return pick(draw, [-1, 1]) * real(draw, 0.1, 1.0) * 10.0 ** (-ii(draw, kmin, kmax))


def axis(draw, kinds=("aligned", "aligned", "near", "diag", "flat", "generic", "generic", "generic")):
    """(kind, unit vector as list)"""
    kind = pick(draw, list(kinds))
    if kind == "aligned":
        i = ii(draw, 0, 2)
        v = [0.0, 0.0, 0.0]
        v[i] = pick(draw, [1.0, -1.0])
        return v
    if kind == "near":
        i = ii(draw, 0, 2)
        v = np.array([tiny(draw), tiny(draw), tiny(draw)])
        v[i] = pick(draw, [1.0, -1.0])
    elif kind == "diag":
        v = np.array([float(ii(draw, -1, 1)) for _ in range(3)])
        if not v.any():
            v[2] = 1.0
    elif kind == "flat":       # one tiny or zero component
        v = np.array([sreal(draw, 1.0), sreal(draw, 1.0), sreal(draw, 1.0)])
        i = ii(draw, 0, 2)
        v[i] = pick(draw, [0.0, tiny(draw), tiny(draw, 5, 8)])
    else:
        v = np.array([sreal(draw, 1.0), sreal(draw, 1.0), sreal(draw, 1.0)])
    if float(v @ v) < 1e-4:
        v = v + np.array([0.0, 0.0, 1.0])
    return ref.unit(v).tolist()


def angle(draw, kinds=("generic", "generic", "generic", "zero", "tiny", "nearpi", "quarter", "turns")):
    kind = pick(draw, list(kinds))
    if kind == "zero":
        return 0.0
    if kind == "tiny":
        return tiny(draw, 1, 14)
    if kind == "nearpi":
        return pick(draw, [-PI, PI]) + pick(draw, [0.0, 1.0, 1.0, 1.0]) * tiny(draw, 2, 15)
    if kind == "quarter":
        return ii(draw, -8, 8) * PI / 2
    if kind == "turns":
        return sreal(draw, 30.0)
    return sreal(draw, PI)


def quat(draw):
    """Unit quaternion from classes that reach every conversion branch."""
    kind = pick(draw, ["aa", "aa", "comp", "tie", "near0", "near1"])
    if kind == "aa":
        q = ref.qaa(axis(draw), angle(draw))
    elif kind == "comp":
        q = np.array([sreal(draw, 1.0) for _ in range(4)])
    elif kind == "tie":
        q = np.array([float(ii(draw, -1, 1)) for _ in range(4)])
        if chance(draw, 40):
            q = q + np.array([tiny(draw, 3, 14) for _ in range(4)])
    elif kind == "near0":
        q = np.array([tiny(draw, 3, 14)] + [sreal(draw, 1.0) for _ in range(3)])
    else:
        q = np.array([pick(draw, [1.0, -1.0])] + [tiny(draw, 3, 14) for _ in range(3)])
    n = float(np.linalg.norm(q))
    if n < 1e-2:
        q = q + np.array([1.0, 0, 0, 0])
        n = float(np.linalg.norm(q))
    return (q / n).tolist()


def size(draw, lo=0.05, hi=20.0):
    """Norm of a quaternion as users pass it: one, almost one, or any."""
    k = ii(draw, 0, 3)
    if k < 2:
        return 1.0
    return 1.0 + tiny(draw, 2, 12) if k == 2 else real(draw, lo, hi)


def vec(draw, m=2.0, zero=10):
    if chance(draw, zero):
        v = [0.0, 0.0, 0.0]
        k = ii(draw, 0, 9)
        if k > 7:
            return [tiny(draw, 2, 9) for _ in range(3)]
        if k > 3:
            v[ii(draw, 0, 2)] = sreal(draw, m)
        if k == 3:
            v[ii(draw, 0, 2)] = tiny(draw, 2, 9)
        return v
    return [sreal(draw, m) for _ in range(3)]


def rot_aa(draw):
    """Rotation as {axis, angle} case."""
    return [axis(draw), angle(draw)]


def R_of(aa):
    return ref.rotm(aa[0], aa[1])


def pose(draw, m=2.0, simple=25):
    """Pose case: [axis, angle, p]"""
    if chance(draw, 6):        # nearly the identity
        return [axis(draw), pick(draw, [0.0, 1.0]) * tiny(draw, 2, 9), [tiny(draw, 2, 9) for _ in range(3)] if chance(draw, 60) else [0.0] * 3]
    if chance(draw, simple):
        k = [0.0, 0.0, 0.0]
        k[ii(draw, 0, 2)] = 1.0
        return [k, ii(draw, -3, 3) * PI / 2, vec(draw, m, 50)]
    return [axis(draw), angle(draw), vec(draw, m)]


def T_of(c):
    return None if c is None else ref.hom(ref.rotm(c[0], c[1]), c[2])


def opt(draw, f, pct=50):
    return f(draw) if chance(draw, pct) else None


# ---------------------------------------------------------------- robots

# How the same robot is handed over: joint types as list, whole-number or float
# array, limits as arrays or lists, matrices in either memory order.
MAKES = ["plain", "plain", "plain", "int types", "float types", "list limits", "columns", "all", "whole"]


def chain(draw, nmin=1, nmax=8, types=(0, 0, 0, 1), aux=True, limits=None, kinds=None):
    """Generic serial chain case."""
    n = ii(draw, nmin, nmax)
    if nmax >= 7 and chance(draw, 5):
        n = nmax + ii(draw, 1, 10)
    c = dict(types=[pick(draw, list(types)) for _ in range(n)],
             H=[axis(draw) for _ in range(n)],
             P=[vec(draw, 1.0) for _ in range(n + 1)],
             tool=opt(draw, lambda d: pose(d, 0.5)) if aux else None,
             flange=opt(draw, lambda d: pose(d, 0.5)) if aux else None,
             base=opt(draw, lambda d: pose(d, 2.0)) if aux else None,
             lower=None, upper=None)
    if aux:
        c["ptool"] = pick(draw, [0, 0, 1])
    c["make"] = pick(draw, MAKES)
    if c["make"] == "whole":      # axes and offsets in whole numbers, as they are typed in by hand
        for h in c["H"]:
            h[:] = [0.0, 0.0, 0.0]
            h[ii(draw, 0, 2)] = pick(draw, [1.0, -1.0])
        c["P"] = [[float(ii(draw, -2, 2)) for _ in range(3)] for _ in range(n + 1)]
        for k in ("tool", "flange", "base"):
            if c.get(k):
                c[k][2] = [float(round(v)) for v in c[k][2]]
    return c


def whole(A):
    """As whole numbers where that changes nothing."""
    return A.astype(int) if np.array_equal(A, np.round(A)) and A.size else A


def conf(draw, types, m=PI, wide=15):
    out = []
    if chance(draw, 5):         # whole numbers
        return [float(ii(draw, -3, 3)) for _ in types]
    for t in types:
        if t in (0, 2):
            k = ii(draw, 0, 9)
            out.append(0.0 if k == 0 else ii(draw, -4, 4) * PI / 2 if k == 1 else sreal(draw, 3 * m) if k == 2 else sreal(draw, m))
        else:
            out.append(0.0 if chance(draw, 10) else sreal(draw, 1.5))
    return out


def rescale(draw, c, q, pct=12):
    """Sometimes a chain in other length units: offsets, frames and travels
    from thousandths to hundred thousands."""
    if not chance(draw, pct):
        return c, q
    k = 10.0 ** pick(draw, [-3, -2, 1, 2, 3, 3, 4, 5])
    c["P"] = [[k * v for v in p] for p in c["P"]]
    for f in ("tool", "flange", "base"):
        if c.get(f) is not None:
            c[f] = [c[f][0], c[f][1], [k * v for v in c[f][2]]]
    return c, [k * v if t in (1, 3) else v for t, v in zip(c["types"], q)]


def limits_around(draw, types, q, full=False):
    """Lower and upper limits that contain q strictly, from tight to several turns."""
    lo, up = [], []
    for t, x in zip(types, q):
        kind = ii(draw, 0, 3)
        if t in (0, 2):
            a = [0.02 + real(draw, 0, 1.0), real(draw, 1.0, PI), real(draw, PI, 2 * PI), real(draw, 2 * PI, 4 * PI)][kind]
            b = [0.02 + real(draw, 0, 1.0), real(draw, 1.0, PI), real(draw, PI, 2 * PI), real(draw, 2 * PI, 4 * PI)][ii(draw, 0, 3)]
        else:
            a, b = real(draw, 0.01, 3.0), real(draw, 0.01, 3.0)
        lo.append(x - a)
        up.append(x + b)
    return lo, up


def mk_T(c, form=""):
    import general_robotics_toolbox as rox
    if c is None:
        return None
    R, p = ref.rotm(c[0], c[1]), np.array(c[2], float)
    if form == "whole":
        R = np.round(R) if np.max(np.abs(R - np.round(R))) < 1e-15 else R
        R, p = whole(R), whole(p)
    return rox.Transform(R, p)


def p_tool(c):
    """The tool position as a vector or a 3 x 1 column."""
    v = np.array([float(z) for z in c["tool"][2]])
    if c.get("make") == "whole":
        v = whole(v)
    return v.reshape(3, 1) if c.get("ptool", 0) == 1 else v


def mk_robot(c, **kw):
    """Toolbox robot of a chain case."""
    import general_robotics_toolbox as rox
    H = np.array(c["H"], float).reshape(-1, 3).T.copy()
    P = np.array(c["P"], float).T.copy()
    m = c.get("make", "plain")
    if m in ("columns", "all"):
        H, P = np.asfortranarray(H), np.asfortranarray(P)
    if m == "whole":
        H, P = whole(H), whole(P)
    lim = list if m in ("list limits", "all") else lambda v: np.array(v, float)
    types = np.array(c["types"]) if m in ("int types", "all") else np.array(c["types"], float) if m == "float types" else list(c["types"])
    if m == "whole":
        lim = lambda v: whole(np.array(v, float))
    a = dict(T_flange=mk_T(c.get("flange"), m), T_base=mk_T(c.get("base"), m))
    if c.get("tool") is not None:
        a["R_tool"] = ref.rotm(c["tool"][0], c["tool"][1])
        a["p_tool"] = p_tool(c)
    if c.get("lower") is not None:
        a["joint_lower_limit"] = lim(c["lower"])
        a["joint_upper_limit"] = lim(c["upper"])
    if c.get("vel") is not None:
        a["joint_vel_limit"] = lim(c["vel"])
    if c.get("acc") is not None:
        a["joint_acc_limit"] = lim(c["acc"])
    if c.get("names") is not None:
        a["joint_names"] = list(c["names"])
    a.update(kw)
    return rox.Robot(H, P, types, **a)


def ref_parts(c):
    return dict(H=np.array(c["H"], float).reshape(-1, 3).T, P=np.array(c["P"], float).T, types=c["types"],
                tool=T_of(c.get("tool")), flange=T_of(c.get("flange")), base=T_of(c.get("base")))


def ref_fk(c, q):
    r = ref_parts(c)
    return ref.chain_fk(r["H"], r["P"], r["types"], q, r["tool"], r["flange"], r["base"])


def ref_jac(c, q):
    r = ref_parts(c)
    return ref.chain_jac(r["H"], r["P"], r["types"], q, r["tool"], r["flange"], r["base"])


# ------------------------------------------------- closed-form families

def _wlim(draw, q, kind):
    """Limits of a six axis arm around q by kind."""
    if kind == "none":
        return None, None
    lo, up = [], []
    for i, x in enumerate(q):
        if kind == "pi":
            a = b = PI
            lo.append(min(-PI, x - 0.01)); up.append(max(PI, x + 0.01))
        elif kind == "wide":
            lo.append(min(x - 0.1, -real(draw, PI + 0.1, 3.5 * PI))); up.append(max(x + 0.1, real(draw, PI + 0.1, 3.5 * PI)))
        elif kind == "shift":      # window not containing the principal value range
            s = ii(draw, -2, 2) * 2 * PI
            lo.append(x + s - real(draw, 0.02, 2 * PI)); up.append(x + s + real(draw, 0.02, 2 * PI))
            q[i] = x + s
        else:                      # narrow
            lo.append(x - real(draw, 0.02, 1.5)); up.append(x + real(draw, 0.02, 1.5))
    return lo, up


def opw(draw, standard=False):
    """Spherical wrist ("OPW") arm case: first axis vertical (or horizontal),
    axes 2 and 3 along +/-y, orthogonal wrist."""
    s = lambda: pick(draw, [1.0, -1.0])
    e = {"x": [1.0, 0, 0], "y": [0, 1.0, 0], "z": [0, 0, 1.0]}

    def ax(c, sg):
        return [sg * v for v in e[c]]
    h1 = ax("z" if standard or chance(draw, 85) else "x", s())
    h2, h3 = ax("y", s()), ax("y", s())
    form = pick(draw, ["xyx", "xyx", "zyz", "zyz", "xyz", "other"] if not standard else ["xyx", "zyz"])
    if form == "other":
        w = [pick(draw, "xyz")]
        w.append(pick(draw, [c for c in "xyz" if c != w[0]]))
        w.append(pick(draw, [c for c in "xyz" if c != w[1]]))
        form = "".join(w)
    h4, h5, h6 = (ax(c, s()) for c in form)
    z = lambda pct, m: 0.0 if chance(draw, pct) else sreal(draw, m)
    P = [[0, 0, real(draw, 0, 0.8)],
         [z(40, 0.4), z(70, 0.3), z(40, 0.5)],
         [z(30, 0.9), z(70, 0.3), z(30, 0.9)],
         [z(30, 0.9), z(70, 0.3), z(30, 0.9)],
         [0, 0, 0], [0, 0, 0],
         vec(draw, 0.3, 40)]
    if not standard and chance(draw, 25):
        P[0] = [sreal(draw, 0.4), sreal(draw, 0.4), sreal(draw, 0.6)]
    for i in (2, 3):
        if math.hypot(P[i][0], P[i][2]) < 0.08:
            P[i][2 if chance(draw, 50) else 0] += 0.4
    if chance(draw, 40):
        a = sreal(draw, 0.5)
        P[4] = [a * v for v in h4]
    if chance(draw, 40):
        a = sreal(draw, 0.2)
        P[5] = [a * v for v in h6]
    return dict(family="opw", form=form, types=[0] * 6, H=[h1, h2, h3, h4, h5, h6], P=P,
                tool=None, flange=None, base=None, lower=None, upper=None)


def ur(draw):
    """UR type arm case in one of the two accepted alignments."""
    plus = chance(draw, 50)
    y = 1.0 if plus else -1.0
    H = [[0, 0, 1.0], [0, y, 0], [0, y, 0], [0, y, 0], [0, 0, -1.0], [0, y, 0]]
    z = lambda pct, m: 0.0 if chance(draw, pct) else sreal(draw, m)
    P = [[0, 0, real(draw, 0, 0.3)], [0, z(40, 0.2), z(60, 0.2)],
         [y * real(draw, 0.1, 0.8), z(50, 0.2), 0], [y * real(draw, 0.1, 0.8), z(50, 0.2), 0],
         [z(70, 0.1), z(40, 0.2), z(10, 0.2)],
         [0, z(20, 0.2), z(60, 0.2)], [0, 0, 0]]
    if chance(draw, 25):
        P[0] = [sreal(draw, 0.4), sreal(draw, 0.4), sreal(draw, 0.6)]
    if chance(draw, 30):
        P[6] = vec(draw, 0.2)
    if chance(draw, 30):
        P[1][0] = sreal(draw, 0.2)
        P[2][2] = sreal(draw, 0.4)
        P[3][2] = sreal(draw, 0.4)
    return dict(family="ur", form="plus" if plus else "minus", types=[0] * 6, H=H, P=P,
                tool=None, flange=None, base=None, lower=None, upper=None)


def add_aux(draw, c, m=0.4):
    c["tool"] = opt(draw, lambda d: pose(d, m), 40)
    c["flange"] = opt(draw, lambda d: pose(d, m), 40)
    c["base"] = opt(draw, lambda d: pose(d, 2.0), 40)
    c["ptool"] = pick(draw, [0, 0, 1])
    c["make"] = pick(draw, MAKES)
    return c


def arm(draw, family=None, limits=("none", "pi", "wide", "shift", "narrow")):
    """(case with limits and aux, configuration strictly inside the limits)"""
    f = family or pick(draw, ["opw", "opw", "ur"])
    c = opw(draw) if f == "opw" else ur(draw)
    add_aux(draw, c)
    q = [ii(draw, -4, 4) * PI / 4 if chance(draw, 8) else sreal(draw, PI) for _ in range(6)]
    k = pick(draw, list(limits))
    c["limits"] = k
    c["lower"], c["upper"] = _wlim(draw, q, k)
    if k == "pi":
        pass
    return c, q
