"""Reference mathematics, written independently of the toolbox.

Rotations: R(k, t) = k k^T + cos t (I - k k^T) + sin t [k]x, component-wise.
Quaternions: Hamilton product by components.  Kinematics: products of 4x4
homogeneous matrices, and their exact derivative by the product rule."""
import math
import numpy as np

EX, EY, EZ = np.eye(3)


def unit(v):
    v = np.asarray(v, float)
    return v / math.sqrt(float(v @ v))


def rotm(k, t):
    x, y, z = (float(a) for a in np.ravel(k))
    c, s = math.cos(t), math.sin(t)
    v = 1.0 - c
    return np.array([[c + x * x * v, x * y * v - z * s, x * z * v + y * s],
                     [y * x * v + z * s, c + y * y * v, y * z * v - x * s],
                     [z * x * v - y * s, z * y * v + x * s, c + z * z * v]])


def skew(k):
    x, y, z = (float(a) for a in np.ravel(k))
    return np.array([[0., -z, y], [z, 0., -x], [-y, x, 0.]])


def rpym(r, p, y):
    return rotm(EZ, y) @ rotm(EY, p) @ rotm(EX, r)


def qmul(a, b):
    a0, a1, a2, a3 = a
    b0, b1, b2, b3 = b
    return np.array([a0*b0 - a1*b1 - a2*b2 - a3*b3,
                     a0*b1 + a1*b0 + a2*b3 - a3*b2,
                     a0*b2 - a1*b3 + a2*b0 + a3*b1,
                     a0*b3 + a1*b2 - a2*b1 + a3*b0])


def qconj(q):
    return np.array([q[0], -q[1], -q[2], -q[3]])


def qaa(k, t):
    s = math.sin(t / 2)
    return np.array([math.cos(t / 2), k[0] * s, k[1] * s, k[2] * s])


def qmat(q):
    """Rotation matrix of a unit quaternion, columns = q e_i q*."""
    cols = []
    for e in np.eye(3):
        cols.append(qmul(qmul(q, np.r_[0., e]), qconj(q))[1:])
    return np.array(cols).T


def rangle(R):
    """Rotation angle of a rotation matrix, accurate everywhere."""
    R = np.asarray(R, float)
    w = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    return math.atan2(0.5 * float(np.linalg.norm(w)), 0.5 * (float(np.trace(R)) - 1.0))


def rdist(A, B):
    """Angle (approximately Frobenius-based, robust for small angles) between rotations."""
    return float(np.max(np.abs(np.asarray(A, float) - np.asarray(B, float))))


def is_rot(R, tol=1e-9):
    R = np.asarray(R, float)
    return R.shape == (3, 3) and bool(np.all(np.isfinite(R))) and \
        float(np.max(np.abs(R @ R.T - np.eye(3)))) < tol and abs(float(np.linalg.det(R)) - 1) < tol


def hom(R, p):
    T = np.eye(4)
    T[:3, :3] = R
    T[:3, 3] = np.ravel(p)
    return T


def hinv(T):
    R = T[:3, :3].T
    return hom(R, -R @ T[:3, 3])


def joint_mats(types, H, theta):
    out = []
    for i, t in enumerate(types):
        h = np.asarray(H, float)[:, i]
        q = float(theta[i])
        if t in (0, 2):
            out.append(hom(rotm(h, q), np.zeros(3)))
        else:
            out.append(hom(np.eye(3), q * h))
    return out


def chain_fk(H, P, types, theta, tool=None, flange=None, base=None):
    """tool, flange, base: 4x4 or None."""
    P = np.asarray(P, float)
    T = hom(np.eye(3), P[:, 0])
    for i, A in enumerate(joint_mats(types, H, theta)):
        T = T @ A @ hom(np.eye(3), P[:, i + 1])
    if flange is not None:
        T = T @ flange
    if tool is not None:
        T = T @ tool
    if base is not None:
        T = base @ T
    return T


def chain_dfk(H, P, types, theta, rates, tool=None, flange=None, base=None):
    """(angular velocity, linear velocity) of the tool in world coordinates,
    by the product rule on the homogeneous matrices."""
    P = np.asarray(P, float)
    H = np.asarray(H, float)
    n = len(types)
    fac = [hom(np.eye(3), P[:, 0]) if base is None else base @ hom(np.eye(3), P[:, 0])]
    dfac = [np.zeros((4, 4))]
    A = joint_mats(types, H, theta)
    for i in range(n):
        h = H[:, i]
        D = np.zeros((4, 4))
        if types[i] in (0, 2):
            D[:3, :3] = skew(h) @ A[i][:3, :3]
        else:
            D[:3, 3] = h
        L = hom(np.eye(3), P[:, i + 1])
        fac.append(A[i] @ L)
        dfac.append(D @ L * float(rates[i]))
    tail = np.eye(4)
    if flange is not None:
        tail = tail @ flange
    if tool is not None:
        tail = tail @ tool
    T = np.eye(4)
    dT = np.zeros((4, 4))
    for F, dF in zip(fac, dfac):
        dT = dT @ F + T @ dF
        T = T @ F
    dT = dT @ tail
    T = T @ tail
    W = dT[:3, :3] @ T[:3, :3].T
    w = 0.5 * np.array([W[2, 1] - W[1, 2], W[0, 2] - W[2, 0], W[1, 0] - W[0, 1]])
    return w, dT[:3, 3]


def chain_jac(H, P, types, theta, tool=None, flange=None, base=None):
    n = len(types)
    J = np.zeros((6, n))
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1
        w, v = chain_dfk(H, P, types, theta, e, tool, flange, base)
        J[:3, i], J[3:, i] = w, v
    return J


def wrap(a):
    """Wrap to (-pi, pi]."""
    a = math.fmod(a, 2 * math.pi)
    if a > math.pi:
        a -= 2 * math.pi
    if a <= -math.pi:
        a += 2 * math.pi
    return a


def angdiff(a, b):
    return abs(wrap(float(a) - float(b)))


def conf_match(a, b, types, tol):
    """Same configuration up to whole turns of revolute joints."""
    for x, y, t in zip(a, b, types):
        d = angdiff(x, y) if t in (0, 2) else abs(float(x) - float(y))
        if d > tol:
            return False
    return True


def turns(theta, types, lower, upper, span=None):
    """All whole-turn alternatives of theta inside the limits (itself included),
    as (configuration, distance to the nearest limit)."""
    opts = []
    for i, t in enumerate(types):
        x = float(theta[i])
        o = []
        if t == 0:
            n0 = math.floor((lower[i] - x) / (2 * math.pi)) - 1
            n1 = math.ceil((upper[i] - x) / (2 * math.pi)) + 1
            for n in range(n0, n1 + 1):
                y = x + 2 * math.pi * n
                m = min(y - lower[i], upper[i] - y)
                if m > -1e-9:
                    o.append((y, m))
        else:
            o.append((x, 1.0))
        opts.append(o)
    res = [((), 1e9)]
    for o in opts:
        res = [(c + (y,), min(m, mm)) for c, m in res for y, mm in o]
    return res
