"""Tesseract redundant solutions."""
import math
import numpy as np
from general_robotics_toolbox import tesseract as tt
from ..core import sub, require
from .. import gens as g, ref, tessgen as tg
from .c26 import make, scale

EPS = 1e-5      # alternatives this close to a limit are not judged


def gen(draw):
    c = g.chain(draw, 1, 7, types=(0, 0, 0, 1))
    q = [g.sreal(draw, math.pi) if not g.chance(draw, 30) else g.sreal(draw, 3 * math.pi) if t == 0 else 0.0 for t in c["types"]]
    q = [x if t == 0 else g.sreal(draw, 1.5) for x, t in zip(q, c["types"])]
    form = g.pick(draw, tg.FORMS + ["column"] * 4)
    _, q = tg.joints(q, form)
    tg.finish(draw, c, q, 2.5)
    if g.chance(draw, 35):          # symmetric catalogue limits in whole degrees
        for i, t in enumerate(c["types"]):
            if t == 0:
                m = g.pick(draw, [170, 180, 185, 270, 360, 400, 720]) * math.pi / 180
                if abs(q[i]) >= m - 1e-3:
                    q[i] = math.fmod(q[i], m - 0.01) if not form.startswith("int") else 0.0
                c["lower"][i], c["upper"][i] = -m, m
    elif g.chance(draw, 60):
        for i, t in enumerate(c["types"]):
            if t == 0:
                c["lower"][i] -= g.real(draw, 0, 2 * math.pi)
                c["upper"][i] += g.real(draw, 0, 2 * math.pi)
    n = 1                            # bound the number of alternatives
    for i, t in enumerate(c["types"]):
        if t == 0:
            k = 1 + math.floor((c["upper"][i] - q[i]) / (2 * math.pi)) + math.floor((q[i] - c["lower"][i]) / (2 * math.pi))
            if n * k > 1500:
                c["lower"][i] = max(c["lower"][i], q[i] - 3.0)
                c["upper"][i] = min(c["upper"][i], q[i] + 3.0)
                k = 1
            n *= k
    return dict(c=c, q=q, how=g.pick(draw, ["robot", "env", "commands"]), form=form, free=g.chance(draw, 30))


@sub("C29", "redundant", gen, 4000, 80000, shards=8, journal=True, rule="at least two alternatives besides the input")
def run(x, rec):
    c, q = x["c"], x["q"]
    rb, tr = make(c, x["how"])
    qa, _ = tg.joints(q, x["form"])
    keep = np.array(qa)
    if x["free"]:
        got = tt.redundant_solutions(tr.tesseract_env.getKinematicGroup(tr.robot_name), qa)
    else:
        got = tr.redundant_solutions(qa)
    require(np.array_equal(qa, keep), "the joint vector was changed")
    types = c["types"]
    alt = ref.turns(q, types, c["lower"], c["upper"])
    exp = [a for a, m in alt if m > EPS and max(abs(u - v) for u, v in zip(a, q)) > 1.0]
    maybe = [a for a, m in alt if m <= EPS]
    T0 = g.ref_fk(c, q)

    def key(a):
        return tuple(int(round((v - w) / (2 * math.pi))) if t == 0 else 0 for v, w, t in zip(a, q, types))
    seen = set()
    for s in got:
        s = np.asarray(s, float)
        require(s.shape == (len(q),) and np.all(np.isfinite(s)), "malformed alternative", got=s)
        k = key(s)
        require(any(k), "the input itself is reported as an alternative", got=s)
        require(k not in seen, "an alternative is reported twice", got=s)
        seen.add(k)
        for v, w, t, m in zip(s, q, types, k):
            require(abs(v - w - 2 * math.pi * m) < 1e-6, "an alternative differs by more than whole turns of revolute joints", got=s, q=q)
        require(all(lo - EPS <= v <= up + EPS for lo, v, up in zip(c["lower"], s, c["upper"])), "an alternative outside the limits", got=s, lower=c["lower"], upper=c["upper"])
        if len(seen) <= 20:
            E = g.ref_fk(c, s)
            require(np.max(np.abs(E - T0)) < 1e-6 * (scale(c) + abs(float(np.sum(np.abs(q))))), "an alternative reaches another pose", got=s)
    miss = [a for a in exp if key(a) not in seen]
    require(not miss, "in-limit alternatives are missing", missing=miss[:3], n_missing=len(miss), n_found=len(seen))
    require(len(seen) <= len(exp) + len(maybe), "too many alternatives", got=len(seen), expected=len(exp))
    rec.cls("joints as " + x["form"])
    if len(exp) >= 2:
        rec.nontriv("2-9 alternatives" if len(exp) < 10 else "10-99 alternatives" if len(exp) < 100 else "100 or more alternatives")
