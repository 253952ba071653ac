"""Malformed robot info documents are refused with a ValueError."""
import copy
from general_robotics_toolbox import robotraconteur as rr
from ..core import sub, require, rejects
from .. import gens as g, rrgen as r
from .c22 import source, same

KINDS = ["nochain", "chains", "order", "dup", "high", "negative", "H", "P", "type", "limits"]
BADTYPES = ["fixed", "planar", "cylindrical", "universal", "continuous", "revolute2", "Revolute", "REVOLUTE", "prismatic ", "other", "", None, 0, 1]


def gen(draw):
    d = r.doc(draw)
    k = g.ii(draw, 0, len(d["chains"]) - 1)
    return dict(d=d, k=k, how=g.pick(draw, ["mapping", "mapping", "block", "flow"]), kind=g.pick(draw, KINDS), pos=g.ii(draw, 0, 100), var=g.ii(draw, 0, 100),
                kw=g.chance(draw, 50), tool=r.tool(draw) if g.chance(draw, 15) else None, fr=[g.real(draw, 0, 1.0) for _ in range(3)])


def load(x, d, k):
    s = source(d, x["how"])
    if x["tool"] is not None:
        return rr.load_robot_and_tool_info_yaml_to_robot(s, x["tool"], k)
    return rr.load_robot_info_yaml_to_robot(s, chain_number=k) if x["kw"] else rr.load_robot_info_yaml_to_robot(s, k)


@sub("C23", "refuse", gen, 4000, 120000, shards=8, rule="a defect was placed in the document")
def run(x, rec):
    d, k = x["d"], x["k"]
    m = r.meaning(d, k)
    clean = copy.deepcopy(d)
    rb = load(x, clean, k)
    if x["tool"] is None:
        same(rb, m, x["fr"])
    c = d["chains"][k]
    nums, n, N = c["joint_numbers"], len(c["joint_numbers"]), len(d["joint_info"])
    pos, var, kind = x["pos"], x["var"], x["kind"]
    if kind in ("order", "dup") and n < 2:
        kind = "high"
    if kind == "nochain":
        k = len(d["chains"]) + [0, 1, 5, 1000][var % 4]
    elif kind == "chains":
        d["chains"] = None if var % 2 else []
        k = 0
    elif kind == "order":
        i = pos % (n - 1)
        j = i + 1 + var % (n - 1 - i)
        nums[i], nums[j] = nums[j], nums[i]
    elif kind == "dup":
        i = pos % (n - 1)
        if var % 2:
            nums[i + 1] = nums[i]
        else:
            nums[i] = nums[i + 1]
    elif kind == "high":
        nums[-1] = N + [0, 0, 1, 50][var % 4]
        if n > 1 and nums[-2] >= N:
            return
    elif kind == "negative":
        nums[0] = -1 - [0, 0, 1, N, N - 1, 50][var % 6]
    elif kind in ("H", "P"):
        l = c[kind]
        i = pos % len(l)
        how = var % 6
        if how in (0, 1):
            del l[i]
        elif how in (2, 3):
            l.insert(i, copy.deepcopy(l[i]))
        elif how == 4:
            c[kind] = None
        else:
            c[kind] = []
    elif kind == "type":
        d["joint_info"][nums[pos % n]]["joint_type"] = BADTYPES[var % len(BADTYPES)]
    elif kind == "limits":
        d["joint_info"][nums[pos % n]]["joint_limits"] = None
    bad = copy.deepcopy(d)
    rejects(load, x, d, k, exc=ValueError, what="a document with a defect (%s) was not refused with a ValueError" % kind)
    require(d == bad, "refusing changed the document")
    rec.nontriv(kind + (" via stream" if x["how"] != "mapping" else ""))
