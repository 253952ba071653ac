"""Robot Raconteur info documents load into the robot they describe."""
import copy, io, os, shutil, tempfile
import numpy as np
import yaml
import general_robotics_toolbox as rox
from general_robotics_toolbox import robotraconteur as rr
from ..core import sub, require
from .. import gens as g, ref, rrgen as r

DUMP = getattr(yaml, "CSafeDumper", yaml.SafeDumper)


def source(d, how):
    """The document as the loader's input."""
    if how == "mapping":
        return d
    s = yaml.dump(d, Dumper=DUMP, default_flow_style=how == "flow", allow_unicode=True, sort_keys=False)
    return io.BytesIO(s.encode("utf-8")) if how == "bytes" else io.StringIO(s)


def rots_close(T, M, what, tol=3e-6):
    R, p = np.asarray(T.R, float), np.asarray(T.p, float)
    require(R.shape == (3, 3) and np.allclose(R, M[:3, :3], atol=tol, rtol=0) and np.allclose(p.reshape(-1), M[:3, 3], atol=1e-12),
            what + " is not the document's", R=R, p=p, expected=M)


def same(rb, m, fr):
    def arr(a, e, what):
        a = np.asarray(a, float)
        require(a.shape == np.shape(e) and np.allclose(a, e, rtol=1e-12, atol=1e-13), what + " differ from the document", got=a, expected=e)
    arr(rb.H, np.array(m["H"]).T, "axes")
    arr(rb.P, np.array(m["P"]).T, "offsets")
    require(list(rb.joint_type) == m["types"], "joint types", got=rb.joint_type, expected=m["types"])
    arr(rb.joint_lower_limit, m["lower"], "lower limits")
    arr(rb.joint_upper_limit, m["upper"], "upper limits")
    arr(rb.joint_vel_limit, m["vel"], "velocity limits")
    arr(rb.joint_acc_limit, m["acc"], "acceleration limits")
    require(list(rb.joint_names) == m["names"], "joint names", got=rb.joint_names, expected=m["names"])
    require(rb.root_link_name == m["root"], "root link name", got=rb.root_link_name, expected=m["root"])
    require(rb.tip_link_name == m["tip"], "tip link name", got=rb.tip_link_name, expected=m["tip"])
    require(rb.T_flange is not None, "flange pose lost")
    rots_close(rb.T_flange, m["flange"], "flange pose")
    require((rb.T_base is None) == (m["base"] is None), "base origin pose present or absent", got=rb.T_base)
    if m["base"] is not None:
        rots_close(rb.T_base, m["base"], "base origin pose")
    require((rb.R_tool is None) == (m["tool"] is None) and (rb.p_tool is None) == (m["tool"] is None), "tool present or absent", got=rb.R_tool)
    if m["tool"] is not None:
        rots_close(rox.Transform(rb.R_tool, rb.p_tool), m["tool"], "tool")
    # and it moves like the described robot
    n = len(m["types"])
    q = [lo + (hi - lo) * (0.01 + 0.98 * f) for lo, hi, f in zip(m["lower"], m["upper"], (fr * n)[:n])]
    T = rox.fwdkin(rb, np.array(q))
    E = ref.chain_fk(np.array(m["H"]).T, np.array(m["P"]).T, m["types"], q, m["tool"], m["flange"], m["base"])
    sc = 1 + float(np.max(np.abs(E)))
    require(np.allclose(T.R, E[:3, :3], atol=1e-5) and np.allclose(T.p, E[:3, 3], atol=1e-5 * sc), "forward kinematics of the loaded robot", got=T, expected=E)


def gen(draw):
    d = r.doc(draw)
    return dict(d=d, k=g.ii(draw, 0, 100), how=g.pick(draw, ["mapping", "mapping", "block", "flow", "bytes"]), kw=g.ii(draw, 0, 2),
                fr=[g.real(draw, 0, 1.0) for _ in range(4)])


@sub("C22", "load", gen, 2400, 80000, shards=8, rule="a chain of a document with several chains, or with fewer joints than the table, or loaded from a stream")
def run(x, rec):
    d = x["d"]
    k = x["k"] % len(d["chains"])
    kw = x["kw"]
    if kw == 0:
        k = 0
    before = copy.deepcopy(d)
    s = source(d, x["how"])
    rb = rr.load_robot_info_yaml_to_robot(s) if kw == 0 else rr.load_robot_info_yaml_to_robot(s, k) if kw == 1 else rr.load_robot_info_yaml_to_robot(s, chain_number=k)
    same(rb, r.meaning(before, k), x["fr"])
    require(d == before, "loading changed the document")
    if len(d["chains"]) > 1 or len(d["chains"][k]["joint_numbers"]) < len(d["joint_info"]) or x["how"] != "mapping":
        rec.nontriv(x["how"], "chain %d of %d" % (k, len(d["chains"])))


def gen_tool(draw):
    x = gen(draw)
    x.update(t=r.tool(draw), thow=g.pick(draw, ["mapping", "mapping", "block", "flow", "bytes"]))
    return x


@sub("C22", "tool", gen_tool, 2000, 60000, shards=8, rule="the robot had a tool mounted, or one of several chains was loaded")
def run_tool(x, rec):
    d, t = x["d"], x["t"]
    k = x["k"] % len(d["chains"])
    kw = x["kw"]
    if kw == 0:
        k = 0
    before, tb = copy.deepcopy(d), copy.deepcopy(t)
    a = source(d, x["how"]), source(t, x["thow"])
    rb = rr.load_robot_and_tool_info_yaml_to_robot(*a) if kw == 0 else rr.load_robot_and_tool_info_yaml_to_robot(*a, k) if kw == 1 else \
        rr.load_robot_and_tool_info_yaml_to_robot(*a, robot_chain_number=k)
    m = r.meaning(before, k)
    had = m["tool"] is not None
    m["tool"] = r.mat(tb["tcp"])
    m["tip"] = r.name(tb["device_info"]["device"])
    same(rb, m, x["fr"])
    require(d == before and t == tb, "loading changed the documents")
    # the plain robot is still the document's
    same(rr.load_robot_info_yaml_to_robot(source(d, "mapping"), k), r.meaning(before, k), x["fr"])
    if had or len(d["chains"]) > 1:
        rec.nontriv("tool replaced" if had else "tool added")


def gen_hist(draw):
    docs = [r.doc(draw, 2) for _ in range(g.ii(draw, 1, 3))]
    steps = [dict(op=g.pick(draw, ["load", "load", "load", "write", "edit", "scribble"]), d=g.ii(draw, 0, 5), f=g.ii(draw, 0, 1), k=g.ii(draw, 0, 5),
                  via=g.pick(draw, ["file", "file", "bfile", "mapping", "mapping", "stream"]), t=g.ii(draw, 0, 3), e=g.ii(draw, 0, 20), v=g.real(draw, 0.1, 3.0))
             for _ in range(g.ii(draw, 2, 8))]
    return dict(docs=docs, tools=[r.tool(draw) for _ in range(2)], steps=steps, fr=[g.real(draw, 0, 1.0) for _ in range(4)])


def edit(d, e, v):
    """Change one value of document d in place."""
    c = d["chains"][e % len(d["chains"])]
    j = d["joint_info"][c["joint_numbers"][-1]]
    if e % 5 == 0:
        j["joint_limits"]["upper"] = j["joint_limits"]["lower"] + v
    elif e % 5 == 1:
        c["P"][-1]["x"] = v
    elif e % 5 == 2:
        c["flange_pose"] = dict(rotation=dict(w=0.6, x=0.8, y=0.0, z=0.0), translation=dict(x=v, y=0.0, z=1.0))
    elif e % 5 == 3:
        j["joint_type"] = "prismatic" if j["joint_type"] == "revolute" else "revolute"
    else:
        c["H"].append(c["H"].pop(0))


@sub("C22", "history", gen_hist, 800, 30000, shards=8, rule="a document loaded again after it, the file or a robot loaded from it changed")
def run_hist(x, rec):
    docs, tools = copy.deepcopy(x["docs"]), copy.deepcopy(x["tools"])
    tmp = tempfile.mkdtemp(prefix="c22_")
    on, held, kinds, changed = [0, 0], [], set(), False
    try:
        def write(f, i):
            on[f] = i % len(docs)
            with open(os.path.join(tmp, "robot%d.yml" % f), "w", encoding="utf-8") as h:
                yaml.dump(docs[on[f]], h, Dumper=DUMP, allow_unicode=True, sort_keys=False)
            text[f] = copy.deepcopy(docs[on[f]])
        text = [None, None]
        write(0, 0)
        write(1, 1)
        for s in x["steps"]:
            d = docs[s["d"] % len(docs)]
            if s["op"] == "write":
                write(s["f"], s["d"])
                changed = True
            elif s["op"] == "edit":
                edit(d, s["e"], s["v"])
                changed = True
            elif s["op"] == "scribble":
                if held:
                    rb, m = held.pop(s["e"] % len(held))
                    for a in (rb.H, rb.P, rb.joint_lower_limit, rb.joint_upper_limit, rb.joint_vel_limit, rb.joint_acc_limit, rb.T_flange.R, rb.T_flange.p):
                        a[...] = 77
                    rb.joint_names[:] = ["x"] * len(rb.joint_names)
                    for a in (rb.R_tool, rb.p_tool):
                        if a is not None:
                            a[...] = 77
                    for T in (rb.T_base,):
                        if T is not None:
                            T.R[...] = 77
                            T.p[...] = 77
                    changed = True
            else:
                via = s["via"]
                doc = text[s["f"]] if "file" in via else d
                m = r.meaning(doc, s["k"] % len(doc["chains"]))
                t = tools[s["t"] % 2] if s["t"] > 1 else None
                h = open(os.path.join(tmp, "robot%d.yml" % s["f"]), "rb" if via == "bfile" else "r", **({} if via == "bfile" else dict(encoding="utf-8"))) if "file" in via else \
                    d if via == "mapping" else source(d, "block")
                try:
                    k = s["k"] % len(doc["chains"])
                    rb = rr.load_robot_info_yaml_to_robot(h, k) if t is None else rr.load_robot_and_tool_info_yaml_to_robot(h, t, k)
                finally:
                    if "file" in via:
                        h.close()
                if t is not None:
                    m["tool"], m["tip"] = r.mat(t["tcp"]), r.name(t["device_info"]["device"])
                same(rb, m, x["fr"])
                held.append((rb, m))
                kinds.add(("after a change " if changed else "first ") + via)
        for rb, m in held:
            same(rb, m, x["fr"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if any(k.startswith("after") for k in kinds):
        rec.nontriv(*sorted(kinds))
