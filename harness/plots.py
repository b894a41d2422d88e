"""Drawings of diagrams by the real artists, judged by CemPlot.tla."""
import math
import os
import random
import re
import tempfile

from common import SEED, fixed, fixed3, judge, pool_map, quiet, run_tlc, tlc_must_pass
from dia import everything, text
from diagrams import TopologyDiagram, nid
from diagrams import Node, TrailEdge, DeviationEdge, NodeLoad, NodeSupport
from diagrams import Keys
from space import find_form, pick_keys, random_structure, realise

K = 1000
NTAGS = {"topology": ["key", "xyz", "keyxyz", "type", "sequence", "keysequence"], "form": ["key", "xyz", "keyxyz"]}
ETAGS = {"topology": ["key", "force", "length", "state", "forcelength", "forcelengthstate", "type"], "form": ["key", "force", "length", "forcelength"]}


def model_instances(report, scratch, emit=True):
    res = run_tlc("CemPlotMC.tla", "CemPlotMC.cfg", scratch, constants={"EMIT": "TRUE" if emit else "FALSE"})
    tlc_must_pass(res, "CemPlotMC")
    report.model(res, "CemPlotMC")
    out = res["lines"]
    for i in out:
        i["j"]["loads"] = sorted(i["j"]["loads"])
    out.sort(key=str)
    return out


def small(j, rng):
    """A diagram of the model: trails 1 - 2 and 3 - 4, a deviation edge, perhaps a free node 5."""
    n = 5 if j["aux"] else 4
    keys = Keys([None] + list(pick_keys(rng, n)))
    d = TopologyDiagram()
    order = list(range(1, n + 1))
    rng.shuffle(order)
    for i in order:
        d.add_node(Node(keys[i], [round(rng.uniform(-4, 4), 2) for _ in range(3)]))
    edges = [("trail", 1, 2, j["t1"]), ("trail", 3, 4, j["t2"]), ("deviation", j["dev"][0], j["dev"][1], j["sgn"])]
    rng.shuffle(edges)
    names = {}
    for t, a, b, sgn in edges:
        val = sgn * round(rng.uniform(0.3, 2.0), 3)
        flip = t == "trail" and rng.random() < 0.5
        u, v = (keys[b], keys[a]) if flip else (keys[a], keys[b])
        names[a, b] = (u, v)
        d.add_edge(TrailEdge(u, v, val) if t == "trail" else DeviationEdge(u, v, val))
    for i in (2, 4):
        d.add_support(NodeSupport(keys[i]))
    for i in j["loads"]:
        d.add_load(NodeLoad(keys[i], load(rng)))
    if j["built"]:
        d.auxiliary_trail_vector = [0.6, -0.8, 0.0]
        with quiet():
            d.build_trails(auxiliary_trails=j["aux"])
        if j["shift"]:
            d.shift_trail(keys[1], 1)
    return d, keys, names


def load(rng):
    q = [round(rng.uniform(-2, 2), 2) for _ in range(3)]
    return q if math.hypot(*q) > 0.2 else [0.5, -0.4, 0.0]


def parts(values):
    """Numbers and words of a label."""
    nums = [fixed(float(x), K) for x in re.findall(r"-?\d+(?:\.\d+)?", values)]
    return nums


def rgb(c):
    return [int(round(255 * float(x))) for x in list(c)[:3]]


def clear_view(xy, mids):
    """Do all places on the canvas differ?"""
    pts = xy + mids
    return all(max(abs(p[0] - q[0]), abs(p[1] - q[1])) > 0.02 for i, p in enumerate(pts) for q in pts[i + 1:])


def describe(d, what, sizes):
    nodes, edges = {}, []
    ends = {}
    for u, v in d.edges():
        if what == "form":
            sgn = d.edge_force((u, v))
            length = math.dist(d.node_coordinates(u), d.node_coordinates(v))
        elif d.is_trail_edge((u, v)):
            sgn = d.edge_length_2((u, v))
            length = abs(d.edge_length_2((u, v)))
        else:
            sgn = d.edge_force((u, v))
            length = abs(d.edge_length_2((u, v)))
        force = d.edge_force((u, v))
        edges.append({"u": nid(u), "v": nid(v), "t": str(d.edge_attribute((u, v), "type")), "aux": what == "topology" and bool(d.is_auxiliary_trail_edge((u, v))),
                      "sgn": (sgn > 0) - (sgn < 0), "force": fixed(force, K), "len": fixed(length, K)})
        for n in (u, v):
            ends.setdefault(n, []).append(float(force))
    for n in d.nodes():
        q = [float(c) for c in d.node_attributes(n, ["qx", "qy", "qz"])]
        r = [float(c) for c in d.node_attributes(n, ["rx", "ry", "rz"])]
        fs = ends.get(n, [0.0])
        top = max(abs(f) for f in fs)
        signs = {(f > 0) - (f < 0) for f in fs if abs(f) > top - 1e-6}
        nodes[nid(n)] = {"key": int(n), "t": str(d.node_attribute(n, "type") or "none"), "k": -1 if d.node_attribute(n, "_k") is None else int(d.node_attribute(n, "_k")),
                         "p": fixed3(d.node_coordinates(n), K), "q": fixed3(q, K), "ql": fixed(math.hypot(*q), K),
                         "r": fixed3(r, K), "rl": fixed(math.hypot(*r), K), "size": fixed(sizes[n], K),
                         "strong": signs.pop() if len(signs) == 1 else 0}
    return {"nodes": nodes, "edges": edges, "built": what == "topology" and bool(d.has_trails())}


def dashed(style):
    offset, pattern = style
    return "solid" if pattern is None else "dashed"


def pick(xs, i):
    return xs[i % len(xs)]


def canvas(plotter, d, opts):
    """What is on the canvas."""
    from matplotlib.collections import LineCollection, PatchCollection
    ax = plotter.axes
    out = {"circles": [], "lines": [], "marks": [], "arrows": [], "ntext": [], "etext": [], "strays": 0}
    for c in ax.collections:
        if isinstance(c, PatchCollection):
            for i, path in enumerate(c.get_paths()):
                box = path.get_extents()
                out["circles"].append({"p": [fixed((box.x0 + box.x1) / 2, K), fixed((box.y0 + box.y1) / 2, K)], "c": rgb(pick(c.get_facecolor(), i))})
        elif isinstance(c, LineCollection):
            for i, seg in enumerate(c.get_segments()):
                out["lines"].append({"a": [fixed(x, K) for x in seg[0]], "b": [fixed(x, K) for x in seg[-1]], "c": rgb(pick(c.get_colors(), i)),
                                     "s": dashed(pick(c.get_linestyle(), i)), "w": fixed(pick(c.get_linewidth(), i), K)})
    for a in plotter.artists:
        name = type(a).__name__
        if name == "VectorArtist":
            color = [int(round(x)) for x in a.color] if max(a.color) > 1.0 else rgb(a.color)
            out["arrows"].append({"a": [fixed(x, K) for x in a.point[:2]], "v": [fixed(x, K) for x in a.vector[:2]], "c": color})
        elif name == "LineArtist":
            out["marks"].append({"a": [fixed(x, K) for x in a.line.start[:2]], "b": [fixed(x, K) for x in a.line.end[:2]]})
    places = {("n", n): d.node_coordinates(n)[:2] for n in d.nodes()}
    for u, v in d.edges():
        a, b = d.node_coordinates(u), d.node_coordinates(v)
        places["e", (u, v)] = [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2]
    for t in ax.texts:
        x, y = t.get_position()
        s = t.get_text()
        hit = [k for k, p in places.items() if abs(p[0] - x) < 0.002 and abs(p[1] - y) < 0.002]
        if len(hit) != 1:
            out["strays"] += 1
        elif hit[0][0] == "n":
            out["ntext"].append({"n": nid(hit[0][1]), "s": s, "nums": parts(s)})
        else:
            u, v = hit[0][1]
            out["etext"].append({"u": nid(u), "v": nid(v), "s": s, "nums": parts(s)})
    return out


def draw(args):
    idx, inst = args
    rng = random.Random(SEED * 32452843 + idx)
    line = {"first": True, "crash": "", "inst": inst}
    try:
        for _ in range(50):
            if "j" in inst:
                d, keys, names = small(inst["j"], rng)
                o = inst["o"]
                what, nc, ec, show, part = o["what"], o["nc"], o["ec"], dict(o["show"]), o["part"]
            else:
                long = {"trails": (1, 2), "length": (8, 14)} if rng.random() < 0.12 else {"trails": (1, 4), "length": (2, 5)}
                s = random_structure(rng, devs=(0, 6), loads=0.7, idle=0.15, **long)
                for node in s["nodes"]:
                    if any(node["q"]) and math.hypot(*node["q"]) < 0.2:
                        node["q"] = [0.0, 0.3, -0.6]
                d, keys = realise(s, rng)
                what = inst["what"]
                nc, ec, part = rng.choice(["type", "sequence"]), rng.choice(["state", "type"]), rng.random() < 0.3
                show = {k: rng.random() < 0.8 for k in ("nodes", "edges", "loads", "reactions", "ntext", "etext")}
            if what == "form":
                nc, ec = "type", "state"
                try:
                    d = find_form(d, "py")
                except ValueError:
                    if "j" in inst:
                        return None
                    continue
            xy = [d.node_coordinates(n)[:2] for n in d.nodes()]
            mids = [[(d.node_coordinates(u)[i] + d.node_coordinates(v)[i]) / 2 for i in (0, 1)] for u, v in d.edges()]
            reach = max([abs(c) for n in d.nodes() for c in d.node_coordinates(n)] + [math.hypot(*d.node_attributes(n, ["rx", "ry", "rz"])) for n in d.nodes()])
            if clear_view(xy, mids) and reach < 25:
                break
        else:
            return None
        ltol, rtol = rng.choice([0.001, 0.1, 1.5]), rng.choice([0.001, 0.1, 1.5])
        for n in d.nodes():
            for attrs, tol in ((["qx", "qy", "qz"], ltol), (["rx", "ry", "rz"], rtol)):
                f = math.hypot(*d.node_attributes(n, attrs))
                if f and abs(f - tol) < 0.002:
                    return None
        nodes, edges = list(d.nodes()), list(d.edges())
        if part and "j" in inst:
            nsel = [keys[i] for i in (1, 2, 3)]
            esel = [e for e in edges if e != names[1, 2]]
        elif part:
            nsel = rng.sample(nodes, rng.randint(1, len(nodes)))
            esel = rng.sample(edges, rng.randint(1, len(edges)))
        else:
            nsel, esel = nodes, edges
        ntag, etag = rng.choice(NTAGS[what]), rng.choice(ETAGS[what])
        if what == "topology" and not d.has_trails() and "sequence" in ntag:
            ntag = "keyxyz"
        kw = {"show_" + {"ntext": "nodetext", "etext": "edgetext"}.get(k, k): v for k, v in show.items() if what == "form" or k != "reactions"}
        kw["nodesize"] = rng.choice([0.3, 1.0, 2.0])
        kw["nodetext"] = None if ntag == "key" and rng.random() < 0.5 else ntag
        kw["edgetext"] = None if etag == "key" and rng.random() < 0.5 else etag
        width = rng.choice([[1.0, 1.0], [2.5, 2.5]] + ([[0.5, 4.0], [1.0, 9.0], [3.0, 1.0]] if what == "form" else []))
        kw["edgewidth"] = width[0] if width[0] == width[1] else tuple(width)
        lscale, rscale = rng.choice([1.0, 0.5, 2.0]), rng.choice([1.0, 0.5, 2.0])
        if what == "form":
            kw.update(loadtol=ltol, reactiontol=rtol, loadscale=lscale, reactionscale=rscale)
        else:
            if nc != "type" or rng.random() < 0.5:
                kw["nodecolor"] = nc
            if ec != "state" or rng.random() < 0.5:
                kw["edgecolor"] = ec
        if part:
            kw["nodes"], kw["edges"] = list(nsel), list(esel)
        before = text(everything(d))

        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        from compas_cem import COLORS
        from compas_cem.plotters import Plotter
        plotter = Plotter()
        try:
            with quiet():
                artist = plotter.add(d, **kw)
            line["D"] = describe(d, what, artist.node_size)
            line["O"] = {"what": what, "nc": nc, "ec": ec, "nsel": [nid(n) for n in nsel], "esel": [[nid(u), nid(v)] for u, v in esel], "show": show,
                         "width": [fixed(w, K) for w in width], "ltol": fixed(ltol, K), "rtol": fixed(rtol, K), "lscale": fixed(lscale, K), "rscale": fixed(rscale, K),
                         "ntag": ntag, "etag": etag, "palette": {k: [int(x) for x in v] for k, v in COLORS.items()}}
            line["plot"] = canvas(plotter, d, line["O"])
            line["same"] = text(everything(d)) == before
        finally:
            plt.close("all")
    except Exception as e:
        import traceback
        line["crash"] = "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-500:])
    return line


def judge_drawings(report, scratch, insts, clauses, name):
    os.environ.setdefault("MPLCONFIGDIR", tempfile.mkdtemp(prefix="mpl-", dir=scratch.path))
    lines = [x for x in pool_map(draw, list(enumerate(insts))) if x]
    res = judge("CemPlotTrace", lines, scratch, name)
    report.states += res["states"]
    report.transitions += res["transitions"]
    report.traces += len(lines)
    report.steps += len(lines)
    report.notes["trace:" + name] = {"drawings": len(lines)}
    for at, bad in res["bad"]:
        for clause in bad:
            if clauses(clause):
                report.violation(clause, {"campaign": name, "line": lines[at]})
    if insts and len(report.samples) < 5:
        report.samples.append({"campaign": name, "instance": insts[len(insts) // 2]})
    return lines
