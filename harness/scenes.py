"""Scenes of the viewer with a stand-in for compas_view2, judged by CemSceneTrace.tla."""
import math
import random
import sys
import types

from common import SEED, fixed, fixed3, judge, pool_map, quiet
from dia import everything, text
from diagrams import nid
from plots import K, describe, parts, small
from space import find_form, random_structure, realise

NTAGS = ["key", "xyz", "keyxyz", "type"]
ETAGS = {"topology": ["key", "force", "length", "state", "forcelength", "forcelengthstate", "type"], "form": ["key", "force", "length", "forcelength", "type"]}
_done = []


def stand_in():
    """The parts of compas_view2 that the objects use: they only remember what they get."""
    if _done:
        return
    _done.append(True)

    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        if "." in name:
            setattr(sys.modules[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)

    class Object(object):
        registry = {}

        def __init__(self, data, *args, **kwargs):
            self._data = data

        @classmethod
        def register(cls, data, obj):
            cls.registry[data] = obj

    class NetworkObject(Object):
        pass

    class Text(object):
        def __init__(self, text, position, height=50, **kw):
            self.text, self.position = text, position

    class Arrow(object):
        def __init__(self, position, direction, *args, **kw):
            self.position, self.direction = position, direction

    class Collection(object):
        def __init__(self, items=None, **kw):
            self.items = list(items or [])

    class App(object):
        def __init__(self, *args, **kwargs):
            self.added = []

        def add(self, data, **kwargs):
            if type(data) in Object.registry:
                return Object.registry[type(data)](data, **kwargs)
            self.added.append((data, kwargs))
            return data
    module("compas_view2")
    module("compas_view2.app", App=App)
    module("compas_view2.objects", Object=Object, NetworkObject=NetworkObject)
    module("compas_view2.shapes", Text=Text, Arrow=Arrow)
    module("compas_view2.collections", Collection=Collection)


def rgb(c):
    c = getattr(c, "rgb", c)
    return [int(round(255 * float(x))) for x in list(c)[:3]]


def scene(viewer, obj):
    out = {"points": [], "tubes": [], "arrows": [], "texts": [], "shown": [bool(obj.show_nodes), bool(obj.show_edges)]}
    positions, colors, elements = obj._points_data()
    for el in elements:
        out["points"].append({"p": fixed3(positions[el[0]], K), "c": rgb(colors[el[0]])})
    for data, kw in viewer.added:
        items = getattr(data, "items", [data])
        for x in items:
            name = type(x).__name__
            if name == "Cylinder":
                c = [float(t) for t in x.circle.plane.point]
                n = [float(t) for t in x.circle.plane.normal]
                h = float(x.height) / 2.0 / (math.hypot(*n) or 1.0)
                out["tubes"].append({"a": [fixed(p - h * t, K) for p, t in zip(c, n)], "b": [fixed(p + h * t, K) for p, t in zip(c, n)],
                                     "c": rgb(kw["facecolor"]), "w": fixed(2 * x.circle.radius, K)})
            elif name == "Arrow":
                out["arrows"].append({"a": fixed3(x.position, K), "v": fixed3(x.direction, K), "c": rgb(kw["facecolor"])})
            elif name == "Text":
                out["texts"].append({"p": fixed3(x.position, K), "s": str(x.text), "nums": parts(str(x.text))})
            else:
                raise TypeError("unexpected %s in the scene" % name)
    return out


def apart(pts):
    return all(max(abs(a - b) for a, b in zip(p, q)) > 0.02 for i, p in enumerate(pts) for q in pts[i + 1:])


def draw(args):
    idx, inst = args
    rng = random.Random(SEED * 982451653 + idx)
    line = {"first": True, "crash": "", "inst": inst}
    try:
        stand_in()
        from compas_cem import COLORS
        from compas_cem.viewers import Viewer
        for _ in range(50):
            if "j" in inst:
                d, keys, names = small(inst["j"], rng)
                o = inst["o"]
                what, show, part = o["what"], dict(o["show"]), o["part"]
            else:
                s = random_structure(rng, trails=(1, 4), length=(2, 5), devs=(0, 6), loads=0.7, idle=0.15)
                for node in s["nodes"]:
                    if any(node["q"]) and math.hypot(*node["q"]) < 0.2:
                        node["q"] = [0.0, 0.3, -0.6]
                d, keys = realise(s, rng)
                what, part = inst["what"], rng.random() < 0.3
                show = {k: rng.random() < 0.8 for k in ("nodes", "edges", "loads", "reactions", "ntext", "etext")}
            if what == "form":
                try:
                    d = find_form(d, "py")
                except ValueError:
                    if "j" in inst:
                        return None
                    continue
            pts = [d.node_coordinates(n) for n in d.nodes()]
            pts += [[(a + b) / 2 for a, b in zip(d.node_coordinates(u), d.node_coordinates(v))] for u, v in d.edges()]
            reach = max([abs(c) for p in pts for c in p] + [math.hypot(*d.node_attributes(n, ["rx", "ry", "rz"])) for n in d.nodes()])
            if apart(pts) and reach < 25:
                break
        else:
            return None
        ltol, rtol = rng.choice([0.001, 0.1, 1.5]), rng.choice([0.001, 0.1, 1.5])
        for n in d.nodes():
            for attrs, tol in ((["qx", "qy", "qz"], ltol), (["rx", "ry", "rz"], rtol)):
                f = math.hypot(*d.node_attributes(n, attrs))
                if f and abs(f - tol) < 0.002:
                    return None
        nodes, edges = list(d.nodes()), list(d.edges())
        nsel, esel = nodes, edges
        if part:
            nsel, esel = rng.sample(nodes, rng.randint(1, len(nodes))), rng.sample(edges, rng.randint(1, len(edges)))
        ntag, etag = rng.choice(NTAGS), rng.choice(ETAGS[what])
        width = rng.choice([[0.02, 0.02], [0.5, 0.5], [0.1, 1.0], [1.0, 0.2]]) if what == "form" else [0.25, 0.25]
        lscale, rscale = rng.choice([1.0, 0.5, 2.0]), rng.choice([1.0, 0.5, 2.0])
        kw = {"show_nodes": show["nodes"], "show_edges": show["edges"], "show_loads": show["loads"], "show_residuals": show["reactions"],
              "show_nodetext": show["ntext"], "show_edgetext": show["etext"], "nodetext": None if ntag == "key" and rng.random() < 0.5 else ntag,
              "edgetext": None if etag == "key" and rng.random() < 0.5 else etag, "edgewidth": width[0] if width[0] == width[1] else tuple(width),
              "loadscale": lscale, "residualscale": rscale, "loadtol": ltol, "residualtol": rtol}
        if part:
            kw["nodes"], kw["edges"] = list(nsel), list(esel)
        before = text(everything(d))
        viewer = Viewer()
        with quiet():
            obj = viewer.add(d, **kw)
        line["D"] = describe(d, what, {n: 0.0 for n in nodes})
        line["O"] = {"what": what, "nc": "type", "ec": "type", "nsel": [nid(n) for n in nsel], "esel": [[nid(u), nid(v)] for u, v in esel], "show": show,
                     "width": [fixed(w, K) for w in width], "ltol": fixed(ltol, K), "rtol": fixed(rtol, K), "lscale": fixed(lscale, K), "rscale": fixed(rscale, K),
                     "ntag": ntag, "etag": etag, "palette": {k: [int(x) for x in v] for k, v in COLORS.items()}}
        line["scene"] = scene(viewer, obj)
        line["same"] = text(everything(d)) == before
    except Exception as e:
        import traceback
        line["crash"] = "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-500:])
    return line


def judge_scenes(report, scratch, insts, clauses, name):
    lines = [x for x in pool_map(draw, list(enumerate(insts))) if x]
    res = judge("CemSceneTrace", lines, scratch, name)
    report.states += res["states"]
    report.transitions += res["transitions"]
    report.traces += len(lines)
    report.steps += len(lines)
    report.notes["trace:" + name] = {"scenes": len(lines)}
    for at, bad in res["bad"]:
        for clause in bad:
            if clauses(clause):
                report.violation(clause, {"campaign": name, "line": lines[at]})
    if insts and len(report.samples) < 5:
        report.samples.append({"campaign": name, "instance": insts[len(insts) // 2]})
    return lines
