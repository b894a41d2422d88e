"""Lattice instances of CemGoals.tla, replayed in the real optimizer."""
import recorder   # noqa: I001  (before compas_cem)
import copy
import json
import math
import os
import pickle
import random
import tempfile

from common import MachineryError, SEED, fixed, judge, pool_map, quiet, run_tlc, tlc_must_pass
from diagrams import TopologyDiagram, compas, np, pick_keys
from diagrams import Node, TrailEdge, DeviationEdge, NodeLoad, NodeSupport
from dia import everything, text
from compas.geometry import Line, Plane, Point, Polyline, Vector
from compas_cem.optimization import Optimizer
from compas_cem.optimization import TrailEdgeParameter, DeviationEdgeParameter
from compas_cem.optimization import OriginNodeXParameter, OriginNodeYParameter, OriginNodeZParameter
from compas_cem.optimization import NodeLoadXParameter, NodeLoadYParameter, NodeLoadZParameter
from compas_cem.optimization import PointConstraint, LineConstraint, PlaneConstraint, PolylineConstraint
from compas_cem.optimization import DeviationEdgeLengthConstraint, TrailEdgeForceConstraint, ReactionForceConstraint, EdgeDirectionConstraint

U = 10000.0
ORIGIN = [OriginNodeXParameter, OriginNodeYParameter, OriginNodeZParameter]
LOAD = [NodeLoadXParameter, NodeLoadYParameter, NodeLoadZParameter]
BASES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (3, 4, 0), (0, 3, 4), (4, 0, 3), (1, 2, 2), (2, 1, 2), (2, 2, 1), (2, 3, 6), (6, 2, 3)]


def norm(v):
    s = sum(c * c for c in v)
    r = math.isqrt(s)
    return r if r * r == s else None


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def primitive(rng):
    v = [c * rng.choice([-1, 1]) for c in rng.choice(BASES)]
    return v


def random_lattice(rng, smooth=None):
    """A lattice instance by inverse design: first the form, then the loads that give it."""
    while True:
        trails, pos, n = [], {}, 0
        origin = [rng.randint(-3, 3) for _ in range(3)]
        for j in range(rng.randint(1, 3)):
            m = rng.randint(2, 4)
            t = list(range(n + 1, n + m + 1))
            n += m
            trails.append(t)
            pos[t[0]] = origin if j == 0 else add(rng.choice([pos[x[0]] for x in trails[:-1]]), [c * rng.choice([1, 1, 2]) for c in primitive(rng)])
        out, length = {}, {}
        parallel = rng.random() < 0.4
        shared = [primitive(rng) for _ in range(4)]
        for t in trails:
            for i, a in enumerate(t[:-1]):
                b = shared[i] if parallel else primitive(rng)
                k = rng.choice([1, 1, 2, -1, -1]) if norm(b) < 7 else rng.choice([1, -1])
                pos[t[i + 1]] = [p + k * c for p, c in zip(pos[a], b)]
                f = rng.choice([-2, -1, 1, 2, 3])
                out[a] = [f * c for c in b]
                length[a] = norm(b) * k * (1 if f > 0 else -1)
            length[t[-1]] = 0
        if max(abs(c) for p in pos.values() for c in p) > 20:
            continue
        if len(set(map(tuple, pos.values()))) < n:
            continue
        dev = []
        rank = {a: i for t in trails for i, a in enumerate(t)}
        pairs = [(a, b) for a in rank for b in rank if a < b and rank[a] == rank[b] and norm(sub(pos[a], pos[b]))]
        if smooth == "shape":
            pairs = []
        elif smooth == "force":
            pairs = [p for p in pairs if rank[p[0]] == 0]
        rng.shuffle(pairs)
        for a, b in pairs[:rng.randint(0, 3)]:
            v = sub(pos[b], pos[a])
            dev.append({"a": a, "b": b, "f": rng.choice([-2, -1, 1, 2]) * norm(v) // math.gcd(*v)})
        q = {}
        for t in trails:
            inc = [0, 0, 0]
            for a in t:
                o = out.get(a)
                pull = [0, 0, 0]
                for e in dev:
                    if a in (e["a"], e["b"]):
                        v = sub(pos[e["b"] if a == e["a"] else e["a"]], pos[a])
                        pull = add(pull, [e["f"] * c // norm(v) for c in v])
                if o is None:
                    q[a] = [rng.randint(-2, 2) for _ in range(3)]
                else:
                    q[a] = sub(sub(inc, pull), o)
                    inc = o
        x = {a: pos[a] if rank[a] == 0 else [rng.randint(-9, 9) for _ in range(3)] for a in pos}
        inst = {"x": [x[a] for a in range(1, n + 1)], "q": [q[a] for a in range(1, n + 1)], "trails": trails,
                "len": [length[a] for a in range(1, n + 1)], "dev": dev}
        goals = random_goals(rng, inst, pos, rank, smooth)
        pars = random_pars(rng, inst, smooth, out)
        if not goals or not pars:
            continue
        inst["goals"], inst["pars"] = goals, pars
        return inst


def point(rng, near=None, spread=4):
    near = near or [0, 0, 0]
    return [c + rng.randint(-spread, spread) for c in near]


def nonzero(rng, spread=4):
    while True:
        v = point(rng, None, spread)
        if any(v):
            return v


def random_goals(rng, inst, pos, rank, smooth):
    kinds = ["point", "line", "plane", "polyline", "length", "force", "reaction", "direction"]
    if smooth == "shape":
        kinds = ["point", "line", "plane"]
    elif smooth == "force":
        kinds = ["reaction"]
    goals = []
    ends = [(a, b) for t in inst["trails"] for a, b in zip(t, t[1:])]
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(kinds)
        g = {"kind": kind, "w2": rng.choice([1, 2, 2, 3, 6]), "n": rng.choice(sorted(pos)), "m": 1}
        p = pos[g["n"]]
        if kind == "point":
            g["t"] = [point(rng, p)]
        elif kind == "line":
            a = point(rng, p)
            g["t"] = [a, add(a, nonzero(rng))]
        elif kind == "plane":
            g["t"] = [point(rng, p), nonzero(rng)]
        elif kind == "polyline":
            pts = [point(rng, p)]
            many = rng.random() < 0.4
            for _ in range(rng.randint(4, 8) if many else rng.randint(1, 3)):
                pts.append(add(pts[-1], nonzero(rng, 2 if many else 4)))
            if len(pts) > 2 and pts[-1] != pts[0] and rng.random() < 0.35:
                pts.append(list(pts[0]))      # closed
            g["t"] = pts
        elif kind == "length":
            if not inst["dev"]:
                continue
            e = rng.choice(inst["dev"])
            g["n"], g["m"] = (e["a"], e["b"])
            g["t"] = [rng.randint(1, 24)]
        elif kind == "force":
            a = rng.choice([a for a, b in ends])
            g["n"] = a
            g["t"] = [rng.randint(-24, 24)]
        elif kind == "reaction":
            g["n"] = rng.choice([t[-1] for t in inst["trails"]])
            g["t"] = [point(rng)]
        elif kind == "direction":
            cands = ends + [(e["a"], e["b"]) for e in inst["dev"]]
            a, b = rng.choice(cands)
            if rng.random() < 0.5:
                a, b = b, a
            g["n"], g["m"] = a, b
            g["t"] = [[c * rng.choice([1, 2]) for c in primitive(rng)]]
            if norm(g["t"][0]) is None:
                continue
        goals.append(g)
    return goals


def random_pars(rng, inst, smooth, out):
    cands = []
    if smooth != "force":
        for t in inst["trails"]:
            for a in t[:-1]:
                cands.append({"kind": "length", "at": a, "c": 1, "h": norm(out[a]) // math.gcd(*out[a])})
            for c in (1, 2, 3):
                cands.append({"kind": "origin", "at": t[0], "c": c, "h": 1})
    if smooth != "shape":
        for j, e in enumerate(inst["dev"]):
            v = sub(*[inst["x"][k - 1] for k in (e["a"], e["b"])])
            # h matters where the deviation edges connect origins
            cands.append({"kind": "force", "at": j + 1, "c": 1, "h": max(1, (norm(v) or 1) // max(1, math.gcd(*v)))})
        for a in range(1, len(inst["x"]) + 1):
            for c in (1, 2, 3):
                cands.append({"kind": "load", "at": a, "c": c, "h": 1})
    rng.shuffle(cands)
    return cands[:rng.randint(1, 5)]


class Realised(object):
    """A lattice instance as a topology diagram, with its goals and parameters."""

    def __init__(self, inst, rng):
        n = len(inst["x"])
        self.inst = inst
        self.rng = rng
        self.keys = pick_keys(rng, n)
        self.edges = {}
        d = TopologyDiagram()
        order = list(range(n))
        rng.shuffle(order)
        for i in order:
            d.add_node(Node(self.keys[i], [float(c) for c in inst["x"][i]]))
        todo = [("trail", a, b, inst["len"][a - 1]) for t in inst["trails"] for a, b in zip(t, t[1:])]
        todo += [("deviation", e["a"], e["b"], e["f"]) for e in inst["dev"]]
        rng.shuffle(todo)
        for kind, a, b, val in todo:
            u, v = self.key(a), self.key(b)
            if rng.random() < 0.5:
                u, v = v, u
            self.edges[frozenset((a, b))] = (u, v)
            d.add_edge(TrailEdge(u, v, float(val)) if kind == "trail" else DeviationEdge(u, v, float(val)))
        for t in inst["trails"]:
            d.add_support(NodeSupport(self.key(t[-1])))
        for i in range(n):
            if any(inst["q"][i]) or rng.random() < 0.5:
                d.add_load(NodeLoad(self.key(i + 1), [float(c) for c in inst["q"][i]]))
        with quiet():
            d.build_trails()
        self.d = d

    def key(self, a):
        return self.keys[a - 1]

    def edge(self, a, b):
        return self.edges[frozenset((a, b))]

    def goal(self, g):
        w = g["w2"] / 2.0
        n, t = self.key(g["n"]), g["t"]
        kw = {} if w == 1.0 and self.rng.random() < 0.5 else {"weight": w}
        pts = [[float(c) for c in p] for p in t] if isinstance(t[0], list) else None
        if g["kind"] == "point":
            return PointConstraint(n, Point(*pts[0]), **kw)
        if g["kind"] == "line":
            return LineConstraint(n, Line(*pts), **kw)
        if g["kind"] == "plane":
            return PlaneConstraint(n, Plane(*pts), **kw)
        if g["kind"] == "polyline":
            return PolylineConstraint(n, Polyline(pts), **kw)
        if g["kind"] == "length":
            return DeviationEdgeLengthConstraint(self.edge(g["n"], g["m"]), t[0] / 2.0, **kw)
        if g["kind"] == "force":
            tr = next(x for x in self.inst["trails"] if g["n"] in x)
            return TrailEdgeForceConstraint(self.edge(g["n"], tr[tr.index(g["n"]) + 1]), t[0] / 2.0, **kw)
        if g["kind"] == "reaction":
            return ReactionForceConstraint(n, Vector(*pts[0]), **kw)
        return EdgeDirectionConstraint((n, self.key(g["m"])), Vector(*pts[0]), **kw)

    def par(self, p, bounds=(None, None)):
        if p["kind"] == "length":
            t = next(x for x in self.inst["trails"] if p["at"] in x)
            return TrailEdgeParameter(self.edge(p["at"], t[t.index(p["at"]) + 1]), *bounds)
        if p["kind"] == "force":
            e = self.inst["dev"][p["at"] - 1]
            return DeviationEdgeParameter(self.edge(e["a"], e["b"]), *bounds)
        return (ORIGIN if p["kind"] == "origin" else LOAD)[p["c"] - 1](self.key(p["at"]), *bounds)


def evaluate(d, goals, pars, name="", grad="AD", **kw):
    """Objective, parameters and gradient at the current state, as seen by nlopt."""
    out = {"name": name, "crash": "", "f": 0, "x": [], "g": [], "before": "", "after": ""}
    try:
        o = Optimizer()
        for c in goals:
            o.add_constraint(c)
        for p in pars:
            o.add_parameter(p)
        out["before"] = text(everything(d))
        recorder.clear()
        with quiet():
            o.solve(d, algorithm="SLSQP", grad=grad, iters=1, eps=None, **kw)
        x, f, g = recorder.LOG[0]
        out["after"] = text(everything(d))
        out.update({"f": fixed(f, U), "x": [fixed(v, U) for v in x], "g": [fixed(v, U) for v in g]})
        if fixed(o.penalty, U) != out["f"] or len(recorder.LOG) != 1:
            out["f"] = fixed(None)
    except Exception as e:
        out["crash"] = "%s: %s" % (type(e).__name__, e)
    return out


def record(args):
    idx, opts = args
    rng = random.Random(SEED * 86028121 + idx + 50000000 * opts.get("offset", 0))
    smooth = opts.get("smooth")
    if smooth is not None:
        smooth = rng.choice(smooth)
    inst = random_lattice(rng, smooth)
    line = {"first": True, "inst": inst, "seen": [], "smooth": smooth is not None, "pairs": []}
    try:
        r = Realised(inst, rng)
        goals = [r.goal(g) for g in inst["goals"]]
        pars = [r.par(p, [rng.choice([None, 0.5, 2.0]) for _ in range(2)]) for p in inst["pars"]]
        for grad in opts.get("grads", ["AD"]):
            kw = {"step_size": rng.choice([1e-4, 1e-6, 1e-7])} if grad == "FD" else {}
            line["seen"].append(evaluate(r.d, goals, pars, grad, grad, **kw))
        if opts.get("roundtrip"):
            roundtrips(line, r, goals, pars, rng)
    except Exception as e:
        line["seen"].append({"name": "setup", "crash": "%s: %s" % (type(e).__name__, e), "f": 0, "x": [], "g": [], "before": "", "after": ""})
    return line


# ------------------------------------------------------------------------------
# serialization
# ------------------------------------------------------------------------------

def numbers(x):
    """A geometric or numeric target as plain numbers."""
    if isinstance(x, (int, float, np.floating, np.integer)):
        return "%.14g" % (float(x) + 0.0)
    if isinstance(x, Plane):
        # a normal vector is normalized again
        return [numbers(x.point), ["%.9f" % (c + 0.0) for c in x.normal]]
    if isinstance(x, (Line, Polyline)):
        return [numbers(p) for p in x]
    return [numbers(float(c)) for c in x]


def describe(o, topology):
    """All that can be observed of a goal or a parameter."""
    out = {"type": type(o).__name__, "key": repr(o.key())}
    if hasattr(o, "bound_low"):
        out["start"] = float(o.start_value(topology))
        out["low"], out["up"] = float(o.bound_low(topology)), float(o.bound_up(topology))
        out["attr"] = o.attr_name()
        out["bounds"] = [None if b is None else numbers(b) for b in (getattr(o, "_bound_low", None), getattr(o, "_bound_up", None))]
    else:
        out["weight"] = float(o.weight)
        # the target itself, not the closest point on it
        out["target"] = [type(o._target).__name__, numbers(o._target)] if hasattr(o, "_target") else None
    return text(out)


def seen(o, topology):
    """The description of a restored object, which may refer to something that does not exist."""
    try:
        return describe(o, topology)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def ways(obj):
    cls = type(obj)
    yield "json", compas.json_loads(compas.json_dumps(obj))
    fd, path = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    try:
        obj.to_json(path)
        yield "file", cls.from_json(path)
    finally:
        os.remove(path)
    yield "string", cls.from_jsonstring(obj.to_jsonstring())
    yield "data", cls.from_data(json.loads(json.dumps(obj.to_data())))
    yield "copy", obj.copy()
    yield "deepcopy", copy.deepcopy(obj)
    yield "pickle", pickle.loads(pickle.dumps(obj))


def irregular(r, rng):
    """Goals and parameters with numbers of any size and with many digits."""
    inst = r.inst

    def num(positive=False):
        x = rng.choice([rng.gauss(0, 1), rng.uniform(1, 2) * 10.0 ** rng.randint(-9, 7), 1.0 / 3.0, 1e-300, 123456.789012345, 0.1 + 0.2])
        x = x if positive or rng.random() < 0.5 else -x
        return abs(x) if positive else x

    def three(cls):
        return cls(num(), num(), num())
    some = rng.choice([t for t in inst["trails"]])
    n = r.key(rng.choice(some))
    edge = r.edge(some[0], some[1])
    if rng.random() < 0.5:
        edge = (edge[1], edge[0])
    a = three(Point)
    goals = [PointConstraint(n, three(Point), num(True)), LineConstraint(n, Line(a, a + three(Vector)), num(True)),
             PlaneConstraint(n, Plane(three(Point), Vector(rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1) + 3.0)), num(True)),
             PolylineConstraint(n, Polyline([a, three(Point), three(Point)] + ([a] if rng.random() < 0.3 else [])), num(True)),
             ReactionForceConstraint(r.key(some[-1]), three(Vector), num(True)),
             EdgeDirectionConstraint(edge, three(Vector), num(True)),
             TrailEdgeForceConstraint(edge, rng.choice([num(), 3, 0, 0.0]), num(True)),
             DeviationEdgeLengthConstraint(edge, rng.choice([num(True), 7, 0]), num(True))]
    pars = [cls(n, *[rng.choice([None, 0.0, 0, 2, num(), num(True)]) for _ in range(2)]) for cls in ORIGIN + LOAD]
    pars += [TrailEdgeParameter(r.edge(some[0], some[1]), *[rng.choice([None, 0.0, num(), 3]) for _ in range(2)])]
    pars += [DeviationEdgeParameter(r.edge(e["a"], e["b"]), *[rng.choice([None, 0.0, num(), 3]) for _ in range(2)]) for e in inst["dev"][:1]]
    return goals, pars


def roundtrips(line, r, goals, pars, rng):
    restored = {}
    for kind, objs in zip(("goal", "parameter"), irregular(r, rng)):
        for o in objs:
            want = describe(o, r.d)
            for way, dup in ways(o):
                line["pairs"].append({"name": "restored.%s.%s" % (kind, way), "got": seen(dup, r.d), "want": want})
            line["pairs"].append({"name": "original.%s" % kind, "got": seen(o, r.d), "want": want})
    for kind, objs in (("goal", goals), ("parameter", pars)):
        for o in objs:
            want = describe(o, r.d)
            for way, dup in ways(o):
                line["pairs"].append({"name": "restored.%s.%s" % (kind, way), "got": seen(dup, r.d), "want": want})
                # once more
                again = next(iter(ways(dup)))[1]
                line["pairs"].append({"name": "restored.%s.again" % kind, "got": seen(again, r.d), "want": want})
                restored.setdefault(way, ([], []))[0 if kind == "goal" else 1].append(dup)
            line["pairs"].append({"name": "original.%s" % kind, "got": seen(o, r.d), "want": want})
    for way in rng.sample(sorted(restored), 3):
        gs, ps = restored[way]
        line["seen"].append(evaluate(r.d, gs, ps, "restored." + way))
    # the same result
    results = []
    for gs, ps in [(goals, pars)] + [restored[w] for w in rng.sample(sorted(restored), 2)]:
        d = r.d.copy()
        o = Optimizer()
        for g in gs:
            o.add_constraint(g)
        for p in ps:
            o.add_parameter(p)
        try:
            with quiet():
                form = o.solve(d, iters=4, eps=1e-9)
            results.append(text([everything(d), everything(form), repr(o.penalty), o.evals]))
        except ValueError:
            results.append("no form")
    for x in results[1:]:
        line["pairs"].append({"name": "restored.result", "got": x, "want": results[0]})
    # a changed copy does not change the original
    for o in goals:
        want = describe(o, r.d)
        dup = o.copy()
        t = getattr(dup, "_target", None)
        if isinstance(t, (Point, Vector)):
            t.x += 1.0
        elif isinstance(t, Polyline):
            t.points[0].x += 1.0
        elif isinstance(t, Line):
            t.start.x += 1.0
        elif isinstance(t, Plane):
            t.point.x += 1.0
        line["pairs"].append({"name": "copy.independent", "got": seen(o, r.d), "want": want})


# ------------------------------------------------------------------------------
# judging
# ------------------------------------------------------------------------------

def model(report, scratch, r=1):
    res = run_tlc("CemGoalsMC.tla", "CemGoalsMC.cfg", scratch, constants={"CONSTANT R": str(r)})
    tlc_must_pass(res, "CemGoalsMC")
    report.model(res, "CemGoalsMC")


def judge_lines(report, scratch, count, opts, clauses, name):
    lines = pool_map(record, [(i, opts) for i in range(count)])
    res = judge("CemGoalsTrace", lines, scratch, name)
    report.states += res["states"]
    report.transitions += res["transitions"]
    report.traces += len(lines)
    report.steps += sum(len(line["seen"]) + len(line["pairs"]) for line in lines)
    report.notes["trace:" + name] = {"instances": len(lines), "evaluations": sum(len(line["seen"]) for line in lines),
                                     "comparisons": sum(len(line["pairs"]) for line in lines)}
    for at, bad in res["bad"]:
        for clause in bad:
            if clause == "machinery":
                raise MachineryError("not a lattice instance: %s" % lines[at]["inst"])
            if clauses(clause):
                short = dict(lines[at])
                short["pairs"] = [x for x in short["pairs"] if x["name"] == clause]
                report.violation(clause, {"campaign": name, "line": short})
    if lines and len(report.samples) < 5:
        report.samples.append({"campaign": name, "instance": lines[len(lines) // 2]["inst"]})
    return res
