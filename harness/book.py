"""Histories of CemBook.tla, replayed in real optimizers."""
import recorder   # noqa: I001  (before compas_cem)
import json
import random

from common import SEED, fixed, judge, pool_map, quiet, run_tlc, tlc_must_pass
from diagrams import TopologyDiagram, Node, TrailEdge, DeviationEdge, NodeLoad, NodeSupport
from dia import everything, text
from goals import Optimizer, ORIGIN, LOAD, TrailEdgeParameter, DeviationEdgeParameter
from goals import PointConstraint, TrailEdgeForceConstraint, ReactionForceConstraint, DeviationEdgeLengthConstraint
from goals import Point, Vector

VU = 1000


def topology():
    """Two parallel hangers with a deviation edge between their origins and one between the supports that carries no force."""
    d = TopologyDiagram()
    for k, p in {4: [0.0, 0.0, 0.0], 7: [0.0, 0.0, -2.0], 1: [3.0, 0.0, 0.5], 9: [3.0, 0.0, -2.5]}.items():
        d.add_node(Node(k, p))
    d.add_edge(TrailEdge(4, 7, length=2.0))
    d.add_edge(TrailEdge(9, 1, length=3.0))
    d.add_edge(DeviationEdge(1, 4, force=0.0))
    d.add_support(NodeSupport(7))
    d.add_support(NodeSupport(9))
    d.add_load(NodeLoad(4, [0.0, 0.0, -1.5]))
    d.add_load(NodeLoad(1, [0.0, 0.0, -0.75]))
    with quiet():
        d.build_trails()
    return d


# quantity: parameter class, key, lower and upper bound, attribute
SLOTS = [(ORIGIN[2], 4, 0.25, 1.0, "z"), (LOAD[2], 1, 0.5, -0.125, "qz"), (TrailEdgeParameter, (4, 7), -1.0, 2.0, "length"),
         (LOAD[2], 4, 0.0, 3, "qz"), (TrailEdgeParameter, (9, 1), 0.75, 0.5, "length"), (DeviationEdgeParameter, (1, 4), 0.375, 4.0, "force")]


def goal(s):
    """Goal s has weight 8^s and misses its target by one."""
    w = 8 ** s
    return [lambda: PointConstraint(7, Point(1.0, 0.0, 2.0), w), lambda: TrailEdgeForceConstraint((4, 7), 2.5, w),
            lambda: ReactionForceConstraint(9, Vector(0.0, 0.0, -0.25), w), lambda: DeviationEdgeLengthConstraint((1, 4), 1.0 + (9.25) ** 0.5, w)][s]()


def value(d, s):
    cls, key, low, up, attr = SLOTS[s]
    if isinstance(key, tuple):
        return d.edge_attribute(key, attr)
    return d.node_attribute(key, attr)


class BookDriver(object):
    def __init__(self, rng):
        self.o, self.d, self.rng = Optimizer(), topology(), rng
        self.objects = {}       # id -> slot
        self.keep = []
        self.pused, self.gused, self.pkeys, self.gkeys, self.lines = [], [], [], [], []
        self.record({"op": "init"}, True, -1, [], [], None)

    def listing(self, table):
        return [{"k": int(k), "s": self.objects.get(id(v), -1)} for k, v in table.items()]

    def record(self, op, ok, key, pused, gused, solved):
        o, d = self.o, self.d
        line = {"first": op["op"] == "init", "op": op, "ok": ok, "key": key, "crash": "", "pused": list(pused), "gused": list(gused),
                "lows": [fixed(abs(s[2]), VU) for s in SLOTS], "ups": [fixed(abs(s[3]), VU) for s in SLOTS]}
        try:
            with quiet():
                low, up = o.optimization_bounds(d)
                x = o.optimization_parameters(d)
            rest = everything(d)
            line["post"] = {"pars": self.listing(o.parameters), "goals": self.listing(o.constraints), "np": o.number_of_parameters(),
                            "ng": o.number_of_constraints(), "x": [fixed(v, VU) for v in x], "low": [fixed(v, VU) for v in low],
                            "up": [fixed(v, VU) for v in up], "val": [fixed(value(d, s), VU) for s in range(len(SLOTS))], "rest": text(rest)}
        except Exception as e:
            line["crash"] = "%s: %s" % (type(e).__name__, e)
        if solved is not None:
            line["solved"] = solved
        self.lines.append(line)
        return not line["crash"]

    def do(self, op):
        o, op = self.o, dict(op)
        pused, gused, key, ok, solved = list(self.pused), list(self.gused), -1, True, None
        try:
            if op["op"] in ("addP", "addC"):
                if op["op"] == "addP":
                    cls, k, low, up, attr = SLOTS[op["s"]]
                    thing = cls(k, low, up)
                else:
                    thing = goal(op["s"])
                # the very same object may be added more than once
                used = [x for x in self.keep if type(x) is type(thing) and self.objects[id(x)] == op["s"]]
                if used and self.rng.random() < 0.4:
                    thing = self.rng.choice(used)
                    op["same"] = True
                else:
                    self.objects[id(thing)] = op["s"]
                    self.keep.append(thing)
                table = o.parameters if op["op"] == "addP" else o.constraints
                before = set(table)
                (o.add_parameter if op["op"] == "addP" else o.add_constraint)(thing)
                table = o.parameters if op["op"] == "addP" else o.constraints
                new = [k for k in table if k not in before]
                key = int(new[0]) if new else -2
                (self.pused if op["op"] == "addP" else self.gused).append(key)
            elif op["op"] in ("remP", "remC"):
                handed = pused if op["op"] == "remP" else gused
                # the n-th key that was handed out, or one that never was
                op["k"] = handed[op["k"]] if op["k"] < len(handed) else self.rng.choice([max(handed + [-1]) + 1, 1000, -5])
                (o.remove_parameter if op["op"] == "remP" else o.remove_constraint)(op["k"])
            else:
                recorder.clear()
                with quiet():
                    o.solve(self.d, algorithm=op["algorithm"], grad=op["grad"], iters=1, eps=None, kappa=None)
                solved = {"x": [fixed(v, VU) for v in recorder.LOG[0][0]], "f": fixed(recorder.LOG[0][1], 1000)}
        except Exception as e:
            ok = False
            op["error"] = "%s: %s" % (type(e).__name__, e)
        return self.record(op, ok, key, pused, gused, solved)


def replay(args):
    idx, h = args
    drv = BookDriver(random.Random(SEED * 7368787 + idx))
    for op in h:
        if not drv.do(op):
            break
    return drv.lines


def random_history(rng, length):
    h, p, g = [], 0, 0
    copies = {}
    for _ in range(length):
        r = rng.random()
        if r < 0.3:
            h.append({"op": "addP", "s": rng.randrange(len(SLOTS))})
            p += 1
        elif r < 0.5:
            s = rng.randrange(4)
            if copies.get(s, 0) < 6:
                copies[s] = copies.get(s, 0) + 1
                h.append({"op": "addC", "s": s})
                g += 1
        elif r < 0.68:
            h.append({"op": "remP", "k": rng.randint(0, p)})
        elif r < 0.82:
            h.append({"op": "remC", "k": rng.randint(0, g)})
        elif r < 0.95:
            h.append({"op": "solve", "grad": rng.choice(["AD", "FD"]), "algorithm": rng.choice(["SLSQP", "MMA"])})
        else:
            if rng.random() < 0.5:
                h.append({"op": "solve", "grad": rng.choice(["no such", "ad", "fd", "CD", "cd", "", "AD ", "FDM", "A"]), "algorithm": rng.choice(["SLSQP", "MMA"])})
            else:
                h.append({"op": "solve", "grad": rng.choice(["AD", "FD"]), "algorithm": rng.choice(["no such", "slsqp", "lbfgs", "LD_MMA", "", "COBYLA", "S", "SLSQP "])})
    return h


def model_histories(report, scratch, depth, ns=2, ng=2):
    res = run_tlc("CemBookMC.tla", "CemBookMC.cfg", scratch, workers=1, constants={"DEPTH": str(depth), "EMIT": "TRUE", "NS": str(ns), "NG": str(ng)})
    tlc_must_pass(res, "CemBookMC")
    report.model(res, "CemBookMC:depth%d" % depth)
    hs = {json.dumps(line["h"], sort_keys=True): line["h"] for line in res["lines"]}
    prefixes = set()
    for h in hs.values():
        for i in range(1, len(h)):
            prefixes.add(json.dumps(h[:i], sort_keys=True))
    return [h for k, h in sorted(hs.items()) if k not in prefixes]


def judge_histories(report, scratch, histories, clauses, name):
    recs = pool_map(replay, list(enumerate(histories)))
    lines = [line for r in recs for line in r]
    res = judge("CemBookTrace", lines, scratch, name)
    report.states += res["states"]
    report.transitions += res["transitions"]
    report.traces += len(recs)
    report.steps += len(lines)
    report.notes["trace:" + name] = {"histories": len(recs), "steps": len(lines), "solves": sum(1 for line in lines if "solved" in line),
                                     "refusals": sum(1 for line in lines if not line["ok"])}
    for at, bad in res["bad"]:
        for clause in bad:
            if clauses(clause):
                first = at
                while not lines[first]["first"]:
                    first -= 1
                report.violation(clause, {"campaign": name, "history": [x["op"] for x in lines[first:at + 1]], "line": lines[at]})
    if histories and len(report.samples) < 5:
        report.samples.append({"campaign": name, "history": histories[len(histories) // 2]})
    return lines
