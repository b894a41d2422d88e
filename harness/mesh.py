"""Meshes of CemMesh.tla, converted by the real code."""
import random

from common import SEED, fixed, fixed3, judge, pool_map, quiet, run_tlc, tlc_must_pass
from diagrams import TopologyDiagram, pick_keys


class FakeMesh(object):
    """What the conversion asks of a quad mesh."""

    def __init__(self, vertices, polyedges):
        self._vertices, self._polyedges, self._collected = vertices, polyedges, None

    def collect_polyedges(self):
        self._collected = {i: list(p) for i, p in enumerate(self._polyedges)}

    def polyedges(self, data=False):
        for k, p in self._collected.items():
            yield (k, p) if data else k

    def vertices(self, data=False):
        for v in self._vertices:
            yield v

    def vertex_coordinates(self, v, axes="xyz"):
        return list(self._vertices[v])

    def number_of_vertices(self):
        return len(self._vertices)


def random_system(rng):
    """Polyedges of any length with arbitrary supports; no two polyedges share a link."""
    while True:
        n = rng.randint(2, 16)
        poly, seen = [], set()
        for _ in range(rng.randint(1, 6)):
            m = rng.randint(2, min(n, 9))
            p = rng.sample(range(1, n + 1), m)
            if m > 2 and rng.random() < 0.2:
                p.append(p[0])
            links = [frozenset(x) for x in zip(p, p[1:])]
            if not seen & set(links):
                seen |= set(links)
                poly.append(p)
        density = rng.choice([0.0, 0.2, 0.5, 0.8, 1.0])
        sup = [v for v in range(1, n + 1) if rng.random() < density]
        for p in poly:      # favour supported ends
            for v in (p[0], p[-1]):
                if v not in sup and rng.random() < 0.4:
                    sup.append(v)
        return {"n": n, "poly": poly, "sup": sorted(sup)}


def convert(args):
    idx, inst = args
    rng = random.Random(SEED * 15487469 + idx)
    n = inst["n"]
    keys = pick_keys(rng, n)
    if rng.random() < 0.7:
        pos = [[round(rng.uniform(-9, 9), 3) for _ in range(3)] for _ in range(n)]
    else:
        pos = [[float(v % 4), float(v // 4), 0.0] for v in range(n)]
    poly = [[keys[v - 1] for v in p] for p in inst["poly"]]
    given = rng.choice([None, None, 1.5, 0.25, 4])
    tstate, dstate, force = rng.choice([-1, 1]), rng.choice([-1, 1]), rng.choice([None, 1.0, 0.5, 3.25, 2, 0.0])
    line = {"first": True, "crash": "", "inst": inst, "pos": [fixed3(p, 1000) for p in pos], "length": fixed(given or 0, 1000),
            "tstate": tstate, "dstate": dstate, "force": fixed(1.0 if force is None else force, 1000)}
    order = list(range(n))
    rng.shuffle(order)
    mesh = FakeMesh({keys[i]: pos[i] for i in order}, poly)
    sups = [keys[v - 1] for v in inst["sup"]]
    rng.shuffle(sups)
    kw = {}
    if given is not None or rng.random() < 0.5:
        kw["trail_length"] = given
    if tstate != -1 or rng.random() < 0.5:
        kw["trail_state"] = tstate
    if dstate != -1 or rng.random() < 0.5:
        kw["deviation_state"] = dstate
    if force is not None:
        kw["deviation_force"] = force
    name = {k: i + 1 for i, k in enumerate(keys)}
    try:
        with quiet():
            d = TopologyDiagram.from_dualquadmesh(mesh, rng.choice([list, set, tuple])(sups), **kw)
        line["nodes"] = [{"v": name.get(k, 0), "p": fixed3(d.node_coordinates(k), 1000), "sup": bool(d.is_node_support(k))} for k in d.nodes()]
        line["edges"] = [{"u": name.get(u, 0), "v": name.get(v, 0), "t": str(d.edge_attribute((u, v), "type")),
                          "length": fixed(d.edge_attribute((u, v), "length"), 1000), "force": fixed(d.edge_attribute((u, v), "force"), 1000)} for u, v in d.edges()]
    except Exception as e:
        line["crash"] = "%s: %s" % (type(e).__name__, e)
    return line


def model_instances(report, scratch, sizes, emit=True):
    text = "{%s}" % ", ".join(str(s) for s in sizes)
    res = run_tlc("CemMeshMC.tla", "CemMeshMC.cfg", scratch, constants={"SIZES": text, "EMIT": "TRUE" if emit else "FALSE"})
    tlc_must_pass(res, "CemMeshMC")
    report.model(res, "CemMeshMC:" + "+".join(str(s) for s in sizes))
    out = res["lines"]
    for i in out:
        i["sup"] = sorted(i["sup"])
    out.sort(key=str)
    return out


def judge_instances(report, scratch, insts, clauses, name):
    lines = pool_map(convert, list(enumerate(insts)))
    res = judge("CemMeshTrace", lines, scratch, name)
    report.states += res["states"]
    report.transitions += res["transitions"]
    report.traces += len(lines)
    report.steps += sum(len(line.get("edges", [])) for line in lines)
    report.notes["trace:" + name] = {"meshes": len(lines), "edges": sum(len(line.get("edges", [])) for line in lines)}
    for at, bad in res["bad"]:
        for clause in bad:
            if clauses(clause):
                report.violation(clause, {"campaign": name, "line": lines[at]})
    if insts and len(report.samples) < 5:
        report.samples.append({"campaign": name, "mesh": insts[len(insts) // 2]})
    return lines
