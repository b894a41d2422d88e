"""Drives real topology diagrams and projects them to states of CemDiagram.tla."""
import copy
import os
import pickle
import random
import shutil
import tempfile

from common import fixed, fixed3, import_repo, quiet

import_repo()

import numpy as np  # noqa: E402
import compas  # noqa: E402
from compas.geometry import Point, Vector, Plane  # noqa: E402
from compas_cem.diagrams import TopologyDiagram  # noqa: E402
from compas_cem.elements import Node, TrailEdge, DeviationEdge  # noqa: E402
from compas_cem.loads import NodeLoad  # noqa: E402
from compas_cem.supports import NodeSupport  # noqa: E402

U = 10000.0
TOLU = {"1f": 1000, "2f": 100, "3f": 10, "4f": 1}


def nid(key):
    return repr(key) if not isinstance(key, np.integer) else repr(int(key))


def key_of(ident):
    return int(ident)


class Keys(list):
    """Keys that are equal, but never one and the same object."""

    def __getitem__(self, i):
        k = list.__getitem__(self, i)
        return Keys(k) if isinstance(i, slice) else k if k is None else int(str(k))

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]


class KeyMap(dict):
    def __getitem__(self, i):
        return int(str(dict.__getitem__(self, i)))


def pick_keys(rng, n, plain=0.3):
    """Keys for n nodes: consecutive, scattered, far apart, or with negative ones."""
    r = rng.random()
    if r < plain:
        return Keys(range(n))
    if r < plain + 0.1:
        return Keys(rng.sample(range(1, n + 1), n))
    if r < 0.7:
        return Keys(rng.sample(range(3 * n), n))
    if r < 0.92:
        return Keys(rng.sample(range(100000), n))
    return Keys(rng.sample(range(-2 * n, 2 * n), n))


def nlist(nodes):
    return [nid(n) for n in nodes]


def elist(edges):
    return [[nid(u), nid(v)] for u, v in edges]


def plane6(plane):
    if not plane:
        return []
    o, n = plane
    return fixed3(o) + fixed3(n)


def project(d, probes):
    """The state of a diagram in the vocabulary of the specification."""
    nodes = {}
    for n in d.nodes():
        t = d.node_attribute(n, "type")
        k = d.node_attribute(n, "_k")
        nodes[nid(n)] = {"p": fixed3(d.node_coordinates(n)),
                         "t": "none" if t is None else str(t),
                         "k": -1 if k is None else int(k),
                         "q": fixed3(d.node_attributes(n, ["qx", "qy", "qz"])),
                         "r": fixed3(d.node_attributes(n, ["rx", "ry", "rz"]))}
    edges = []
    for u, v in d.edges():
        e = (u, v)
        t = d.edge_attribute(e, "type")
        edges.append({"u": nid(u), "v": nid(v), "t": "none" if t is None else str(t),
                      "len": fixed(d.edge_attribute(e, "length")),
                      "f": fixed(d.edge_attribute(e, "force")),
                      "pl": plane6(d.edge_attribute(e, "plane"))})
    look = []
    seen = set()
    for p in probes:
        if tuple(p) in seen:
            continue
        seen.add(tuple(p))
        r = d.node_key([c / U for c in p])
        if (r is None) == bool(d.node_exists([c / U for c in p])):
            r = "'exists-mismatch'"
        look.append({"p": list(p), "r": "none" if r is None else (r if isinstance(r, str) else nid(r))})
    av = [float(c) for c in d.auxiliary_trail_vector]
    return {"nodes": nodes, "edges": edges,
            "trails": {nid(k): nlist(t) for k, t in d.trails(keys=True)},
            "aux": {nid(k): nlist(e) for k, e in d.auxiliary_trails(keys=True)},
            "al": fixed(d.auxiliary_trail_length), "av": fixed3(av, 10),
            "tolu": TOLU.get(d.tol, 999), "look": look}


def connected(d, kind, n):
    """The deviation edges of one kind attached to a node, from the diagram's own helper if there is one."""
    helper = getattr(d, "_connected_%s_deviation_edges" % kind, None)
    if helper is not None:
        return helper(n)
    is_kind = getattr(d, "is_%s_deviation_edge" % kind)
    return [e for e in d.connected_deviation_edges(n) if is_kind(e)]


def with_data(listing):
    """The rows of a listing of edges with their data."""
    rows = []
    for e, a in listing(data=True):        # values that were never set may be missing
        rows.append({"u": nid(e[0]), "v": nid(e[1]), "t": str(a["type"]), "f": fixed(a.get("force", 0.0)), "len": fixed(a.get("length", 0.0)),
                     "pl": plane6(a.get("plane"))})
    return rows


def heavy(d, nodes):
    """Nodes loaded by more than m + 1/2 units."""
    m = sum(abs(c) for n in nodes for c in fixed3(d.node_load(n))) % 23000
    least = (m + 0.5) / U
    return {"m": m, "list": nlist(d.loaded_nodes(least)), "is": nlist(n for n in nodes if d.is_node_loaded(n, least))}


def queries(d):
    """What the public query methods report."""
    nodes = list(d.nodes())
    edges = list(d.edges())
    q = {"trail_edges": elist(d.trail_edges()), "deviation_edges": elist(d.deviation_edges()),
         "supports": nlist(d.support_nodes()), "origins": nlist(d.origin_nodes()),
         "loaded": nlist(d.loaded_nodes()), "aux_edges": elist(d.auxiliary_trail_edges()),
         "n_trails": d.number_of_trails(), "n_aux": d.number_of_auxiliary_trails(),
         "n_trail_edges": d.number_of_trail_edges(), "n_deviation_edges": d.number_of_deviation_edges(),
         "n_supports": d.number_of_support_nodes(), "n_loaded": d.number_of_loaded_nodes(),
         "has_trails": bool(d.has_trails()),
         "conn_trail": {nid(n): elist(d.connected_trail_edges(n)) for n in nodes},
         "conn_dev": {nid(n): elist(d.connected_deviation_edges(n)) for n in nodes},
         "is_trail": elist(e for e in edges if d.is_trail_edge(e)),
         "is_dev": elist(e for e in edges if d.is_deviation_edge(e)),
         "is_aux": elist(e for e in edges if d.is_auxiliary_trail_edge(e)),
         "is_support": nlist(n for n in nodes if d.is_node_support(n)),
         "is_origin": nlist(n for n in nodes if d.is_node_origin(n)),
         "is_loaded": nlist(n for n in nodes if d.is_node_loaded(n)),
         "supported_edges": elist(e for e in edges if d.is_edge_supported(e)),
         "values": [{"u": nid(e[0]), "v": nid(e[1]), "f": fixed(d.edge_force(e)), "len": fixed(d.edge_length_2(e)),
                     "pl": plane6(d.edge_plane(e))} for e in edges],
         "loads": [{"n": nid(n), "q": fixed3(d.node_load(n)), "r": fixed3(d.reaction_force(n)),
                    "p": fixed3(d.node_xyz(n))} for n in nodes],
         "trail": {nid(k): nlist(d.trail(k)) for k, _ in d.trails(keys=True)},
         "trail_list": [nlist(t) for t in d.trails()],
         "heavy": heavy(d, nodes),
         "data": {"trail": with_data(d.trail_edges), "deviation": with_data(d.deviation_edges), "aux": with_data(d.auxiliary_trail_edges)}}
    if nodes and all(d.node_attribute(n, "_k") is not None for n in nodes):
        try:
            q.update({
                "direct": elist(d.direct_deviation_edges()), "indirect": elist(d.indirect_deviation_edges()),
                "data_direct": with_data(d.direct_deviation_edges), "data_indirect": with_data(d.indirect_deviation_edges),
                "is_direct": elist(e for e in edges if d.is_direct_deviation_edge(e)),
                "is_indirect": elist(e for e in edges if d.is_indirect_deviation_edge(e)),
                "conn_direct": {nid(n): elist(connected(d, "direct", n)) for n in nodes},
                "conn_indirect": {nid(n): elist(connected(d, "indirect", n)) for n in nodes},
                "n_direct": d.number_of_direct_deviation_edges(), "n_indirect": d.number_of_indirect_deviation_edges(),
                "k_last": int(d.sequence_last()), "n_sequences": int(d.number_of_sequences()),
                "sequences": [{"k": int(k), "n": nlist(s)} for k, s in d.sequences(keys=True)],
                "sequences_plain": [nlist(s) for s in d.sequences()],
                "node_sequence": {nid(n): int(d.node_sequence(n)) for n in nodes},
                "edge_sequence": [{"u": nid(e[0]), "v": nid(e[1]), "k": [int(k) for k in d.edge_sequence(e)]} for e in edges],
                "trail_sequences": {nid(o): [[int(k), nid(n)] for k, n in m.items()] for o, m in d.trails_sequences().items()}})
        except (ValueError, TypeError, KeyError, AttributeError, AssertionError):
            pass
    return q


def written(d, how=0):
    """A diagram (or any other serializable object) written as JSON and read back."""
    how = how % 4
    if how == 0:
        return compas.json_loads(compas.json_dumps(d))
    if how == 1:
        return type(d).from_jsonstring(d.to_jsonstring())
    folder = tempfile.mkdtemp(prefix="cem-")
    path = os.path.join(folder, "d.json")
    try:
        if how == 2:
            d.to_json(path, pretty=True)
            return type(d).from_json(path)
        compas.json_dump(d, path)
        return compas.json_load(path)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def copied(d, how=0):
    how = how % 4
    if how == 2:
        return copy.deepcopy(d)
    if how == 3:
        return pickle.loads(pickle.dumps(d))
    return d.copy()


def xyz_like(p, kind):
    xyz = [c / U for c in p]
    if kind == 1:
        return tuple(xyz)
    if kind == 2:
        return Point(*xyz)
    if kind == 3:
        return np.array(xyz)
    return xyz


def scramble(x):
    """Modify a mutable argument after the call: the diagram must not notice."""
    if isinstance(x, list) or isinstance(x, np.ndarray):
        for i in range(len(x)):
            x[i] = 77.0 + i
    elif isinstance(x, (Point, Vector)):
        x.x, x.y, x.z = 77.0, 78.0, 79.0


class Driver(object):
    """One history on a real diagram."""

    def __init__(self, probes, tol="3f", with_queries=False, kinds=False, rng=None, tr=0):
        self.d = TopologyDiagram()
        self.d.tol = tol
        self.probes = [list(p) for p in probes]
        self.q = with_queries
        self.kinds = kinds
        self.rng = rng or random.Random(0)
        self.lines = []
        self.tr = tr
        self.shadow = []       # (original, projection) of diagrams replaced by copies

    def kind(self):
        return self.rng.randrange(4) if self.kinds else 0

    def init(self):
        self.record({"op": "init"}, True, {}, "")

    def record(self, op, ok, res, err, extra=None):
        line = {"tr": self.tr, "first": not self.lines, "op": op, "ok": ok, "res": res, "err": err, "crash": ""}
        try:
            with quiet():
                line["post"] = project(self.d, self.probes)
                if self.q:
                    line["q"] = queries(self.d)
        except Exception as e:      # the code under test fails while being observed
            line["crash"] = "%s: %s" % (type(e).__name__, e)
            line["post"] = {"nodes": {}, "edges": [], "trails": {}, "aux": {}, "al": 0, "av": [0, 0, 0], "tolu": 10, "look": []}
        if extra:
            line["extra"] = extra
        self.lines.append(line)
        return line

    def ref(self, r, cls_key, cls_point, *args):
        if "k" in r:
            return cls_key(key_of(r["k"]), *args), None
        p = xyz_like(r["p"], self.kind())
        return cls_point(p, *args), p

    def do(self, op, extra=None):
        res, err, ok = {}, "", True
        try:
            with quiet():
                res = self.perform(op) or {}
        except Exception as e:
            ok, err = False, type(e).__name__
        return self.record(op, ok, res, err, extra)

    def perform(self, op):
        d = self.d
        name = op["op"]
        if name == "nop":
            return {}
        if name == "addNode":
            xyz = xyz_like(op["p"], self.kind())
            key = None if op["key"] == "none" else key_of(op["key"])
            if key is None and self.kinds and self.rng.random() < 0.5:
                new = d.add_node(Node.from_point(xyz))
            else:
                new = d.add_node(Node(key, xyz))
            scramble(xyz)
            return {"new": [nid(new)]}
        if name == "move":
            xyz = xyz_like(op["p"], self.kind())
            if self.kinds and self.rng.random() < 0.5:
                d.update_node_xyz(key_of(op["key"]), xyz)
            else:
                d.node_xyz(key_of(op["key"]), xyz)
            scramble(xyz)
            return {}
        if name == "addEdge":
            ends, points = [], []
            for r in (op["a"], op["b"]):
                if "k" in r:
                    ends.append(key_of(r["k"]))
                else:
                    xyz = xyz_like(r["p"], self.kind())
                    points.append(xyz)
                    ends.append(xyz)
            val = op["val"] / U
            if op["t"] == "trail":
                plane = None
                if op["pl"]:
                    o, n = [c / U for c in op["pl"][:3]], [c / U for c in op["pl"][3:]]
                    plane = (o, n) if self.kind() else [o, n]
                if len(points) == 2 and self.kinds and self.rng.random() < 0.5:
                    e = TrailEdge.from_line(ends, length=val, plane=plane)
                else:
                    e = TrailEdge(ends[0], ends[1], length=val, plane=plane)
            else:
                if len(points) == 2 and self.kinds and self.rng.random() < 0.5:
                    e = DeviationEdge.from_line(ends, force=val)
                else:
                    e = DeviationEdge(ends[0], ends[1], force=val)
            u, v = d.add_edge(e)
            return {"u": nid(u), "v": nid(v)}
        if name == "addSupport":
            s, p = self.ref(op["ref"], NodeSupport, NodeSupport.from_point)
            try:
                d.add_support(s)
            finally:
                scramble(p)
            return {}
        if name == "addLoad":
            vec = xyz_like(op["q"], self.kind())
            if "k" in op["ref"]:
                load, p = NodeLoad(key_of(op["ref"]["k"]), vec), None
            else:
                p = xyz_like(op["ref"]["p"], self.kind())
                load = NodeLoad.from_point_and_vector(p, vec)
            try:
                d.add_load(load)
            finally:
                scramble(vec)
                scramble(p)
            return {}
        if name == "delEdge":
            d.delete_edge(key_of(op["u"]), key_of(op["v"]))
            return {}
        if name == "delNode":
            d.delete_node(key_of(op["key"]))
            return {}
        if name == "raw":
            # coordinates overwritten behind the back of the diagram
            d.node_attributes(key_of(op["key"]), "xyz", [c / U for c in op["p"]])
            return {}
        if name == "optimize":
            # an optimization that pulls an origin along an axis until it meets its bound
            from compas.geometry import Point
            from compas_cem import optimization as opt
            key, axis = key_of(op["key"]), op["axis"]
            o = opt.Optimizer()
            bound = op["by"] / U
            o.add_parameter(getattr(opt, "OriginNode%sParameter" % "XYZ"[axis])(key, abs(bound), abs(bound)))
            target = [float(c) for c in d.node_coordinates(key)]
            target[axis] += 100.0 * bound
            o.add_constraint(opt.PointConstraint(key, Point(*target)))
            o.solve(d, algorithm=op["algorithm"], grad="FD", iters=op["iters"], tmax=1)
            op["p"] = fixed3(d.node_coordinates(key))
            if op["p"] not in self.probes:
                self.probes.append(op["p"])
            return {}
        if name == "build":
            if op["aux"]:
                d.build_trails(auxiliary_trails=True)
            elif self.kinds and self.rng.random() < 0.5:
                d.build_trails(False)
            else:
                d.build_trails()
            return {}
        if name == "shift":
            d.shift_trail(key_of(op["key"]), op["s"])
            return {}
        if name == "setaux":
            d.auxiliary_trail_length = op["al"] / U
            d.auxiliary_trail_vector = [c / 10.0 for c in op["av"]]
            return {}
        if name == "json":
            self.d = written(d, self.kind())
            return {}
        if name == "copy":
            self.d = copied(d, self.kind())
            return {}
        if name == "solve":
            from compas_cem.equilibrium import static_equilibrium
            static_equilibrium(d, tmax=1)
            return {}
        raise RuntimeError("unknown operation " + name)


def default_probes(h):
    """All the positions a history mentions."""
    pts = []
    for op in h:
        for p in [op.get("p")] + [r.get("p") for r in (op.get("a", {}), op.get("b", {}), op.get("ref", {}))]:
            if p is not None and list(p) not in pts:
                pts.append(list(p))
    return pts
