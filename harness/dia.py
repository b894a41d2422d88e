"""Campaigns on topology diagrams: histories for the real code, judged by CemDiagramTrace."""
import json
import random

from common import SEED, Scratch, judge, pool_map, run_tlc, tier, tlc_must_pass, fixed
from compas.geometry import Plane, Point, Vector
from diagrams import Keys, TOLU, Driver, copied, written, TopologyDiagram, U, default_probes, key_of, nid, np, quiet
from diagrams import Node, TrailEdge, DeviationEdge, NodeLoad, NodeSupport
from diagrams import project, queries  # noqa: F401

VEC = [[0, 0, 10], [0, 0, -10], [10, -20, 20], [0, -30, 40], [20, 30, -60], [5, 0, 0]]


# ------------------------------------------------------------------------------
# histories from the exhaustive model
# ------------------------------------------------------------------------------

def model_histories(report, scratch, profile, depth, emit=True):
    """Explore CemDiagramMC and return the maximal histories it printed."""
    res = run_tlc("CemDiagramMC.tla", "CemDiagramMC.cfg", scratch, workers=8 if not emit else 1,
                  constants={"PROFILE": '"%s"' % profile, "DEPTH": str(depth), "EMIT": "TRUE" if emit else "FALSE"})
    tlc_must_pass(res, "CemDiagramMC " + profile)
    report.model(res, "CemDiagramMC:%s:depth%d" % (profile, depth))
    if not emit:
        return []
    hs = {json.dumps(line["h"], sort_keys=True): line["h"] for line in res["lines"]}
    prefixes = set()
    for h in hs.values():
        for i in range(1, len(h)):
            prefixes.add(json.dumps(h[:i], sort_keys=True))
    return [h for k, h in sorted(hs.items()) if k not in prefixes]


QUAD = {"0": [0, 0, 0], "1": [10000, 0, -5000], "2": [0, 20000, 0], "3": [0, 0, 30000]}
MCPOINTS = [[0, 0, 0], [10000, 0, -5000], [0, 20000, 0], [3, -2, 1], [10000, 0, -5010]]


def replay_model(args):
    idx, profile, h, opts = args
    rng = random.Random(SEED * 1000003 + idx)
    drv = Driver(MCPOINTS + [[0, 0, 30000]], with_queries=opts.get("queries", False), kinds=True, rng=rng, tr=idx)
    drv.init()
    if profile == "trail":
        keys = sorted(QUAD)
        for k in keys:
            drv.d.add_node(Node(key_of(k), [c / U for c in QUAD[k]]))
        drv.lines = []
        drv.init()
    for op in h:
        drv.do(op, extra=None)
        if opts.get("fresh") and op["op"] == "build":
            attach_fresh(drv, rng)
    if opts.get("roundtrip"):
        drv.do({"op": rng.choice(["json", "copy"])})
        drv.do({"op": "build", "aux": rng.random() < 0.5})
    return drv.lines


# ------------------------------------------------------------------------------
# exhaustive topologies
# ------------------------------------------------------------------------------

def graphs(report, scratch, n, kinds=("none", "trail", "deviation")):
    res = run_tlc("CemGraphs.tla", "CemGraphs.cfg", scratch,
                  constants={"N": str(n), "KINDS": "{%s}" % ", ".join('"%s"' % k for k in kinds), "EMIT": "TRUE"})
    tlc_must_pass(res, "CemGraphs")
    report.model(res, "CemGraphs:N%d:%s" % (n, "-".join(kinds)))
    out = [dict(line, n=n) for line in res["lines"]]
    out.sort(key=lambda g: json.dumps(g, sort_keys=True))
    return out


def graph_driver(g, rng, idx, qs):
    """Realise a topology with arbitrary keys, orders and orientations."""
    n = g["n"]
    keys = Keys(rng.sample([0, 1, 2, 3, 4, 5, 6, 9, 17, 40, 101, 257, 1000, 70000], n)) if rng.random() < 0.7 else list(range(n))
    points = rng.sample([[x * 5000, y * 7000, z * 11000] for x in range(3) for y in range(2) for z in range(2)], n)
    drv = Driver([], with_queries=qs, kinds=True, rng=rng, tr=idx)
    d = drv.d
    order = list(range(n))
    rng.shuffle(order)
    for i in order:
        d.add_node(Node(keys[i], [c / U for c in points[i]]))
    edges = [(a, b, "trail") for a, b in g["t"]] + [(a, b, "deviation") for a, b in g["d"]]
    rng.shuffle(edges)
    for a, b, t in edges:
        if rng.random() < 0.5:
            a, b = b, a
        val = rng.choice([-10000, 5000, 20000, -30000]) / U
        d.add_edge(TrailEdge(keys[a], keys[b], val) if t == "trail" else DeviationEdge(keys[a], keys[b], val))
    sup = list(g["s"])
    rng.shuffle(sup)
    for s in sup:
        d.add_support(NodeSupport(keys[s]))
    drv.probes = []
    drv.init()
    return drv, keys


def replay_graph(args):
    idx, g, opts = args
    rng = random.Random(SEED * 7919 + idx)
    drv, keys = graph_driver(g, rng, idx, opts.get("queries", False))
    for op in opts["ops"]:
        if op == "shift":
            key = rng.choice(keys)
            drv.do({"op": "shift", "key": nid(key), "s": rng.choice([0, 1, 2, 5])})
        elif op == "build":
            drv.do({"op": "build", "aux": False})
        elif op == "buildaux":
            drv.do({"op": "build", "aux": True})
        elif op == "solve":
            if not drv.d.has_trails():
                drv.do({"op": "solve"})
        elif op == "json":
            drv.do({"op": "json"})
        if opts.get("fresh") and op.startswith("build"):
            attach_fresh(drv, rng)
    return drv.lines


# ------------------------------------------------------------------------------
# comparison with a fresh diagram
# ------------------------------------------------------------------------------

def rebuild_fresh(d, rng):
    """A new diagram with the nodes, edges, supports and loads of d."""
    f = TopologyDiagram()
    f.tol = d.tol
    nodes = list(d.nodes())
    edges = list(d.edges())
    rng.shuffle(nodes)
    rng.shuffle(edges)
    for n in nodes:
        f.add_node(Node(n, d.node_coordinates(n)))
    for u, v in edges:
        e = (u, v)
        if d.is_trail_edge(e):
            f.add_edge(TrailEdge(u, v, d.edge_length_2(e), d.edge_plane(e)))
        else:
            f.add_edge(DeviationEdge(u, v, d.edge_force(e)))
    for n in nodes:
        if d.is_node_support(n):
            f.add_support(NodeSupport(n))
        f.add_load(NodeLoad(n, d.node_load(n)))
    return f


def text(x):
    """A value as a canonical string."""
    return json.dumps(x, sort_keys=True, default=repr)


def plain(x):
    """Any attribute value in terms of lists, strings and rounded numbers."""
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, dict):
        return {repr(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, np.ndarray)) or hasattr(x, "__iter__"):
        return [plain(v) for v in x]
    try:
        return repr(float(x) + 0.0)
    except (TypeError, ValueError):
        return repr(x)


def everything(d):
    """All that a diagram stores, in a canonical form."""
    out = {"class": type(d).__name__, "tol": d.tol,
           "nodes": sorted([nid(n), sorted((k, plain(d.node_attribute(n, k))) for k in set(d.default_node_attributes) | set(d.node[n]))] for n in d.nodes()),
           "edges": sorted([nid(u), nid(v), sorted((k, plain(d.edge_attribute((u, v), k))) for k in set(d.default_edge_attributes) | set(d.edge[u][v]))]
                           for u, v in d.edges()),
           "adjacency": sorted([nid(n), sorted(nid(m) for m in d.neighbors(n))] for n in d.nodes()),
           "lookups": sorted([nid(n), repr(d.node_key(d.node_coordinates(n)))] for n in d.nodes())}
    if hasattr(d, "trails"):
        out["trails"] = sorted([nid(k), plain(list(t))] for k, t in d.trails(keys=True))
        out["auxiliary"] = sorted([nid(k), plain(list(e))] for k, e in d.auxiliary_trails(keys=True))
        out["settings"] = [plain(d.auxiliary_trail_length), plain(list(d.auxiliary_trail_vector))]
    return json.loads(text(out))


def stored(d):
    """Everything, and the data that would be written to a file."""
    return text([everything(d), plain(d.data)])


def summary(d):
    """Trails, sequences and origins, in a canonical order."""
    return [sorted([nid(k), [nid(n) for n in t]] for k, t in d.trails(keys=True)),
            sorted([nid(n), -1 if d.node_attribute(n, "_k") is None else int(d.node_attribute(n, "_k"))] for n in d.nodes()),
            sorted(nid(n) for n in d.origin_nodes()), sorted(nid(n) for n in d.support_nodes())]


def form_digest(d, solver=None, tmax=1):
    from compas_cem.equilibrium import static_equilibrium
    try:
        form = (solver or static_equilibrium)(d, tmax=tmax)
    except Exception as e:
        return [["refused " + type(e).__name__], []]
    names, values = [], []
    for n in sorted(form.nodes()):
        names.append(nid(n))
        values += [fixed(c) for c in list(form.node_coordinates(n)) + list(form.reaction_force(n))]
    for e in sorted(form.edges()):
        names.append([nid(e[0]), nid(e[1])])
        values += [fixed(form.edge_attribute(e, "force")), fixed(form.edge_attribute(e, "length"))]
    return [names, values]


def attach_fresh(drv, rng):
    """After a build: the same build in a diagram without that history."""
    line = drv.lines[-1]
    if line["crash"]:
        return
    extra = []
    try:
        with quiet():
            f = rebuild_fresh(drv.d, rng)
            try:
                f.build_trails()
                ok = True
            except Exception:
                ok = False
            if line["ok"]:
                extra.append({"name": "fresh.outcome", "got": True, "want": ok})
            elif not line["op"]["aux"]:
                extra.append({"name": "fresh.outcome", "got": False, "want": ok})
            if line["ok"] and ok:
                extra.append({"name": "fresh.trails", "got": text(summary(drv.d)), "want": text(summary(f))})
                got, want = form_digest(drv.d), form_digest(f)
                extra.append({"name": "fresh.form.keys", "got": text(got[0]), "want": text(want[0])})
                extra.append({"name": "fresh.form", "got": got[1], "want": want[1], "tol": 3})
                before = project(drv.d, drv.probes)
                drv.d.build_trails()
                after = project(drv.d, drv.probes)
                extra.append({"name": "rebuild.idempotent", "got": text(after), "want": text(before)})
    except Exception as e:
        line["crash"] = "%s: %s" % (type(e).__name__, e)
        return
    line["extra"] = line.get("extra", []) + extra


# ------------------------------------------------------------------------------
# long random histories
# ------------------------------------------------------------------------------

GRID = [[x * 5000, y * 5000, z * 5000] for x in range(-3, 4) for y in range(-3, 4) for z in range(-2, 3)]


def ruin(d):
    """Overwrite in place whatever a diagram refers to: nobody else may notice."""
    def inside(x):
        if isinstance(x, dict):
            for v in list(x.values()):
                inside(v)
            x.clear()
        elif isinstance(x, list):
            for v in x:
                inside(v)
            x[:] = []
        elif isinstance(x, (Point, Vector)):
            x.x, x.y, x.z = 77.0, 78.0, 79.0
        elif isinstance(x, Plane):
            inside(x.point)
            inside(x.normal)
        elif isinstance(x, tuple):
            for v in x:
                inside(v)
    for n in list(d.nodes()):
        for v in list(d.node[n].values()):
            inside(v)
    for u, v in list(d.edges()):
        for a in list(d.edge[u][v].values()):
            inside(a)
    inside(d.attributes)


class Story(object):
    """A random history that mixes construction, edits, builds and queries."""

    def __init__(self, idx, opts):
        self.rng = random.Random(SEED * 15485863 + idx)
        self.opts = opts
        self.grid = self.rng.sample(GRID, 40)
        self.tol = self.rng.choice(opts.get("tols", ["3f"]))
        probes = self.grid[:opts.get("probes", 10)]
        self.near = opts.get("near", False)
        if self.near:
            probes = probes + [[c + self.rng.randint(-4, 4) for c in p] for p in probes[:4]]
            probes = probes + [[c + 10 * self.rng.randint(-1, 1) for c in p] for p in probes[:4]]
        probes = [self.untie(p) for p in probes]
        self.drv = Driver(probes, tol=self.tol, with_queries=opts.get("queries", False), kinds=True, rng=self.rng, tr=idx)
        self.drv.init()
        self.fresh_pos = list(self.grid)
        self.rng.shuffle(self.fresh_pos)
        self.built = False
        self.side = []         # lines about other diagrams

    @property
    def d(self):
        return self.drv.d

    def nodes(self):
        return list(self.d.nodes())

    def val(self):
        v = self.rng.choice([self.rng.randint(3000, 30000), self.rng.randint(3000, 30000), self.rng.choice([1, 7, 99990])])
        return v if self.rng.random() < 0.5 else -v

    def plane(self):
        if self.rng.random() < 0.2:
            r = self.rng
            return [r.randint(-20000, 20000) for _ in range(3)] + [r.randint(-10000, 10000) for _ in range(2)] + [10000]
        return []

    def load(self):
        """Loads of all kinds, also with components that vanish or cancel each other."""
        r = self.rng
        kind = r.random()
        if kind < 0.5:
            return [r.randint(-20000, 20000) for _ in range(3)]
        a = r.choice([-20000, -7000, -3, -1, 1, 5, 9000])
        q = [a, 0, 0] if kind < 0.75 else [a, -a, 0]
        r.shuffle(q)
        return q

    def untie(self, p):
        """Keep away from the middle between two cells of the registry, where rounding is a matter of taste."""
        t = TOLU[self.tol]
        return [c + 1 if (c % t) * 2 == t else c for c in p]

    def pos(self):
        p = self.fresh_pos.pop() if self.fresh_pos else [self.rng.randint(-90000, 90000) for _ in range(3)]
        return self.untie(p)

    def jitter(self, p):
        if self.near and self.rng.random() < 0.4:
            return self.untie([c + self.rng.randint(-4, 4) for c in p])
        return self.untie(p)

    def ref(self, key):
        """Refer to a node by key or by a position where it can be found."""
        p = [fixed(c) for c in self.d.node_coordinates(key)]
        if self.rng.random() < 0.4 and self.d.node_key([c / U for c in p]) == key and p in self.drv.probes:
            return {"p": p}
        return {"k": nid(key)}

    def has_any(self, u, v):
        return self.d.has_edge(u, v) or self.d.has_edge(v, u)

    def plan(self):
        """A valid diagram, possibly with deviation edges, loads and planes."""
        r = self.rng
        lens = [r.randint(*self.opts.get("length", (2, 4))) for _ in range(r.randint(*self.opts.get("trails", (1, 3))))]
        total = sum(lens)
        keys = r.sample(r.choice([range(0, 90), range(0, 90), range(-40, 60), range(0, 100000)] if total <= 90 else [range(-500, 100000)]), total) if r.random() < 0.6 else None
        by_points = r.random() < 0.3 and keys is None
        trails, steps = [], []
        flat = list(range(total))
        pos = [self.pos() for _ in flat]
        if not by_points:
            order = flat[:]
            r.shuffle(order)
            made = {}
            for i in order:
                line = self.drv.do({"op": "addNode", "key": "none" if keys is None else nid(keys[i]), "p": pos[i]})
                made[i] = line["res"].get("new", ["0"])[0]
        i = 0
        for n in lens:
            trails.append(flat[i:i + n])
            i += n
        for t in trails:
            for a, b in zip(t, t[1:]):
                steps.append(("trail", a, b))
        for _ in range(r.randint(0, self.opts.get("devs", 4))):
            a, b = r.sample(flat, 2)
            if not any({a, b} == {x, y} for _, x, y in steps):
                steps.append(("deviation", a, b))
        r.shuffle(steps)
        for t, a, b in steps:
            if r.random() < 0.5:
                a, b = b, a
            if by_points:
                ea, eb = {"p": pos[a]}, {"p": pos[b]}
                for p in (pos[a], pos[b]):
                    if p not in self.drv.probes:
                        self.drv.probes.append(p)
                # lookups of new probes are part of the state from the next line on
                self.drv.do({"op": "nop"})
            else:
                ea, eb = {"k": made[a]}, {"k": made[b]}
            self.drv.do({"op": "addEdge", "a": ea, "b": eb, "t": t, "val": self.val(), "pl": self.plane() if t == "trail" else []})
        if by_points:
            made = {}
            for i in flat:
                k = self.d.node_key([c / U for c in pos[i]])
                made[i] = nid(k) if k is not None else "999"
        for t in trails:
            self.drv.do({"op": "addSupport", "ref": {"k": made[t[-1]]}})
        for i in flat:
            if r.random() < 0.6:
                self.drv.do({"op": "addLoad", "ref": {"k": made[i]}, "q": self.load()})

    def step(self, name):
        r, d, drv = self.rng, self.d, self.drv
        ns = self.nodes()
        if name == "addNode":
            key = "none" if r.random() < 0.5 else nid(r.choice(ns + [r.randint(0, 80)]) if ns else r.randint(0, 80))
            p = self.jitter(r.choice(self.drv.probes)) if self.drv.probes and r.random() < 0.5 else self.pos()
            drv.do({"op": "addNode", "key": key, "p": p})
            self.built = False
        elif name == "move" and ns:
            p = self.jitter(r.choice(self.drv.probes)) if self.drv.probes and r.random() < 0.5 else self.pos()
            drv.do({"op": "move", "key": nid(r.choice(ns)), "p": p})
        elif name == "raw" and ns:
            p = self.jitter(r.choice(self.drv.probes)) if self.drv.probes and r.random() < 0.5 else self.pos()
            drv.do({"op": "raw", "key": nid(r.choice(ns)), "p": p})
        elif name == "optimize" and self.built:
            origins = [k for k, _ in d.trails(keys=True)]
            if origins:
                key = r.choice(origins)
                op = {"op": "optimize", "key": nid(key), "axis": r.randrange(3), "by": r.choice([-1, 1]) * r.choice([17, 5000, 10000, 12340]),
                      "algorithm": r.choice(["SLSQP", "LBFGS", "MMA"]), "iters": r.choice([1, 2, 20])}
                old = [fixed(c) for c in d.node_coordinates(key)]
                if self.untie(old) == old and old not in drv.probes:
                    drv.probes.append(old)
                    drv.do({"op": "nop"})
                drv.do(op)
                op.setdefault("p", old)
                if any(abs(c - x / U) > 1e-9 for c, x in zip(d.node_coordinates(key), op["p"])) or self.untie(op["p"]) != op["p"]:
                    drv.lines.pop()       # the place cannot be told exactly
                    return "stop"
        elif name == "delNode":
            inside = {n for _, e in d.auxiliary_trails(keys=True) for n in e}
            ns = [n for n in ns if n not in inside]
            if ns:
                drv.do({"op": "delNode", "key": nid(r.choice(ns))})
                self.built = False
        elif name == "back" and ns:
            # move a node away and back again
            n = r.choice(ns)
            p = [fixed(c) for c in d.node_coordinates(n)]
            drv.do({"op": "move", "key": nid(n), "p": self.pos()})
            drv.do({"op": "move", "key": nid(n), "p": p})
        elif name in ("addTrail", "addDev") and len(ns) > 1:
            u, v = r.sample(ns, 2)
            if d.has_edge(v, u):
                u, v = v, u
            drv.do({"op": "addEdge", "a": self.ref(u), "b": self.ref(v), "t": "trail" if name == "addTrail" else "deviation",
                    "val": self.val(), "pl": self.plane() if name == "addTrail" else []})
            self.built = False
        elif name == "addPointEdge" and self.drv.probes:
            a, b = r.sample(self.drv.probes, 2)
            ka, kb = (d.node_key([c / U for c in p]) for p in (a, b))
            ga, gb = (d.gkey([c / U for c in p]) for p in (a, b))
            if ga == gb or (ka is not None and ka == kb):
                return
            if ka is not None and kb is not None and d.has_edge(kb, ka):
                a, b = b, a
            t = r.choice(["trail", "deviation"])
            drv.do({"op": "addEdge", "a": {"p": list(a)}, "b": {"p": list(b)}, "t": t, "val": self.val(), "pl": []})
            self.built = False
        elif name == "delEdge":
            es = [e for e in d.edges() if not d.is_auxiliary_trail_edge(e)]
            if es:
                u, v = r.choice(es)
                drv.do({"op": "delEdge", "u": nid(u), "v": nid(v)})
                self.built = False
        elif name == "undoEdge":
            # an edge that is added and removed again
            if len(ns) > 1:
                u, v = r.sample(ns, 2)
                if not self.has_any(u, v):
                    drv.do({"op": "addEdge", "a": {"k": nid(u)}, "b": {"k": nid(v)}, "t": "trail", "val": self.val(), "pl": []})
                    drv.do({"op": "build", "aux": r.random() < 0.3})
                    self.note_build()
                    if self.d.is_auxiliary_trail_edge((u, v)):
                        return
                    drv.do({"op": "delEdge", "u": nid(u), "v": nid(v)})
                    drv.do({"op": "build", "aux": False})
                    self.note_build()
        elif name == "addSupport":
            if ns and r.random() < 0.6:
                drv.do({"op": "addSupport", "ref": self.ref(r.choice(ns))})
                self.built = False
            else:
                ref = {"k": nid(r.randint(200, 300))} if r.random() < 0.5 or not self.drv.probes else {"p": r.choice(self.drv.probes)}
                drv.do({"op": "addSupport", "ref": ref})
                self.built = False
        elif name == "addLoad":
            q = self.load() if r.random() < 0.8 else [0, 0, 0]
            if ns and r.random() < 0.6:
                drv.do({"op": "addLoad", "ref": self.ref(r.choice(ns)), "q": q})
            else:
                ref = {"k": nid(r.randint(200, 300))} if r.random() < 0.5 or not self.drv.probes else {"p": r.choice(self.drv.probes)}
                drv.do({"op": "addLoad", "ref": ref, "q": q})
        elif name == "build":
            drv.do({"op": "build", "aux": False})
            self.note_build()
        elif name == "buildaux":
            drv.do({"op": "build", "aux": True})
            self.note_build()
        elif name == "setaux":
            drv.do({"op": "setaux", "al": r.choice([-10000, 5000, -30000, 15000, 12500]), "av": r.choice(VEC)})
        elif name == "shift" and ns:
            keys = [k for k, _ in self.d.trails(keys=True)] if self.d.has_trails() else ns
            key = r.choice(keys) if r.random() < 0.75 else r.choice(ns)
            drv.do({"op": "shift", "key": nid(key), "s": r.choice([0, 0, 1, 2, 3, 7])})
        elif name in ("json", "copy"):
            self.duplicate(name)
        elif name == "solve":
            if self.built or not self.d.has_trails():
                drv.do({"op": "solve"})

    def duplicate(self, name):
        """Go on with a copy of the diagram, or with the original; the other one must never change."""
        drv, r = self.drv, self.rng
        if not self.opts.get("twin"):
            drv.do({"op": name})
            return
        for n in self.nodes()[:2]:
            drv.d.node_attribute(n, "label", r.choice(["a", "b", "c"]))
        for e in list(drv.d.edges())[:2]:
            drv.d.edge_attribute(e, "weight", r.randint(1, 9) / 4.0)
        old = drv.d
        before = everything(old)
        line = drv.do({"op": name})
        extra = []
        if line["ok"] and not line["crash"]:
            extra = [{"name": name + ".everything", "got": text(everything(drv.d)), "want": text(before)},
                     {"name": name + ".original", "got": text(everything(old)), "want": text(before)}]
            line["extra"] = extra
            new = drv.d
            if r.random() < 0.5:
                drv.d, old = old, new
                drv.do({"op": "nop"})
            drv.shadow.append((name, old, text(before)))
        if r.random() < 0.4:
            # a form of this moment, and its copies
            self.form_roundtrip()

    def shadows(self):
        """The diagrams that were left behind have not changed."""
        line = self.drv.do({"op": "nop"})
        ruin(self.drv.d)
        if not line["crash"]:
            line["extra"] = line.get("extra", []) + [
                {"name": name + ".independent", "got": text(everything(d)), "want": before} for name, d, before in self.drv.shadow]

    def solved(self):
        """A form diagram of the current diagram, or None."""
        from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
        if not (self.built and self.d.has_trails()):
            return None
        solver = self.rng.choice([static_equilibrium, static_equilibrium_numpy])
        with quiet():
            return solver(self.d, tmax=1)

    def form_roundtrip(self):
        form = self.solved()
        if form is None:
            return
        want = text(everything(form))
        with quiet():
            other = written(form, self.rng.randrange(4))
            third = copied(form, self.rng.randrange(4))
        extra = [{"name": "form.json", "got": text(everything(other)), "want": want},
                 {"name": "form.copy", "got": text(everything(third)), "want": want}]
        for dup in (other, third):
            for n in list(dup.nodes()):
                dup.node_xyz(n, [9.0, 9.0, 9.0 + n])
                dup.node_attributes(n, ["qx", "rx"], [5.0, 6.0])
            for e in dup.edges():
                dup.edge_attribute(e, "force", 123.0)
        extra.append({"name": "form.independent", "got": text(everything(form)), "want": want})
        line = self.drv.do({"op": "nop"})
        line["extra"] = extra

    def form_lookups(self):
        """A line with the nodes of a form diagram and what is found at old and new places."""
        form = self.solved()
        if form is None:
            return
        digits = int(form.tol[0])

        def cell(x):
            return int(round(float("%.*f" % (digits, x)) * 10 ** digits))

        def found(xyz):
            k = form.node_key(xyz)
            if (k is None) == bool(form.node_exists(xyz)):
                return "'exists-mismatch'"
            return "none" if k is None else nid(k)
        nodes = {nid(n): {"p": [cell(c) for c in form.node_coordinates(n)], "t": "none", "k": -1, "q": [0, 0, 0], "r": [0, 0, 0]} for n in form.nodes()}
        look, seen = [], set()
        for src in (form, self.d):
            for n in src.nodes():
                xyz = src.node_coordinates(n)
                p = tuple(cell(c) for c in xyz)
                if p not in seen:
                    seen.add(p)
                    look.append({"p": list(p), "r": found(xyz)})
        post = dict(self.drv.lines[-1]["post"], nodes=nodes, edges=[], trails={}, aux={}, tolu=1, look=look)
        line = {"tr": self.drv.tr, "first": True, "op": {"op": "form"}, "ok": True, "res": {}, "err": "", "crash": "", "post": post}
        self.side.append(line)

    def note_build(self):
        self.built = self.drv.lines[-1]["ok"]
        if self.opts.get("formlook"):
            self.form_lookups()
        if self.opts.get("formtrip"):
            self.form_roundtrip()
        if self.opts.get("fresh"):
            attach_fresh(self.drv, self.rng)

    def run(self):
        o = self.opts
        if self.rng.random() < o.get("plan", 0.8):
            self.plan()
            if o.get("planned"):      # judge what follows the construction only
                self.drv.lines[:] = [dict(self.drv.lines[-1], first=True, op={"op": "init"})]
            self.step("build")
        names, weights = zip(*sorted(o["weights"].items()))
        for _ in range(o.get("steps", 14)):
            if self.step(self.rng.choices(names, weights)[0]) == "stop":
                return self.drv.lines + self.side
        for name in o.get("last", ["build"]):
            self.step(name)
        if self.drv.shadow:
            self.shadows()
        return self.drv.lines + self.side


def story(args):
    idx, opts = args
    s = Story(idx, opts)
    try:
        return s.run()
    except Exception as e:      # the code under test fails where the driver observes it
        import traceback
        line = dict(s.drv.lines[-1])
        line.update({"first": False, "op": {"op": "nop"}, "ok": True, "res": {}, "crash": "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-600:])})
        line.pop("q", None)
        line.pop("extra", None)
        s.drv.lines.append(line)
        return s.drv.lines


# ------------------------------------------------------------------------------
# judging
# ------------------------------------------------------------------------------

def judge_lines(report, scratch, histories, clauses, name):
    """Judge recorded histories; report the violations of the given clauses."""
    lines = [line for h in histories for line in h]
    slim = []
    for line in lines:
        slim.append({k: line[k] for k in ("first", "op", "ok", "res", "crash", "post", "q", "extra") if k in line})
    res = judge("CemDiagramTrace", slim, scratch, name)
    report.states += res["states"]
    report.transitions += res["transitions"]
    report.traces += len(histories)
    report.steps += len(lines)
    report.notes["trace:" + name] = {"histories": len(histories), "steps": len(lines)}
    if histories and len(report.samples) < 5:
        report.samples.append({"campaign": name, "history": [line["op"] for line in histories[len(histories) // 2]]})
    other = {}
    for at, bad in res["bad"]:
        start = at
        while not lines[start]["first"]:
            start -= 1
        for clause in bad:
            if clauses(clause):
                report.violation(clause, {"campaign": name, "history": [line["op"] for line in lines[start:at + 1]],
                                          "start": lines[start]["post"], "before": lines[max(at - 1, start)]["post"],
                                          "line": {k: v for k, v in lines[at].items() if k != "q"}})
            else:
                other[clause] = other.get(clause, 0) + 1
    if other:
        report.notes["trace:" + name]["clauses of other properties"] = other
    return res


def starts(*prefixes):
    def pred(clause):
        return clause == "crash" or any(clause == p or clause.startswith(p) for p in prefixes)
    return pred
