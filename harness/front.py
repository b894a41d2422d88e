"""The Grasshopper front end with stand-ins for Rhino, judged by CemFront.tla."""
import importlib.util
import inspect
import json
import math
import os
import random
import re
import sys
import tempfile
import types

from common import SEED, fixed, fixed3, judge, pool_map, quiet, run_tlc, tlc_must_pass
from dia import everything, text
from diagrams import U, TopologyDiagram, nid, project
from space import random_structure

import compas
from compas.geometry import Line, Plane, Point, Polyline, Vector

K = 1000
COMPONENTS = "/repo/src/compas_cem/ghpython/components"
_loaded = {}


# ------------------------------------------------------------------------------
# stand-ins
# ------------------------------------------------------------------------------

class Foreign(object):
    """An object of the CAD program."""

    def __init__(self, value):
        self.value = value


def convert(kind):
    class Converter(object):
        @classmethod
        def from_geometry(cls, geometry):
            out = cls()
            out.geometry = geometry
            return out

        def to_compas(self):
            return kind(self.geometry.value)
    return Converter


class Rpc(object):
    """A proxy: everything goes to the other process and back as JSON. Servers live until they are stopped."""
    servers = set()
    moves = []
    served = []

    def __init__(self, package=None, python=None, url="http://127.0.0.1", port=1753, *args, **kwargs):
        self.package = package
        self._port = port
        self._started = port not in Rpc.servers
        if self._started:
            self.start_server()

    @classmethod
    def reset(cls):
        cls.servers, cls.moves, cls.served = set(), [], []

    def __enter__(self):
        return self

    def __exit__(self, *args):
        if self._started:
            self.stop_server()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if self._port not in Rpc.servers:
            raise RuntimeError("the server is not available")
        module = importlib.import_module(self.package)

        def call(*args, **kwargs):
            Rpc.served.append(self._port)
            args, kwargs = compas.json_loads(compas.json_dumps([list(args), kwargs]))
            return compas.json_loads(compas.json_dumps(getattr(module, name)(*args, **kwargs)))
        return call

    def start_server(self):
        Rpc.moves.append(("start", self._port))
        Rpc.servers.add(self._port)

    def stop_server(self):
        Rpc.moves.append(("stop", self._port))
        Rpc.servers.discard(self._port)

    def restart_server(self):
        self.stop_server()
        self.start_server()


def stand_in():
    """Modules that exist only inside Rhino."""
    if "front" in _loaded:
        return
    _loaded["front"] = True

    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        if "." in name:
            setattr(sys.modules[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
        return m
    module("ghpythonlib")
    module("ghpythonlib.componentbase", executingcomponent=type("executingcomponent", (object,), {}))
    module("scriptcontext", sticky={})
    module("rhinoscriptsyntax", AddPoint=lambda *p: ("point",) + tuple(float(c) for c in p), CreateColor=lambda c: tuple(c))
    module("compas_bootstrapper", ENVIRONMENT_NAME="stand-in")
    module("compas_rhino")
    module("compas_rhino.geometry", RhinoPoint=convert(lambda p: Point(*p)), RhinoVector=convert(lambda p: Vector(*p)),
           RhinoLine=convert(lambda p: Line(*p)), RhinoPlane=convert(lambda p: Plane(*p)), RhinoPolyline=convert(lambda p: Polyline(p)))

    class NetworkArtist(object):
        def __init__(self, network=None, *args, **kwargs):
            self.network = network
    module("compas_ghpython", draw_points=lambda xs: [("point", list(x["pos"])) for x in xs],
           draw_lines=lambda xs: [("line", list(x["start"]), list(x["end"])) for x in xs],
           draw_polylines=lambda xs: [("polyline", [list(p) for p in x["points"]]) for x in xs])
    module("compas_ghpython.artists", NetworkArtist=NetworkArtist)
    import compas.rpc
    import compas.rpc.proxy
    compas.rpc.Proxy = compas.rpc.proxy.Proxy = Rpc
    old = compas.is_grasshopper
    compas.is_grasshopper = lambda: True
    try:
        import compas_cem.ghpython  # noqa: F401
    finally:
        compas.is_grasshopper = old


def component(name):
    stand_in()
    if name not in _loaded:
        path = os.path.join(COMPONENTS, "CompasCem_" + name, "code.py")
        spec = importlib.util.spec_from_file_location("front_" + name, path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        base = sys.modules["ghpythonlib.componentbase"].executingcomponent
        cls = [c for c in vars(m).values() if inspect.isclass(c) and issubclass(c, base) and c is not base]
        with open(os.path.join(COMPONENTS, "CompasCem_" + name, "metadata.json")) as f:
            _loaded[name] = (cls[0], json.load(f)["ghpython"])
    return _loaded[name]


def run(name, **inputs):
    """Run a component like Grasshopper does: inputs in their declared order, missing ones are None."""
    cls, meta = component(name)
    names = [p for p in inspect.signature(cls.RunScript).parameters if p != "self"]
    declared = [p["name"] for p in meta["inputParameters"]]
    if len(names) != len(declared):
        raise ValueError("component %s declares %d inputs and takes %d" % (name, len(declared), len(names)))
    args = []
    for p, q in zip(names, declared):
        args.append(inputs.pop(q if q in inputs else p, None))
    if inputs:
        raise KeyError("component %s has no input %s" % (name, sorted(inputs)))
    with quiet():
        out = cls().RunScript(*args)
    n = len(meta.get("outputParameters", []))
    if out is not None and n > 1 and len(out) != n:
        raise ValueError("component %s declares %d outputs and returns %d" % (name, n, len(out)))
    return out


# ------------------------------------------------------------------------------
# canvases of the model
# ------------------------------------------------------------------------------

def model(report, scratch, steps, emit=True):
    res = run_tlc("CemFrontMC.tla", "CemFrontMC.cfg", scratch, constants={"EMIT": "TRUE" if emit else "FALSE", "MAXSTEPS": str(steps)})
    tlc_must_pass(res, "CemFrontMC")
    report.model(res, "CemFrontMC")
    out = res["lines"]
    out.sort(key=str)
    return out


def xyz(p):
    return [c / U for c in p]


def elements(plan, rng):
    """The elements that components make of geometry."""
    def edges(kind, rows):
        out = []
        for e in rows:
            line = Foreign([xyz(e["a"]), xyz(e["b"])])
            if kind == "trail":
                pl = Foreign([xyz(e["pl"][:3]), xyz(e["pl"][3:])]) if e["pl"] else None
                out.append(run("EdgeTrail", line=line, length=e["val"] / U, plane=pl))
            else:
                out.append(run("EdgeDeviation", line=line, force=e["val"] / U))
        return pad(out, rng)
    loads = pad([run("NodeLoad", point=Foreign(xyz(x["p"])), vector=Foreign(xyz(x["q"]))) for x in plan["loads"]], rng)
    supports = pad([run("NodeSupport", point=Foreign(xyz(p))) for p in plan["supports"]], rng)
    return edges("trail", plan["trail"]), edges("deviation", plan["dev"]), loads, supports


def pad(xs, rng):
    """Empty items in lists with something in them."""
    if not xs:
        return rng.choice([None, []])
    xs = list(xs)
    while rng.random() < 0.25:
        xs.insert(rng.randint(0, len(xs)), None)
    return xs


def clear(c):
    """A coordinate that is not in the middle between two cells of the registry."""
    return c + 3 if c % 10 in (4, 5, 6) else c


def is_clear(p):
    return all(c % 10 not in (4, 5, 6) for c in p)


def random_plan(rng):
    s = random_structure(rng, trails=(1, 4), length=(2, 4), devs=(0, 5), planes=0.15, loads=0.5)
    ps = [[clear(c) for c in fixed3(n["xyz"])] for n in s["nodes"]]
    jitter = rng.random() < 0.3

    def at(i):
        p = list(ps[i])
        if jitter:      # within the tolerance of 10 units
            p = [10 * ((c + 5) // 10) + rng.randint(-3, 3) for c in p]
        return p

    def edge(e):
        a, b = (e["a"], e["b"]) if rng.random() < 0.5 else (e["b"], e["a"])
        pl = fixed3(e["plane"][0]) + rng.choice([[10000, 0, 0], [0, -10000, 0], [0, 0, 10000], [6000, -8000, 0], [0, 6000, 8000]]) if e["plane"] else []
        return {"a": at(a), "b": at(b), "val": fixed(e["val"]), "pl": pl}
    trail = [edge(e) for e in s["edges"] if e["t"] == "trail"]
    dev = [edge(e) for e in s["edges"] if e["t"] == "deviation"]
    supports = [at(t[-1]) for t in s["trails"]]
    loads = [{"p": at(i), "q": fixed3(n["q"])} for i, n in enumerate(s["nodes"]) if any(n["q"])]
    aux = rng.random() < 0.4
    r = rng.random()
    if r < 0.08:
        supports.pop()
    elif r < 0.16:
        supports.append(at(rng.randrange(len(ps))))
    elif r < 0.24:
        supports = []
    elif r < 0.32:
        trail = []
        loads = [x for x in loads if any(max(abs(a - b) for a, b in zip(x["p"], e[k])) <= 6 for e in dev for k in "ab")]
        if rng.random() < 0.7:
            supports = []
    elif r < 0.4:
        loads.append({"p": [77 * 10000, 0, 0], "q": [0, 0, 1000]})
    elif r < 0.46 and loads:
        loads.append({"p": loads[0]["p"], "q": [5000, 0, -10000]})
    elif r < 0.6:
        free = [50000 + 20 * rng.randint(0, 999), 0, 0]
        dev.append({"a": at(0), "b": free, "val": 3000, "pl": []})
    for xs in (trail, dev, loads, supports):
        rng.shuffle(xs)
    return {"c": "assemble", "trail": trail, "dev": dev, "loads": loads, "supports": supports, "aux": aux}


def probes_of(plan, extra=()):
    pts = [e[k] for e in plan["trail"] + plan["dev"] for k in "ab"] + [list(p) for p in extra]
    out = []
    for p in pts:
        if p not in out:
            out.append(list(p))
    return out


def projected(d, probes):
    here = [fixed3(d.node_coordinates(n)) for n in d.nodes()]
    return project(d, probes + [p for p in here if p not in probes and is_clear(p)])


class Canvas(object):
    def __init__(self, rng, plan, points=()):
        self.rng, self.plan = rng, plan
        self.probes = probes_of(plan, points)
        self.wires, self.lines = [], []

    def record(self, c, ok, extra=()):
        line = {"kind": "step", "first": c["c"] == "assemble", "c": c, "ok": ok, "crash": "", "extra": list(extra)}
        try:
            line["wires"] = [projected(d, self.probes) for d in self.wires]
            line["blank"] = project(TopologyDiagram(), [])
        except Exception as e:
            line["crash"] = "%s: %s" % (type(e).__name__, e)
        self.lines.append(line)
        return line

    def assemble(self):
        rng, plan = self.rng, self.plan
        extra = []
        try:
            trail, dev, loads, supports = elements(plan, rng)
        except Exception as e:
            line = self.record(plan, False)
            line["crash"] = "%s: %s" % (type(e).__name__, e)
            return False
        extra += element_values(plan, trail, dev, loads, supports)
        ok = True
        try:
            d = run("TopologyDiagram", trail_edges=trail, deviation_edges=dev, loads=loads, supports=supports,
                    add_auxiliary_trails=plan["aux"] if plan["aux"] or rng.random() < 0.5 else None)
            self.wires.append(d)
        except Exception:
            ok = False
        self.record(plan, ok, extra)
        return ok and not self.lines[-1]["crash"]

    def step(self, c):
        """c as in the specification; keys are node keys here."""
        rng = self.rng
        d = self.wires[c["w"] - 1]
        said = dict(c)
        extra, ok, new = [], True, None
        if "keys" in c:
            said["keys"] = [nid(k) for k in c["keys"]]
        kinds = rng.choice([list, tuple])
        try:
            if c["c"] == "shift":
                new = run("TrailsShift", topology=d, origin_node_keys=kinds(c["keys"]), sequences=kinds(c["seqs"]))
            elif c["c"] == "moveOrigins":
                new = run("OriginNodesMove", topology=d, origin_node_keys=kinds(c["keys"]), points=kinds(Foreign(xyz(p)) for p in c["ps"]))
            elif c["c"] == "json":
                with tempfile.TemporaryDirectory(prefix="cemfront-") as folder:
                    path = os.path.join(folder, "d.json")
                    run("JSONExportDiagram", diagram=d, filepath=path)
                    new = run("JSONImportTopology", filepath=path)
            elif c["c"] == "show":
                extra = show(d, rng)
            elif c["c"] == "solve":
                extra = solve(d, rng)
        except Exception as e:
            ok = False
            if c["c"] in ("show", "solve"):
                said["why"] = "%s: %s" % (type(e).__name__, e)
        if new is not None:
            self.wires.append(new)
        return self.record(said, ok, extra)


def agree(name, got, want, tol=None):
    x = {"name": name, "got": got, "want": want}
    if tol is not None:
        x["tol"] = tol
    return x


NUMBER = re.compile(r"-?\d+\.\d+(?:[eE][-+]?\d+)?|-?\d+[eE][-+]?\d+")


def rounded_alike(got, want, tol=1e-7):
    """got, or want if the two differ in nothing but rounding (plane normals are normalized on every trip through JSON)."""
    if got == want or NUMBER.sub("#", got) != NUMBER.sub("#", want):
        return got
    pairs = zip(NUMBER.findall(got), NUMBER.findall(want))
    if all(abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b))) for a, b in pairs):
        return want
    return got


def element_values(plan, trail, dev, loads, supports):
    """The elements carry what they were given."""
    def some(xs):
        return [x for x in xs or [] if x is not None]
    got, want = [], []
    for kind, rows, made in (("length", plan["trail"], some(trail)), ("force", plan["dev"], some(dev))):
        for e, x in zip(rows, made):
            got.append([fixed3(x.u), fixed3(x.v), fixed(x.attributes[kind])])
            want.append([e["a"], e["b"], e["val"]])
    for x, made in zip(plan["loads"], some(loads)):
        got.append([fixed3(made.xyz), fixed3(made.vector)])
        want.append([x["p"], x["q"]])
    for p, made in zip(plan["supports"], some(supports)):
        got.append(fixed3(made.xyz))
        want.append(p)
    return [agree("elements", text(got), text(want))]


def show(d, rng):
    """Disassembling and searching."""
    node_keys, origins, supports, edges, trail_edges, dev_edges, sequences, trails, aux = run("DisassembleTopology", topology=d)
    P = project(d, [])
    def ids(xs):
        return sorted(nid(x) for x in xs)
    def pairs(xs):
        return sorted([nid(u), nid(v)] for u, v in xs)
    out = [agree("disassemble.nodes", text([ids(node_keys), ids(origins), ids(supports)]),
                 text([sorted(P["nodes"]), sorted(n for n, x in P["nodes"].items() if x["t"] == "_origin"),
                       sorted(n for n, x in P["nodes"].items() if x["t"] == "support")])),
           agree("disassemble.edges", text([pairs(edges), pairs(trail_edges), pairs(dev_edges)]),
                 text([sorted([e["u"], e["v"]] for e in P["edges"] if e["t"] in t) for t in (("trail", "deviation"), ("trail",), ("deviation",))])),
           agree("disassemble.trails", text([sorted([nid(n) for n in t] for t in trails), sorted([nid(n) for n in t] for t in aux)]),
                 text([sorted(P["trails"].values()), sorted(P["aux"].values())])),
           agree("disassemble.sequences", text([sorted(nid(n) for n in s) for s in sequences]),
                 text([sorted(n for n, x in P["nodes"].items() if x["k"] == k) for k in range(1 + max(x["k"] for x in P["nodes"].values()))]))]
    places = {tuple(x["p"]): n for n, x in P["nodes"].items()}
    if len(places) == len(P["nodes"]) and all(is_clear(p) for p in places):
        found, edge_found = [], []
        for p in places:
            found.append([list(p), nid(run("SearchNodeKey", diagram=d, point=Foreign(xyz(p))))])
        for e in P["edges"]:
            key = run("SearchEdgeKey", diagram=d, line=Foreign([xyz(P["nodes"][e["u"]]["p"]), xyz(P["nodes"][e["v"]]["p"])]))[0]
            edge_found.append([nid(k) for k in key])
        out.append(agree("search.nodes", text(found), text([[list(p), n] for p, n in places.items()])))
        out.append(agree("search.edges", text(edge_found), text([[e["u"], e["v"]] for e in P["edges"]])))
        out.append(agree("search.gone", text(searched_gone(d, rng)), text(["nothing", "nothing"])))
    return out


def searched_gone(d, rng):
    """What is found where a node was deleted, or coordinates were overwritten."""
    other = d.copy()
    gone = rng.choice(list(other.nodes()))
    rest = [n for n in other.nodes() if n != gone]
    here, there = [[float(c) for c in other.node_coordinates(n)] for n in (gone, rng.choice(rest))]
    if rng.random() < 0.5:
        other.delete_node(gone)
    else:
        other.node_attributes(gone, "xyz", [c + 50.0 for c in here])
    got = []
    for name, kw in (("SearchNodeKey", {"point": Foreign(here)}), ("SearchEdgeKey", {"line": Foreign([here, there] if rng.random() < 0.5 else [there, here])})):
        try:
            key = run(name, diagram=other, **kw)
            got.append("nothing" if key is None else str(key))
        except (KeyError, ValueError):
            got.append("nothing")
    return got


def solve(d, rng):
    """Form finding and its results, against the library."""
    from compas_cem.equilibrium import static_equilibrium
    kmax = rng.choice([None, None, 1])
    tmax, eta = rng.choice([None, 40]), rng.choice([None, 1e-4])
    try:
        with quiet():
            want = static_equilibrium(d.copy(), kmax=kmax, tmax=tmax or 100, eta=eta or 1e-6)
    except ValueError:
        want = None
    try:
        form = run("FormFinding", topology=d, kmax=kmax, tmax=tmax, eta=eta)
    except ValueError:
        form = None
    out = [agree("form", text(form and everything(form)), text(want and everything(want)))]
    if form is None or want is None:
        return out
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "form.json")
        data = run("JSONExportDiagram", diagram=form, filepath=path)
        out.append(agree("json.data", rounded_alike(text(plain_data(data)), text(plain_data(want.data))), text(plain_data(want.data))))
        out.append(agree("json.form", rounded_alike(text(everything(run("JSONImportForm", filepath=path))), text(everything(want))), text(everything(want))))
    edges = list(want.edges())
    sel = rng.choice([None, rng.sample(edges, rng.randint(1, len(edges)))])
    lengths, forces = run("ResultsEdges", form=form, edge_keys=sel)
    out.append(agree("results.edges", [fixed(x) for x in list(lengths) + list(forces)],
                     [fixed(want.edge_length_2(e)) for e in sel or edges] + [fixed(want.edge_force(e)) for e in sel or edges], 2))
    sups = list(want.support_nodes())
    pick = rng.choice([None, rng.sample(sups, rng.randint(1, len(sups)))])
    got = run("ResultsSupportNodes", form=form, support_node_keys=pick)
    out.append(agree("results.reactions", [fixed(c) for p in got for c in p[1:]], [fixed(c) for n in pick or sups for c in want.reaction_force(n)], 2))
    nodes, supports, edge_keys = run("DisassembleForm", form=form)
    out.append(agree("disassemble.form", text([sorted(map(nid, nodes)), sorted(map(nid, supports)), sorted([nid(u), nid(v)] for u, v in edge_keys)]),
                     text([sorted(map(nid, want.nodes())), sorted(map(nid, sups)), sorted([nid(u), nid(v)] for u, v in edges)])))
    places = {tuple(fixed3(want.node_coordinates(n))): n for n in want.nodes()}
    apart = all(max(abs(a - b) for a, b in zip(p, q)) > 40 for i, p in enumerate(places) for q in list(places)[i + 1:])
    if len(places) == want.number_of_nodes() and apart:
        # well inside their cells, where rounding does not matter
        clear = [n for n in want.nodes() if all(abs(c * 1000 - math.floor(c * 1000) - 0.5) > 0.02 for c in want.node_coordinates(n))]
        out.append(agree("search.form", text([nid(run("SearchNodeKey", diagram=form, point=Foreign([float(c) for c in want.node_coordinates(n)]))) for n in clear]),
                         text([nid(n) for n in clear])))
    return out


def replay(args):
    idx, h = args
    rng = random.Random(SEED * 15485863 + idx)
    plan = h["plan"]
    cv = Canvas(rng, plan, [p for s in h["steps"] for p in s.get("ps", [])])
    if not cv.assemble():
        return cv.lines
    d = cv.wires[0]
    order = {}
    for name, p in (("0", [0, 1]), ("1", [0, 2]), ("2", [0, 3]), ("3", [1, 1]), ("4", [1, 2])):
        order[name] = d.node_key([float(p[0]), float(p[1]), 0.0])
    for s in h["steps"]:
        c = dict(s)
        if "keys" in c:
            c["keys"] = [order[k] for k in c["keys"]]
        cv.step(c)
    return cv.lines


def random_canvas(args):
    idx, _ = args
    rng = random.Random(SEED * 49979687 + idx)
    cv = Canvas(rng, random_plan(rng))
    if not cv.assemble() or not cv.wires[0].has_trails():
        return cv.lines
    for _ in range(rng.randint(1, 5)):
        w = rng.randint(1, len(cv.wires))
        d = cv.wires[w - 1]
        origins = list(d.origin_nodes())
        keys = rng.sample(origins, rng.randint(1, len(origins)))
        kind = rng.choice(["shift", "moveOrigins", "json", "show", "solve", "solve"])
        c = {"c": kind, "w": w}
        if kind == "shift":
            if rng.random() < 0.15:
                keys.append(rng.choice(list(d.nodes())))
            c.update(keys=keys, seqs=[rng.randint(0, 3) for _ in range(rng.randint(1, len(keys) + 1))])
        elif kind == "moveOrigins":
            ps = [[rng.randint(-40000, 40000) for _ in range(3)] for _ in range(len(keys) + rng.randint(0, 1))]
            c.update(keys=keys, ps=[[10 * (x // 10) for x in p] for p in ps])
        cv.step(c)
    return cv.lines


# ------------------------------------------------------------------------------
# artists
# ------------------------------------------------------------------------------

def forces_at(d):
    out = {}
    for n in d.nodes():
        q, r = [float(c) for c in d.node_load(n)], [float(c) for c in d.reaction_force(n)]
        fs = [float(d.edge_force(e)) for e in d.edges() if n in e] or [0.0]
        top = max(abs(f) for f in fs)
        signs = {(f > 0) - (f < 0) for f in fs if abs(f) > top - 1e-6}
        out[nid(n)] = {"q": fixed3(q, K), "ql": fixed(math.hypot(*q), K), "r": fixed3(r, K), "rl": fixed(math.hypot(*r), K),
                       "strong": signs.pop() if len(signs) == 1 else 0}
    return out


def form_state(form):
    """A form diagram in the vocabulary of topology diagrams."""
    nodes = {nid(n): {"p": fixed3(form.node_coordinates(n)), "t": str(form.node_attribute(n, "type") or "none"), "k": -1, "q": [0, 0, 0], "r": [0, 0, 0]}
             for n in form.nodes()}
    edges = [{"u": nid(u), "v": nid(v), "t": str(form.edge_attribute((u, v), "type")), "len": 0, "f": 0, "pl": []} for u, v in form.edges()]
    return {"nodes": nodes, "edges": edges, "trails": {}, "aux": {}, "al": 0, "av": [0, 0, 0], "tolu": 10, "look": []}


def points(xs):
    return [fixed3(x[1]) for x in xs or []]


def segments(xs, unit=10000):
    return [[fixed3(x[1], unit), fixed3(x[2], unit)] for x in xs or []]


def arrows(xs):
    return [{"a": a, "b": b} for a, b in segments(xs, K)]


def draw(args):
    from space import realise
    from compas_cem.equilibrium import static_equilibrium
    idx, inst = args
    rng = random.Random(SEED * 67867967 + idx)
    line = {"kind": "draw", "first": True, "crash": "", "extra": []}
    try:
        stand_in()
        while True:
            s = random_structure(rng, trails=(1, 3), length=(2, 4), devs=(0, rng.choice([4, 8])), loads=0.7)
            d, keys = realise(s, rng)
            if rng.random() < 0.2 and inst["what"] == "topology":
                d2 = TopologyDiagram()
                d2.data = d.data
                d = d2
            if inst["what"] == "form":
                try:
                    with quiet():
                        d = static_equilibrium(d)
                except ValueError:
                    continue
                if rng.random() < 0.5:
                    # what is drawn is what the diagram holds
                    sign = rng.choice([-1.0, 1.0])
                    for e in d.edges():
                        d.edge_attribute(e, "force", sign * (2.5 if rng.random() < 0.3 else -1.75) * rng.choice([1.0, 1.0, 0.875]))
                    for n in d.nodes():
                        if rng.random() < 0.5:
                            d.node_attributes(n, ["rx", "ry", "rz"], [float(rng.randint(-3, 3)) for _ in range(3)])
            F = forces_at(d)
            if max([abs(c) for n in d.nodes() for c in d.node_coordinates(n)] + [x["rl"] / K for x in F.values()]) > 20:
                continue
            ls = [x["ql"] for x in F.values()] + [x["rl"] for x in F.values()]
            least = rng.choice([1, 1, 300, 1000])
            if all(abs(x - least) > 2 or x == 0 for x in ls):
                break
        nodes, edges = list(d.nodes()), list(d.edges())
        nall, eall = rng.random() < 0.5, rng.random() < 0.5
        nsel = nodes if nall else rng.sample(nodes, rng.randint(1, max(1, len(nodes) // 2)))
        esel = edges if eall else rng.sample(edges, rng.randint(1, len(edges)))
        if not nall and rng.random() < 0.3:
            nsel = [n for n in nodes if not d.is_node_support(n)][:3] or nsel
        scale, gap = rng.choice([1.0, 0.5, 2.0]), 0.0
        before = text(everything(d))
        nk, ek = None if nall else list(nsel), None if eall else list(esel)
        kind = "Topology" if inst["what"] == "topology" else "Form"
        if rng.random() < 0.5:
            name = "topology" if kind == "Topology" else "form"
            res = run("Artist" + kind, node_keys=nk, edge_keys=ek, force_min=None if least == 1 and rng.random() < 0.5 else least / K,
                      force_scale=None if scale == 1.0 and rng.random() < 0.5 else scale, **{name: d})
            names = [p["name"] for p in component("Artist" + kind)[1]["outputParameters"]]
            got = dict(zip(names, res))
        else:
            import compas_cem.ghpython as gh
            artist = (gh.TopologyArtist if kind == "Topology" else gh.FormArtist)(d)
            gap = rng.choice([0.0, 0.25, 1.0])
            got = {"nodes": artist.draw_nodes(nk), "support_nodes": artist.draw_nodes_support(nk), "edges": artist.draw_edges(ek),
                   "loads": artist.draw_loads(nk, scale=scale, gap=gap, min_load=least / K)}
            if kind == "Form":
                got["reactions"] = artist.draw_reactions(nk, scale=scale, gap=gap, min_force=least / K)
            else:
                got.update(origin_nodes=artist.draw_nodes_origin(nk), trail_edges=artist.draw_edges_trail(ek),
                           deviation_edges=artist.draw_edges_deviation(ek), trails=artist.draw_trails())
        out = {"nodes": points(got["nodes"]), "supports": points(got["support_nodes"]), "edges": segments(got["edges"]), "loads": arrows(got["loads"])}
        if kind == "Form":
            out["reactions"] = arrows(got["reactions"])
        else:
            out.update(origins=points(got["origin_nodes"]), trailedges=segments(got["trail_edges"]), deviationedges=segments(got["deviation_edges"]),
                       trails=[[fixed3(p) for p in x[1]] for x in got["trails"] or []])
        line.update(S=form_state(d) if kind == "Form" else project(d, []), F=F, all=nall, eall=eall, nsel=[nid(n) for n in nsel],
                    esel=[[nid(u), nid(v)] for u, v in esel], scale=fixed(scale, K), gap=fixed(gap, K), least=least, out=out,
                    same=text(everything(d)) == before)
    except Exception as e:
        import traceback
        line["crash"] = "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-400:])
    return line


# ------------------------------------------------------------------------------
# goals, parameters, optimization, missing input
# ------------------------------------------------------------------------------

GOALS = {"point": ("ConstraintNodePoint", "node_key", "point"), "line": ("ConstraintNodeLine", "node_key", "line"),
         "plane": ("ConstraintNodePlane", "node_key", "plane"), "polyline": ("ConstraintNodePolyline", "node_key", "polyline"),
         "length": ("ConstraintDeviationEdgeLength", "edge_key", "length"), "force": ("ConstraintTrailEdgeForce", "edge_key", "force"),
         "reaction": ("ConstraintReactionForce", "node_key", "vector"), "direction": ("ConstraintEdgeDirection", "edge_key", "vector")}


def goal_component(g, rng):
    kind, key, t, w = g
    name, k, target = GOALS[kind]
    value = t if kind in ("length", "force") else Foreign(t)
    return run(name, **{k: key, target: value, "weight": None if w == 1.0 and rng.random() < 0.5 else w})


def par_component(p):
    kind, key, c, low, up = p
    name = {"length": "ParameterTrailEdge", "force": "ParameterDeviationEdge", "origin": "ParameterNodeOrigin%s" % "XYZ"[c], "load": "ParameterNodeLoad%s" % "XYZ"[c]}[kind]
    return run(name, bound_low=low, bound_up=up, **{"edge_key" if kind in ("length", "force") else "node_key": key})


def record_of(x):
    return text([type(x).__name__, {k: plain_data(v) for k, v in x.data.items()}])


def plain_data(v):
    from dia import plain
    return plain(getattr(v, "data", v))


def search(args):
    """Goals and parameters made by components, and the optimization component against the library."""
    from opt import make_goal, make_par, random_problem, start
    from compas_cem.optimization import solve_proxy
    idx, _ = args
    rng = random.Random(SEED * 86028121 + idx)
    line = {"kind": "agree", "first": True, "crash": "", "extra": []}
    try:
        stand_in()
        got = None
        while got is None:
            got = start(rng, {})
        d = got[1]
        pars, goals = random_problem(rng, d, {"pars": 4, "goals": 3})
        made_p, made_g = [par_component(p) for p in pars], [goal_component(g, rng) for g in goals]
        want_p, want_g = [make_par(p) for p in pars], [make_goal(g) for g in goals]
        line["extra"].append(agree("parameters", [record_of(x) for x in made_p], [record_of(x) for x in want_p]))
        line["extra"].append(agree("goals", [record_of(x) for x in made_g], [record_of(x) for x in want_g]))
        before = text(everything(d))
        iters = rng.randint(2, 6)
        algorithm = rng.choice([None, "SLSQP", "MMA", "LBFGS"])
        eps, kappa, tmax, eta = rng.choice([None, 1e-5]), rng.choice([None, 1e-7]), rng.choice([None, 60]), rng.choice([None, 1e-5])
        results = []
        for way in ("component", "library"):
            try:
                with quiet():
                    if way == "component":
                        sticky = sys.modules["scriptcontext"].sticky
                        sticky.clear()
                        if rng.random() < 0.5:
                            run("Proxy", start=True)
                        res = run("ConstrainedFormFinding", solve=True, topology=d, constraints=pad(made_g, rng), parameters=pad(made_p, rng),
                                  algorithm=algorithm, iters_max=iters, eps=eps, kappa=kappa, tmax=tmax, eta=eta)
                    else:
                        c = compas.json_loads(compas.json_dumps({"topology": d.copy(), "constraints": want_g, "parameters": want_p}))
                        res = solve_proxy(algorithm=algorithm or "SLSQP", iters=iters, eps=eps or 1e-6, kappa=kappa or 1e-8, tmax=tmax or 100, eta=eta or 1e-6, **c)
                topology, form, objective, grad, evals, time, status = res
                results.append([text(everything(topology)), text(everything(form)), repr(float(objective)), int(evals), str(status)])
            except Exception as e:
                results.append(["refused", type(e).__name__])
        line["extra"].append(agree("optimization", rounded_alike(text(results[0]), text(results[1])), text(results[1])))
        line["extra"].append(agree("optimization.input", text(everything(d)), before))
        line["extra"] += missing(d, rng)
    except Exception as e:
        import traceback
        line["crash"] = "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-400:])
    return line


COLOURS = ["tension", "compression", "edge", "node", "node_support", "node_origin", "load", "support_force", "trail", "auxiliary_trail"]


def fittings(args):
    """What takes no input: colours, information, the artists of diagrams."""
    idx, _ = args
    line = {"kind": "agree", "first": True, "crash": "", "extra": []}
    try:
        stand_in()
        import compas_cem
        from compas.artists import Artist
        from compas_cem.diagrams import FormDiagram
        from compas_cem.ghpython.artists import FormArtist, TopologyArtist
        line["extra"].append(agree("colours", text([list(c) for c in run("ArtistColors")]), text([list(compas_cem.COLORS[k]) for k in COLOURS])))
        line["extra"].append(agree("info", str(compas_cem.__version__ in run("Info")), "True"))
        got, old = [], Artist.register
        Artist.register = staticmethod(lambda item_type, artist_type, context=None, **kw: got.append([item_type.__name__, artist_type.__name__, str(context)]))
        try:
            from compas_cem.ghpython.register import register_artists
            register_artists()
        finally:
            Artist.register = old
        line["extra"].append(agree("register", text(sorted(got)), text(sorted([[TopologyDiagram.__name__, TopologyArtist.__name__, "Grasshopper"],
                                                                              [FormDiagram.__name__, FormArtist.__name__, "Grasshopper"]]))))
    except Exception as e:
        import traceback
        line["crash"] = "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-400:])
    return line


def missing(d, rng):
    """Components without mandatory input deliver nothing."""
    point, line = Foreign([0.0, 0.0, 0.0]), Foreign([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0]])
    plane, polyline = Foreign([[0.0, 0.0, 0.0], [0.0, 0.0, 1.0]]), Foreign([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0]])
    cases = [("EdgeTrail", {"line": line, "length": 1.0}), ("EdgeDeviation", {"line": line, "force": 1.0}), ("NodeLoad", {"point": point, "vector": point}),
             ("NodeSupport", {"point": point}), ("FormFinding", {"topology": d}), ("TrailsShift", {"topology": d, "origin_node_keys": [0], "sequences": [1]}),
             ("OriginNodesMove", {"topology": d, "origin_node_keys": [0], "points": [point]}), ("SearchNodeKey", {"diagram": d, "point": point}),
             ("SearchEdgeKey", {"diagram": d, "line": line}), ("DisassembleTopology", {"topology": d}), ("DisassembleForm", {"form": d}),
             ("ResultsEdges", {"form": d}), ("ResultsSupportNodes", {"form": d}), ("ArtistTopology", {"topology": d}), ("ArtistForm", {"form": d}),
             ("ConstraintNodePoint", {"node_key": 0, "point": point}), ("ConstraintNodeLine", {"node_key": 0, "line": line}),
             ("ConstraintNodePlane", {"node_key": 0, "plane": plane}), ("ConstraintNodePolyline", {"node_key": 0, "polyline": polyline}),
             ("ConstraintDeviationEdgeLength", {"edge_key": (0, 1), "length": 1.0}), ("ConstraintTrailEdgeForce", {"edge_key": (0, 1), "force": 1.0}),
             ("ConstraintReactionForce", {"node_key": 0, "vector": point}), ("ConstraintEdgeDirection", {"edge_key": (0, 1), "vector": point}),
             ("ParameterTrailEdge", {"edge_key": (0, 1)}), ("ParameterDeviationEdge", {"edge_key": (0, 1)}), ("ParameterNodeLoadX", {"node_key": 0}),
             ("ParameterNodeLoadY", {"node_key": 0}), ("ParameterNodeLoadZ", {"node_key": 0}), ("ParameterNodeOriginX", {"node_key": 0}),
             ("ParameterNodeOriginY", {"node_key": 0}), ("ParameterNodeOriginZ", {"node_key": 0}), ("JSONImportTopology", {"filepath": "x"}),
             ("JSONImportForm", {"filepath": "x"}), ("JSONExportDiagram", {"diagram": d, "filepath": "x"}),
             ("ConstrainedFormFinding", {"solve": True, "topology": d, "constraints": [1], "parameters": [1]})]
    name, inputs = rng.choice(cases)
    inputs = dict(inputs)
    gone = rng.choice(sorted(inputs))
    inputs[gone] = None
    return [agree("missing", repr(run(name, **inputs)), "None")]


# ------------------------------------------------------------------------------
# judging
# ------------------------------------------------------------------------------

def judge_canvases(report, scratch, func, items, clauses, name):
    histories = [h if isinstance(h, list) else [h] for h in pool_map(func, list(enumerate(items)))]
    lines = [line for h in histories for line in h]
    res = judge("CemFrontTrace", lines, scratch, name)
    report.states += res["states"]
    report.transitions += res["transitions"]
    report.traces += len(histories)
    report.steps += len(lines)
    report.notes["trace:" + name] = {"histories": len(histories), "steps": len(lines)}
    if histories and len(report.samples) < 5:
        mid = histories[len(histories) // 2]
        report.samples.append({"campaign": name, "steps": [line.get("c", {"what": "drawing"}) for line in mid][:3]})
    for at, bad in res["bad"]:
        for clause in bad:
            if clauses(clause):
                report.violation(clause, {"campaign": name, "line": lines[at]})
    return lines
