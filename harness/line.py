"""Instances of Cem1D.tla in the real form-finding functions."""
import json
import random

from common import SEED, fixed, judge, pool_map, quiet, run_tlc, tier, tlc_must_pass
from diagrams import KeyMap, TopologyDiagram, np, pick_keys
from diagrams import Node, TrailEdge, DeviationEdge, NodeLoad, NodeSupport, Plane
from dia import everything, stored, text

U = 1000000
AXES = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]


# ------------------------------------------------------------------------------
# instances
# ------------------------------------------------------------------------------

def random_instance(rng, shifts=True, planes=True, indirect=True, kmax=True, nonzero=False, maxtrails=4, maxlen=4):
    lens = [rng.randint(2, maxlen) for _ in range(rng.randint(1, maxtrails))]
    n = sum(lens)
    trails, i = [], 1
    for m in lens:
        trails.append({"n": list(range(i, i + m)), "s": rng.choice([0, 0, 0, 1, 2]) if shifts and rng.random() < 0.6 else 0})
        i += m
    k = {}
    for t in trails:
        for j, node in enumerate(t["n"]):
            k[node] = t["s"] + j
    klast = max(k.values())
    consecutive = {frozenset(p) for t in trails for p in zip(t["n"], t["n"][1:])}
    dev, used = [], set()
    for _ in range(rng.randint(0, 6)):
        a, b = rng.sample(range(1, n + 1), 2)
        if frozenset((a, b)) in consecutive | used:
            continue
        if not indirect and k[a] != k[b]:
            continue
        used.add(frozenset((a, b)))
        dev.append({"a": a, "b": b, "f": rng.choice([-2, -1, 1, 2] if nonzero else [-2, -1, 0, 1, 2])})
    pl = []
    for _ in range(n):
        if planes and rng.random() < 0.2:
            pl.append(["at", rng.randint(-6, 6)] if rng.random() < 0.75 else ["never", 0])
        else:
            pl.append([])
    return {"x": [rng.randint(-5, 5) for _ in range(n)],
            "q": [rng.choice([-2, -1, 0, 0, 0, 1, 2]) for _ in range(n)],
            "trails": trails, "len": [rng.choice([-3, -2, -1, 1, 2, 3]) for _ in range(n)], "pl": pl, "dev": dev,
            "kmax": rng.choice([0, 1, 2, klast, klast + 1]) if kmax and rng.random() < 0.35 else -1,
            "tmax": rng.choice([1, 1, 2, 2, 3, 4, 6, 9]), "eta2": rng.choice([0, 1, 1, 1, 2, 3, 5, 9, 21, 400])}


def model_instances(report, scratch, family, emit=True):
    res = run_tlc("Cem1DMC.tla", tier("Cem1DMC.cfg", "Cem1DLive.cfg"), scratch, constants={"FAMILY": '"%s"' % family, "EMIT": "TRUE" if emit else "FALSE"})
    tlc_must_pass(res, "Cem1DMC " + family)
    report.model(res, "Cem1DMC:" + family)
    insts = [line["inst"] for line in res["lines"]]
    insts.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return insts


# ------------------------------------------------------------------------------
# embedding
# ------------------------------------------------------------------------------

class Embedding(object):
    def __init__(self, rng, exact):
        self.rng = rng
        self.exact = exact
        # units of lengths and forces; powers of two keep the arithmetic exact
        self.size = self.strength = 1.0
        if rng.random() < 0.5:
            self.size = 2.0 ** rng.choice([-30, -10, -3, -1, 1, 4, 12, 30])
            self.strength = 2.0 ** rng.choice([-45, -20, -12, -3, 1, 5, 14, 40])
        if exact:
            self.d = np.array(rng.choice(AXES), dtype=float)
            self.o = np.array([float(rng.randint(-3, 3)) for _ in range(3)])
        else:
            v = np.array([rng.gauss(0, 1) for _ in range(3)])
            self.d = v / np.linalg.norm(v)
            self.o = np.array([rng.uniform(-4, 4) for _ in range(3)])
            self.size *= rng.choice([1.0, rng.uniform(0.5, 2.0)])
            self.strength *= rng.choice([1.0, rng.uniform(0.5, 2.0)])
        # numbers given as integers instead of floats
        self.whole = exact and self.size >= 1.0 and self.strength >= 1.0 and rng.random() < 0.2

    def number(self, x):
        return int(x) if self.whole else float(x)

    def point(self, x):
        return [self.number(c) for c in self.size * (self.o + x * self.d)]

    def vector(self, f):
        return [self.number(c) for c in self.strength * f * self.d]

    def length(self, x):
        return self.number(self.size * x)

    def force(self, x):
        return self.number(self.strength * x)

    def plane(self, pl):
        rng = self.rng
        if self.exact:
            n = np.array([float(rng.randint(-2, 2)) for _ in range(3)])
            along = float(np.dot(n, self.d))
            n = n - along * self.d
            if pl[0] == "at":
                n = n + rng.choice([-2, -1, 1, 2]) * self.d
            elif not n.any():
                n = np.array([abs(c) for c in np.roll(self.d, 1)])
        else:
            n = np.array([rng.gauss(0, 1) for _ in range(3)])
            n = n - np.dot(n, self.d) * self.d
            if pl[0] == "at":
                n = n + rng.choice([-1, 1]) * rng.uniform(0.5, 2.0) * self.d
        origin = self.o + (pl[1] if pl[0] == "at" else rng.randint(-3, 3)) * self.d
        if pl[0] == "at":
            # any other point of the plane serves as well
            w = np.cross(n, [1.0, 2.0, -1.0])
            if self.exact:
                origin = origin + rng.choice([0, 1, -2]) * np.cross(n, self.d) if rng.random() < 0.5 else origin
            else:
                origin = origin + rng.uniform(-1, 1) * w
        origin = [float(c) for c in self.size * origin]
        n = [float(c) for c in n]
        return rng.choice([(origin, n), [origin, n], Plane(origin, n)]) if not self.exact else rng.choice([(origin, n), [origin, n]])

    def back(self, xyz, off=True):
        """Coordinate on the line, or None for something that is not on it."""
        v = np.array([float(c) for c in xyz]) / (self.size if off else self.strength) - (self.o if off else 0.0)
        x = float(np.dot(v, self.d))
        if not np.all(np.isfinite(v)) or np.linalg.norm(v - x * self.d) > 1e-6:
            return None
        return x


def realise(inst, emb, rng):
    """The topology diagram of an instance; returns it, the keys, and the instance in the order of its trails."""
    n = len(inst["x"])
    keys = KeyMap(zip(range(1, n + 1), pick_keys(rng, n)))
    d = TopologyDiagram()
    order = list(range(1, n + 1))
    rng.shuffle(order)
    for i in order:
        d.add_node(Node(keys[i], emb.point(inst["x"][i - 1])))
    steps = []
    for t in inst["trails"]:
        for a, b in zip(t["n"], t["n"][1:]):
            steps.append((a, b, None))
    for e in inst["dev"]:
        steps.append((e["a"], e["b"], e["f"]))
    rng.shuffle(steps)
    for a, b, f in steps:
        u, v = (a, b) if rng.random() < 0.5 else (b, a)
        if f is None:
            pl = inst["pl"][a - 1]
            d.add_edge(TrailEdge(keys[u], keys[v], emb.length(inst["len"][a - 1]), plane=emb.plane(pl) if pl else None))
        else:
            d.add_edge(DeviationEdge(keys[u], keys[v], emb.force(f)))
    sups = [t["n"][-1] for t in inst["trails"]]
    rng.shuffle(sups)
    for s in sups:
        d.add_support(NodeSupport(keys[s]))
    for i in range(1, n + 1):
        if inst["q"][i - 1] or rng.random() < 0.3:
            d.add_load(NodeLoad(keys[i], emb.vector(inst["q"][i - 1])))
    with quiet():
        d.build_trails()
    for t in inst["trails"]:
        if t["s"]:
            d.shift_trail(keys[t["n"][0]], t["s"])
    back = {k: i for i, k in keys.items()}
    by_origin = {t["n"][0]: t for t in inst["trails"]}
    out = dict(inst)
    out["trails"] = [by_origin[back[k]] for k, _ in d.trails(keys=True)]
    return d, keys, out


def get(d, u, v, name):
    e = (u, v) if d.has_edge(u, v) else (v, u)
    return d.edge_attribute(e, name)


def observe(form, inst, keys, emb):
    n = len(inst["x"])
    nxt = {}
    for t in inst["trails"]:
        for a, b in zip(t["n"], t["n"][1:]):
            nxt[a] = b
    obs = {"pos": [], "frc": [], "len": [], "rea": [], "devf": [], "devl": []}
    for i in range(1, n + 1):
        obs["pos"].append(fixed(emb.back(form.node_coordinates(keys[i])), U))
        obs["rea"].append(fixed(emb.back(form.reaction_force(keys[i]), False), U))
        obs["frc"].append(fixed(get(form, keys[i], keys[nxt[i]], "force"), U / emb.strength) if i in nxt else 0)
        obs["len"].append(fixed(get(form, keys[i], keys[nxt[i]], "length"), U / emb.size) if i in nxt else 0)
    for e in inst["dev"]:
        obs["devf"].append(fixed(get(form, keys[e["a"]], keys[e["b"]], "force"), U / emb.strength))
        obs["devl"].append(fixed(get(form, keys[e["a"]], keys[e["b"]], "length"), U / emb.size))
    return obs


def solve(d, solver, inst, emb, **kw):
    from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
    args = {} if inst.get("bare") else {"tmax": inst["tmax"], "eta": emb.size * inst["eta2"] / 2.0}
    args.update(kw)
    with quiet():
        if solver == "np":
            return static_equilibrium_numpy(d, **args)
        if inst["kmax"] >= 0:
            args["kmax"] = inst["kmax"]
        return static_equilibrium(d, **args)


def record(args):
    """One instance in several embeddings and in both solvers."""
    idx, inst, opts = args
    rng = random.Random(SEED * 104729 + idx)
    lines = []
    for exact in opts.get("embeddings", (True, False)):
        emb = Embedding(rng, exact)
        crash = ""
        if opts.get("bare"):
            # limit and threshold are left out; the sum of displacements is a multiple of the unit
            emb.size, emb.whole = 2.0 ** rng.choice([-26, -24, -22, -20, -18, -15, -12, -8, 0, 4]), False
            inst = dict(inst, bare=True, tmax=100, eta2=2 * int(1e-6 / emb.size) + 1)
        try:
            d, keys, ordered = realise(inst, emb, rng)
        except Exception as e:
            crash = "%s: %s" % (type(e).__name__, e)
            ordered = inst
        runs = []
        solvers = ["py"] + (["np"] if inst["kmax"] < 0 else [])
        if not exact and inst["eta2"] % 2 == 0:
            continue        # ties and zero thresholds are only meaningful in exact arithmetic
        for solver in solvers:
            run = {"name": solver, "ok": False, "exact": exact, "crash": crash, "extra": [], "err": "", "calls": -1}
            if not crash:
                before = stored(d) if opts.get("pure") else None
                kw = {"verbose": True} if rng.random() < 0.2 else {}
                count = []
                if rng.random() < 0.5:
                    kw["callback"] = lambda: count.append(1)
                try:
                    form = solve(d, solver, ordered, emb, **kw)
                    run["ok"] = True
                except ValueError as e:
                    run["err"] = "%s: %s" % (type(e).__name__, e)
                except Exception as e:
                    run["crash"] = "%s: %s" % (type(e).__name__, e)
                if "callback" in kw:
                    run["calls"] = len(count)
                if run["ok"]:
                    try:
                        run.update(observe(form, ordered, keys, emb))
                    except Exception as e:
                        run["crash"] = "%s: %s" % (type(e).__name__, e)
                if before is not None:
                    run["extra"].append({"name": "topology", "got": stored(d), "want": before})
                    if run["ok"]:
                        one = text(everything(form))
                        again = solve(d, solver, ordered, emb)
                        run["extra"].append({"name": "again", "got": text(everything(again)), "want": one})
                        spoil(again)
                        run["extra"].append({"name": "shared", "got": stored(d), "want": before})
                        run["extra"].append({"name": "aliased", "got": text(everything(form)), "want": one})
                        third = solve(d, solver, ordered, emb)
                        run["extra"].append({"name": "later", "got": text(everything(third)), "want": one})
            runs.append(run)
        lines.append({"inst": ordered, "runs": runs, "first": True})
    return lines


def spoil(form):
    """Change everything that can be changed in a form diagram."""
    for i, n in enumerate(list(form.nodes())):
        form.node_attributes(n, ["qx", "qy", "qz", "rx", "ry", "rz"], [9.0, 8.0, 7.0, 6.0, 5.0, 4.0])
        form.node_attribute(n, "type", "support")
        form.node_attribute(n, "_k", 77)
        form.node_xyz(n, [50.0 + i, 51.0, 52.0])
    for e in form.edges():
        form.edge_attribute(e, "length", 99.0)
        form.edge_attribute(e, "force", 98.0)
        plane = form.edge_attribute(e, "plane")
        if isinstance(plane, list) and plane and isinstance(plane[0], list):
            plane[0][0] = 1000.0
        elif isinstance(plane, tuple) and plane and isinstance(plane[0], list):
            plane[0][0] = 1000.0
    registry = getattr(form, "gkey_node", None)
    if isinstance(registry, dict):
        registry.clear()
    form.tol = "1f"


def judge_lines(report, scratch, instances, opts, clauses, name):
    recs = pool_map(record, [(i, inst, opts) for i, inst in enumerate(instances)])
    lines = [line for r in recs for line in r]
    slim = [{"first": True, "inst": line["inst"],
             "runs": [{k: v for k, v in run.items() if k != "err"} for run in line["runs"]]} for line in lines]
    res = judge("Cem1DTrace", slim, scratch, name)
    report.states += res["states"]
    report.transitions += res["transitions"]
    report.traces += sum(len(line["runs"]) for line in lines)
    report.steps += sum(len(line["runs"]) for line in lines)
    returned = sum(run["ok"] for line in lines for run in line["runs"])
    big = 0
    for at, bad in res["bad"]:
        if bad == ["big"]:
            big += 1
            continue
        for clause in bad:
            if clauses(clause):
                report.violation(clause, {"campaign": name, "line": lines[at]})
    report.notes["trace:" + name] = {"instances": len(instances), "runs": report.steps, "returned": returned, "skipped (too large)": big}
    if lines and len(report.samples) < 5:
        report.samples.append({"campaign": name, "line": lines[len(lines) // 2]})
    return res
