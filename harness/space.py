"""Random structures in space, solved by the real code, judged by CemStatics.tla."""
import json
import math
import random

import ref
from common import SEED, fixed, fixed3, judge, pool_map, quiet
from diagrams import Keys, TopologyDiagram, nid, np, pick_keys
from diagrams import Node, TrailEdge, DeviationEdge, NodeLoad, NodeSupport, Plane
from dia import everything, rebuild_fresh, stored, text
from line import spoil


# ------------------------------------------------------------------------------
# structures: plain descriptions that can be transformed, relabelled, realised
# ------------------------------------------------------------------------------

def vec(rng, a, b):
    return [rng.uniform(a, b) for _ in range(3)]


def random_structure(rng, trails=(1, 4), length=(2, 5), devs=(0, 6), indirect=True, planes=0.15, shifts=0.3, loads=0.8, degenerate=0.0, scales=0.0,
                     idle=0.0, alike=0.0, long=0.03):
    if rng.random() < long:
        trails, length = (1, 2), (9, 18)
    alike = rng.random() < alike      # equal lengths and forces
    s = {"nodes": [], "trails": [], "shift": [], "edges": []}
    n = 0
    for _ in range(rng.randint(*trails)):
        m = rng.randint(*length)
        s["trails"].append(list(range(n, n + m)))
        s["shift"].append(rng.choice([1, 1, 1, 2, 2, 2, 3, 7]) if rng.random() < shifts else 0)
        n += m
    k = {}
    for t, sh in zip(s["trails"], s["shift"]):
        for j, i in enumerate(t):
            k[i] = sh + j
    for i in range(n):
        q = vec(rng, -2, 2) if rng.random() < loads else [0.0, 0.0, 0.0]
        s["nodes"].append({"xyz": vec(rng, -4, 4), "q": q})
    used = set()
    for t in s["trails"]:
        for a, b in zip(t, t[1:]):
            used.add(frozenset((a, b)))
            plane = None
            if rng.random() < planes:
                plane = [vec(rng, -5, 5), vec(rng, -1, 1)]
            s["edges"].append({"a": a, "b": b, "t": "trail", "val": rng.choice([-1, 1]) * (1.25 if alike else rng.uniform(0.5, 2.0)), "plane": plane})
    for _ in range(rng.randint(*devs)):
        if n < 2:
            break
        a, b = rng.sample(range(n), 2)
        if frozenset((a, b)) in used:
            continue
        if not indirect and k[a] != k[b]:
            continue
        used.add(frozenset((a, b)))
        f = rng.choice([-1, 1]) * (rng.uniform(0.2, 2.0) if k[a] == k[b] else rng.uniform(0.02, 0.25))
        if alike:
            f = math.copysign(0.5 if k[a] == k[b] else 0.125, f)
        s["edges"].append({"a": a, "b": b, "t": "deviation", "val": f if rng.random() >= idle else 0.0, "plane": None})
    if alike:
        for i in range(1, n):
            if rng.random() < 0.4:
                s["nodes"][i]["q"] = list(s["nodes"][rng.randrange(i)]["q"])
    if rng.random() < degenerate:
        degrade(s, rng, k)
    s["size"] = s["strength"] = 1.0
    if rng.random() < scales:
        # other units; powers of two leave the degenerate situations as they are
        s = transformed(s, np.eye(3), np.zeros(3), 2.0 ** rng.choice([rng.randint(-10, 12), rng.randint(-30, 30)]),
                        2.0 ** rng.choice([rng.randint(-20, 16), rng.randint(-45, 40)]))
    return s


def degrade(s, rng, k):
    """Situations at the edge of what is defined; all exact in floating-point arithmetic."""
    kind = rng.choice(["coincident", "unloaded", "parallel", "reached", "nothing"])
    if kind == "coincident" and len(s["trails"]) > 1:
        a, b = s["trails"][0][0], s["trails"][1][0]
        s["nodes"][b]["xyz"] = list(s["nodes"][a]["xyz"])
        s["shift"][0] = s["shift"][1] = 0
        s["edges"].append({"a": a, "b": b, "t": "deviation", "val": rng.uniform(0.5, 2.0), "plane": None}
                          ) if not any({e["a"], e["b"]} == {a, b} for e in s["edges"]) else None
    elif kind in ("unloaded", "nothing"):
        # a trail without any force
        t = s["trails"][-1]
        for i in t:
            s["nodes"][i]["q"] = [0.0, 0.0, 0.0]
        s["edges"] = [e for e in s["edges"] if e["t"] == "trail" or not {e["a"], e["b"]} & set(t)]
        if kind == "nothing":
            for e in s["edges"]:
                if e["t"] == "trail" and e["a"] in t:
                    e["plane"] = [vec(rng, -2, 2), vec(rng, -1, 1)]
    else:
        # a trail in the direction of z, with planes that contain it or its first node
        t = s["trails"][-1]
        s["edges"] = [e for e in s["edges"] if e["t"] == "trail" or not {e["a"], e["b"]} & set(t)]
        for i in t:
            s["nodes"][i]["q"] = [0.0, 0.0, rng.choice([-1.5, -0.5, 0.75])]
        x, y, z = [float(rng.randint(-3, 3)) for _ in range(3)]
        s["nodes"][t[0]]["xyz"] = [x, y, z]
        e = next(e for e in s["edges"] if e["t"] == "trail" and e["a"] == t[0])
        e["plane"] = [[x + 1.0, y, z], [1.0, 0.0, 0.0]] if kind == "parallel" else [[x + 2.0, y, z], [0.0, 0.0, 2.0]]


def realise(s, rng, keys=None, shuffle=True, flip=True):
    n = len(s["nodes"])
    if keys is None:
        keys = pick_keys(rng, n)
    d = TopologyDiagram()
    order = list(range(n))
    if shuffle:
        rng.shuffle(order)
    for i in order:
        d.add_node(Node(keys[i], list(s["nodes"][i]["xyz"])))
    edges = list(s["edges"])
    if shuffle:
        rng.shuffle(edges)
    for e in edges:
        u, v = keys[e["a"]], keys[e["b"]]
        if flip and rng.random() < 0.5:
            u, v = v, u
        if e["t"] == "trail":
            pl = e["plane"]
            if pl:
                pl = rng.choice([lambda p: (p[0], p[1]), lambda p: [p[0], p[1]], lambda p: Plane(*p)])([list(pl[0]), list(pl[1])])
            d.add_edge(TrailEdge(u, v, e["val"], plane=pl))
        else:
            d.add_edge(DeviationEdge(u, v, e["val"]))
    sups = [t[-1] for t in s["trails"]]
    if shuffle:
        rng.shuffle(sups)
    for i in sups:
        d.add_support(NodeSupport(keys[i]))
    for i in range(n):
        d.add_load(NodeLoad(keys[i], list(s["nodes"][i]["q"])))
    with quiet():
        d.build_trails()
    for t, sh in zip(s["trails"], s["shift"]):
        if sh:
            d.shift_trail(keys[t[0]], sh)
    return d, keys


def find_form(d, solver, **kw):
    from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
    with quiet():
        return (static_equilibrium if solver == "py" else static_equilibrium_numpy)(d, **kw)


# ------------------------------------------------------------------------------
# observation
# ------------------------------------------------------------------------------

def floats(xs):
    return [float(x) for x in xs]


def unit_for(values, scale=1.0):
    """Fixed-point unit for values whose natural size is the scale."""
    values = list(values)
    if not all(math.isfinite(v) for v in values):
        return None
    m = max([abs(v) / scale for v in values] + [1.0])
    if m > 4e6:
        return None
    unit = 1e6
    while m * unit > 4e7:
        unit /= 10
    return unit / scale


def lengths_of(form):
    return [c for n in form.nodes() for c in floats(form.node_coordinates(n))] + [float(form.edge_attribute(e, "length")) for e in form.edges()]


def forces_of(form):
    return [c for n in form.nodes() for c in floats(form.reaction_force(n)) + floats(form.node_load(n))] + \
        [float(form.edge_attribute(e, "force")) for e in form.edges()]


def values_of(form):
    return lengths_of(form) + forces_of(form)


def observe(form, d, kmax=None, size=1.0, strength=1.0):
    """Projection of a form diagram and of the topology's prescription."""
    unit, funit = unit_for(lengths_of(form), size), unit_for(forces_of(form), strength)
    finite = unit is not None and funit is not None
    klast = max(d.node_sequence(n) for n in d.nodes())
    kend = klast if kmax is None else min(kmax, klast)
    if not finite:
        return {"finite": False, "nodes": {}, "edges": [], "tol": 0, "mtol": 0}, {"nodes": {}, "edges": []}
    xyz = {n: np.array(floats(form.node_coordinates(n))) for n in form.nodes()}
    moments = {}
    for n in form.nodes():
        moments[n] = np.cross(xyz[n], np.array(floats(form.node_load(n))) + np.array(floats(form.reaction_force(n))))
    munit = unit_for([float(c) for m in moments.values() for c in m], size * strength) or 1.0 / (size * strength)
    munit = min(munit, unit / strength, funit / size)
    F = {"finite": True, "tol": 20, "mtol": 200, "nodes": {}, "edges": []}
    for n in form.nodes():
        t = form.node_attribute(n, "type")
        F["nodes"][nid(n)] = {"p": fixed3(xyz[n], unit), "q": fixed3(form.node_load(n), funit), "r": fixed3(form.reaction_force(n), funit),
                              "m": fixed3(moments[n], munit), "t": str(t), "placed": d.has_node(n) and d.node_sequence(n) <= kend,
                              "lastk": kmax is not None and d.has_node(n) and d.node_sequence(n) == kmax}
    for u, v in sorted(form.edges()):
        vector = xyz[v] - xyz[u]
        dist = float(np.linalg.norm(vector))
        f = float(form.edge_attribute((u, v), "force"))
        fv = f * vector / dist if dist else np.zeros(3)
        F["edges"].append({"u": nid(u), "v": nid(v), "t": str(form.edge_attribute((u, v), "type")), "f": fixed(f, funit), "fv": fixed3(fv, funit),
                           "len": fixed(form.edge_attribute((u, v), "length"), unit), "dist": fixed(dist, unit)})
    T = {"nodes": {}, "edges": []}
    for n in d.nodes():
        T["nodes"][nid(n)] = {"p": fixed3(d.node_coordinates(n), unit), "q": fixed3(d.node_load(n), funit),
                              "t": str(d.node_attribute(n, "type")), "org": bool(d.is_node_origin(n))}
    for u, v in sorted(d.edges()):
        e = (u, v)
        rec = {"u": nid(u), "v": nid(v), "t": str(d.edge_attribute(e, "type")), "f": fixed(d.edge_attribute(e, "force"), funit),
               "len": fixed(d.edge_attribute(e, "length"), unit), "pl": False, "off": 0, "off0": 0, "tilt": 0,
               "reached": max(d.node_sequence(u), d.node_sequence(v)) <= kend}
        plane = d.edge_attribute(e, "plane")
        if plane and u in xyz and v in xyz:
            a, b = (u, v) if d.node_sequence(u) < d.node_sequence(v) else (v, u)
            o, nrm = [np.array(floats(x)) for x in plane]
            nrm = nrm / np.linalg.norm(nrm)
            vector = xyz[b] - xyz[a]
            dist = float(np.linalg.norm(vector))
            rec.update({"pl": True, "off": fixed(float(np.dot(xyz[b] - o, nrm)), unit), "off0": fixed(float(np.dot(xyz[a] - o, nrm)), unit),
                        "tilt": fixed(abs(float(np.dot(vector, nrm))) / dist if dist else 0.0, 1e6)})
        T["edges"].append(rec)
    return F, T


def digest(form, keys=None, unit=None):
    """Positions, reactions, forces and lengths as numbers, in the order of the description."""
    ns = sorted(form.nodes()) if keys is None else list(keys)
    pos = [float(c) for n in ns for c in form.node_coordinates(n)]
    rea = [float(c) for n in ns for c in form.reaction_force(n)]
    return pos, rea


def edge_values(form, s, keys):
    """Forces and lengths of the edges, in the order of the description, relative to their units."""
    out = []
    for e in s["edges"]:
        u, v = keys[e["a"]], keys[e["b"]]
        k = (u, v) if form.has_edge(u, v) else (v, u)
        f, l = float(form.edge_attribute(k, "force")), float(form.edge_attribute(k, "length"))
        f, l = f / s["strength"], l / s["size"]
        out += [f, l if abs(f) > 1e-7 else abs(l)]
    return out


def compare(name, got, want, tol=60, scale=1.0):
    unit = unit_for(list(want), scale) if all(math.isfinite(v) for v in want) else None
    if unit is None:
        return {"name": name, "got": text(["finite"]), "want": text(["not finite or too large"])}
    return {"name": name, "got": [fixed(v, unit) for v in got], "want": [fixed(v, unit) for v in want], "tol": tol}


def attempt(func, *args, **kw):
    """(result, '') or (None, kind of error)."""
    try:
        return func(*args, **kw), ""
    except ValueError:
        return None, "ValueError"
    except AssertionError:
        return None, "AssertionError"


# ------------------------------------------------------------------------------
# lines
# ------------------------------------------------------------------------------

def stable(s, seed, settings):
    """Does the structure have a form that rounding errors do not change?"""
    ref, size, strength = None, s.get("size", 1.0), s.get("strength", 1.0)
    for i in range(3):
        rng = random.Random(seed)
        p = json.loads(json.dumps(s))
        if i:
            for n in p["nodes"]:
                n["xyz"] = [c * (1 + 1e-13 * i) for c in n["xyz"]]
                n["q"] = [c * (1 - 1e-13 * i) for c in n["q"]]
        d, keys = realise(p, rng)
        form, err = attempt(find_form, d, "py", **settings)
        val = None if form is None else [v / size for v in lengths_of(form)] + [v / strength for v in forces_of(form)]
        if i == 0:
            ref = val
        elif (ref is None) != (val is None):
            return False
        elif ref is not None and max(abs(a - b) for a, b in zip(ref, val)) > 1e-7 * max(1.0, max(abs(a) for a in ref)):
            return False
    return ref is None or unit_for(ref) is not None


def record(args):
    idx, opts = args
    seed = SEED * 32452843 + idx
    rng = random.Random(seed)
    s = random_structure(rng, **opts.get("structure", {}))
    settings = {"tmax": rng.choice(opts.get("tmax", [40])), "eta": s["size"] * rng.choice(opts.get("eta", [1e-8]))}
    units = {"size": s["size"], "strength": s["strength"]}
    order = rng.randrange(1 << 30)
    try:
        steady = stable(s, order, settings) and ref.steady(s, settings["tmax"], settings["eta"])
    except Exception as e:
        return {"first": True, "runs": [{"name": "py", "crash": "%s: %s" % (type(e).__name__, e), "ok": False}], "same": [], "struct": s}
    if not steady or opts.get("moves") and not ref.one_form(s, settings["tmax"], settings["eta"], seed):
        return None
    line = {"first": True, "runs": [], "same": [], "struct": s, "settings": settings}
    forms = {}
    d, keys = realise(s, random.Random(order))
    before = stored(d)
    for solver in ("py", "np"):
        run = {"name": solver, "crash": "", "ok": False}
        line["runs"].append(run)
        try:
            form, err = attempt(find_form, d, solver, **settings)
            forms[solver] = form
            run["err"] = err
            if form is not None:
                run["ok"] = True
                run["form"], run["topo"] = observe(form, d, **units)
        except Exception as e:
            run["crash"] = "%s: %s" % (type(e).__name__, e)
            run["ok"] = False
            return line
        if opts.get("pure"):
            line["same"].append({"name": "pure.topology", "got": stored(d), "want": before})
    if opts.get("agree"):
        a, b = forms["py"], forms["np"]
        line["same"].append({"name": "agree.outcome", "got": str(b is not None), "want": str(a is not None)})
        if a is not None and b is not None:
            line["same"].append({"name": "agree.keys", "got": text(sorted(b.nodes()) + sorted(b.edges())), "want": text(sorted(a.nodes()) + sorted(a.edges()))})
            pa, ra = digest(a, keys)
            pb, rb = digest(b, keys)
            line["same"] += [compare("agree.positions", pb, pa, 60, s["size"]), compare("agree.reactions", rb, ra, 60, s["strength"]),
                             compare("agree.edges", edge_values(b, s, keys), edge_values(a, s, keys))]
    if opts.get("pure"):
        purity(line, d, before, settings, rng)
    if opts.get("revise"):
        revised(line, s, d, keys, settings, rng, opts["revise"])
    if opts.get("kmax"):
        partial(line, s, d, keys, settings, rng)
    if opts.get("moves"):
        moves(line, s, forms, keys, settings, rng)
    return line


def purity(line, d, before, settings, rng):
    same = line["same"]
    for solver in ("py", "np"):
        try:
            form, err = attempt(find_form, d, solver, **settings)
            if form is not None:
                one = text(everything(form))
                again, _ = attempt(find_form, d, solver, **settings)
                same.append({"name": "pure.again", "got": text(everything(again)), "want": one})
                spoil(again)
                same.append({"name": "pure.shared", "got": stored(d), "want": before})
                same.append({"name": "pure.aliased", "got": text(everything(form)), "want": one})
                third, _ = attempt(find_form, d, solver, **settings)
                same.append({"name": "pure.later", "got": text(everything(third)), "want": one})
                # the other way round: changes in the topology do not reach the form
                other = d.copy()
                form2, _ = attempt(find_form, other, solver, **settings)
                two = text(everything(form2))
                spoil(other)
                same.append({"name": "pure.form", "got": text(everything(form2)), "want": two})
            # a failing run leaves no trace
            attempt(find_form, d, solver, tmax=2, eta=-1.0)
            same.append({"name": "pure.failed", "got": stored(d), "want": before})
            empty = rebuild_fresh(d, random.Random(1))
            b2 = text(everything(empty))
            _, err = attempt(find_form, empty, solver, **settings)
            same.append({"name": "pure.notrails", "got": text([everything(empty), err != ""]), "want": text([json.loads(b2), True])})
        except Exception as e:
            line["runs"].append({"name": solver, "crash": "%s: %s" % (type(e).__name__, e), "ok": False})


EDITS = ["loads", "values", "origins", "all", "shifts", "shifts", "planes", "deviations", "extend", "every"]


def revise(s, rng, parts):
    """Another structure, and what was done: a list of edits."""
    other = json.loads(json.dumps(s))
    n = len(other["nodes"])
    fresh = random_structure(random.Random(rng.random()), trails=(1, 1), length=(n, n), devs=(0, 0), planes=0.0, long=0.0)
    part = rng.choice(parts)
    heads = {t[0] for t in s["trails"]}
    for i, node in enumerate(other["nodes"]):
        if part in ("loads", "all", "every"):
            node["q"] = [c * s["strength"] for c in fresh["nodes"][i]["q"]]
        if part in ("origins", "all", "every") and i in heads:
            node["xyz"] = [c * s["size"] for c in fresh["nodes"][i]["xyz"]]
    for e in other["edges"]:
        if part in ("values", "all", "every"):
            e["val"] *= rng.choice([0.75, -0.5, 1.25, -1.0])
        if part in ("planes", "every") and e["t"] == "trail" and rng.random() < 0.5:
            e["plane"] = None if e["plane"] else [[c * s["size"] for c in vec(rng, -5, 5)], vec(rng, -1, 1)]
    if part in ("extend", "every"):
        # a trail goes on beyond its former support
        t = rng.choice(other["trails"])
        other["nodes"].append({"xyz": [c * s["size"] for c in vec(rng, -4, 4)], "q": [c * s["strength"] for c in vec(rng, -2, 2)]})
        other["edges"].append({"a": t[-1], "b": n, "t": "trail", "val": s["size"] * rng.choice([-1, 1]) * rng.uniform(0.5, 2.0), "plane": None, "new": True})
        t.append(n)
        n += 1
    if part in ("deviations", "every"):
        devs = [e for e in other["edges"] if e["t"] == "deviation"]
        for e in devs[:rng.randint(0, len(devs))]:
            other["edges"].remove(e)
        used = {frozenset((e["a"], e["b"])) for e in other["edges"]}
        for _ in range(rng.randint(0, 2)):
            a, b = rng.sample(range(n), 2)
            if frozenset((a, b)) not in used:
                used.add(frozenset((a, b)))
                other["edges"].append({"a": a, "b": b, "t": "deviation", "val": s["strength"] * rng.choice([-1, 1]) * rng.uniform(0.02, 0.25), "plane": None, "new": True})
    if part in ("shifts", "every"):
        other["shift"] = [rng.choice([0, 0, 1, 2, 3]) for _ in other["shift"]]
    return part, other


def apply_revision(d, s, other, keys):
    """Edit the diagram of the structure into that of the other structure."""
    old = {frozenset((keys[e["a"]], keys[e["b"]])): e for e in s["edges"]}
    for a, b, key in zip(s["nodes"], other["nodes"], keys):
        if a["q"] != b["q"]:
            d.add_load(NodeLoad(key, list(b["q"])))
        if a["xyz"] != b["xyz"]:
            d.node_xyz(key, list(b["xyz"]))
    for i in range(len(s["nodes"]), len(other["nodes"])):
        d.add_node(Node(keys[i], list(other["nodes"][i]["xyz"])))
        d.add_load(NodeLoad(keys[i], list(other["nodes"][i]["q"])))
    kept = {frozenset((keys[e["a"]], keys[e["b"]])) for e in other["edges"] if not e.get("new")}
    for pair in old:
        if pair not in kept:
            u, v = tuple(pair)
            u, v = (u, v) if d.has_edge(u, v) else (v, u)
            d.delete_edge(u, v)
    for e in other["edges"]:
        u, v = keys[e["a"]], keys[e["b"]]
        if e.get("new"):
            d.add_edge(TrailEdge(u, v, e["val"]) if e["t"] == "trail" else DeviationEdge(u, v, e["val"]))
            continue
        u, v = (u, v) if d.has_edge(u, v) else (v, u)
        d.edge_attribute((u, v), "length" if e["t"] == "trail" else "force", e["val"])
        if e["plane"] != old[frozenset((u, v))]["plane"]:
            if e["plane"]:
                d.edge_attribute((u, v), "plane", (list(e["plane"][0]), list(e["plane"][1])))
            else:
                d.unset_edge_attribute((u, v), "plane")
    if len(other["nodes"]) > len(s["nodes"]):
        for t, t0 in zip(other["trails"], s["trails"]):
            if t != t0:
                d.unset_node_attribute(keys[t0[-1]], "type")
                d.add_support(NodeSupport(keys[t[-1]]))
        with quiet():
            d.build_trails()
    for t, sh in zip(other["trails"], other["shift"]):
        if d.node_sequence(keys[t[0]]) != sh:
            d.shift_trail(keys[t[0]], sh)


def revised(line, s, d, keys, settings, rng, parts):
    """After form finding, other loads, values, edges, trails or sequences: the results are those of a topology that never was solved before."""
    part, other = revise(s, rng, parts)
    limits = {"tmax": 1, "eta": s["size"]}      # later passes depend on the order of the trails
    if not stable(other, rng.randrange(1 << 30), settings) or not stable(other, rng.randrange(1 << 30), limits):
        return
    if not ref.steady(other, settings["tmax"], settings["eta"]) or not ref.one_form(other, settings["tmax"], settings["eta"], rng.randrange(1 << 30)):
        return
    keys = Keys(keys)
    while len(keys) < len(other["nodes"]):
        keys.append(max(keys) + 1)
    last = max(sh + len(t) - 1 for t, sh in zip(other["trails"], other["shift"]))
    runs = [(solver, kw) for solver in ("py", "np") for kw in (settings, limits)] + [("py", dict(settings, kmax=rng.randint(0, last)))]
    rng.shuffle(runs)
    try:
        # nothing else is solved between the runs before and after the edits
        for solver in rng.choice([("py",), ("np",), ("py", "np"), ("np", "py")]):
            attempt(find_form, d, solver, **settings)
        apply_revision(d, s, other, keys)
        got = [attempt(find_form, d, solver, **kw)[0] for solver, kw in runs]
        twin, _ = realise(other, rng, keys)
        want = [attempt(find_form, twin, solver, **kw)[0] for solver, kw in runs]
    except Exception as e:
        line["runs"].append({"name": "revised", "crash": "%s: %s" % (type(e).__name__, e), "ok": False})
        return
    for (solver, kw), a, b in zip(runs, want, got):
        line["same"].append({"name": "pure.revised.outcome", "got": str(b is not None), "want": str(a is not None)})
        if a is not None and b is not None:
            pa, ra = digest(a, keys)
            pb, rb = digest(b, keys)
            if "kmax" in kw and unit_for(values_of(a)) is None:
                continue
            line["same"] += [compare("pure.revised.positions", pb, pa, 60, s["size"]), compare("pure.revised.reactions", rb, ra, 60, s["strength"]),
                             compare("pure.revised.edges", edge_values(b, other, keys), edge_values(a, other, keys))]


def partial(line, s, d, keys, settings, rng):
    """kmax: equilibrium up to a sequence, the rest untouched."""
    klast = max(d.node_sequence(n) for n in d.nodes())
    for kmax in sorted(set([0, rng.randint(0, klast), klast, klast + 2])):
        run = {"name": "kmax", "crash": "", "ok": False}
        line["runs"].append(run)
        try:
            form, err = attempt(find_form, d, "py", kmax=kmax, **settings)
            if form is None:
                continue
            run["ok"] = True
            run["form"], run["topo"] = observe(form, d, kmax, s["size"], s["strength"])
            beyond = [n for n in sorted(d.nodes()) if d.node_sequence(n) > kmax]
            line["same"].append(compare("kmax.beyond.positions", [float(c) for n in beyond for c in form.node_coordinates(n)],
                                        [float(c) for n in beyond for c in d.node_coordinates(n)], 0, s["size"]))
            line["same"].append(compare("kmax.beyond.reactions", [float(c) for n in beyond for c in form.reaction_force(n)], [0.0] * 3 * len(beyond), 0, s["strength"]))
            edges = [e for e in sorted(d.edges()) if d.is_trail_edge(e) and max(d.edge_sequence(e)) > kmax]
            line["same"].append(compare("kmax.beyond.forces", [float(form.edge_force(e)) for e in edges], [float(d.edge_force(e)) for e in edges], 0, s["strength"]))
            if kmax >= klast:
                whole, _ = attempt(find_form, d, "py", **settings)
                line["same"].append({"name": "kmax.nolimit", "got": text(everything(form)), "want": text(everything(whole))})
        except Exception as e:
            run["crash"] = "%s: %s" % (type(e).__name__, e)
            run["ok"] = False
    form, err = attempt(find_form, d, "py", kmax=-1, **settings)
    line["same"].append({"name": "kmax.negative", "got": str(form is None), "want": "True"})


def rotation(rng):
    q = np.array([rng.gauss(0, 1) for _ in range(4)])
    q = q / np.linalg.norm(q)
    w, x, y, z = q
    m = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                  [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                  [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
    if rng.random() < 0.5:
        m = m @ np.diag([1.0, 1.0, -1.0])
    return m


def transformed(s, m, shift, size=1.0, strength=1.0):
    t = json.loads(json.dumps(s))

    def pt(p):
        return floats(size * (m @ np.array(p)) + shift)

    def vc(v, f=1.0):
        return floats(f * (m @ np.array(v)))
    for n in t["nodes"]:
        n["xyz"] = pt(n["xyz"])
        n["q"] = vc(n["q"], strength)
    for e in t["edges"]:
        if e["plane"]:
            e["plane"] = [pt(e["plane"][0]), vc(e["plane"][1])]
        e["val"] *= size if e["t"] == "trail" else strength
    t["size"], t["strength"] = s["size"] * size, s["strength"] * strength
    return t


def moves(line, s, forms, keys, settings, rng):
    """Motions, scalings and relabellings of a structure."""
    same = line["same"]
    for solver in ("py", "np"):
        form = forms[solver]
        if form is None:
            continue
        p0, r0 = digest(form, keys)
        e0 = edge_values(form, s, keys)
        cases = []
        m, sh = rotation(rng), s["size"] * np.array(vec(rng, -5, 5))
        cases.append(("motion", m, sh, 1.0, 1.0))
        cases.append(("loads", np.eye(3), np.zeros(3), 1.0, rng.choice([2.0, 0.5, 3.7, 10.0 ** rng.uniform(-6, 5), 10.0 ** rng.uniform(-14, 12)])))
        cases.append(("size", np.eye(3), np.zeros(3), rng.choice([2.0, 0.5, 1.3, 10.0 ** rng.uniform(-4, 4), 10.0 ** rng.uniform(-9, 9)]), 1.0))
        cases.append(("relabel", np.eye(3), np.zeros(3), 1.0, 1.0))
        for name, m, sh, size, strength in cases:
            t = transformed(s, m, sh, size, strength)
            sett = dict(settings, eta=settings["eta"] * size)
            try:
                d2, keys2 = realise(t, rng)
                form2, err = attempt(find_form, d2, solver, **sett)
            except Exception as e:
                line["runs"].append({"name": solver, "crash": "%s: %s" % (type(e).__name__, e), "ok": False})
                continue
            name = "moves." + name
            same.append({"name": name + ".outcome", "got": str(form2 is not None), "want": "True"})
            if form2 is None:
                continue
            p2, r2 = digest(form2, keys2)
            p2 = [c for i in range(0, len(p2), 3) for c in floats(m.T @ (np.array(p2[i:i + 3]) - sh) / size)]
            r2 = [c for i in range(0, len(r2), 3) for c in floats(m.T @ np.array(r2[i:i + 3]) / strength)]
            e2 = edge_values(form2, t, keys2)
            same += [compare(name + ".positions", p2, p0, 100, s["size"]), compare(name + ".reactions", r2, r0, 100, s["strength"]), compare(name + ".edges", e2, e0, 100)]


def judge_lines(report, scratch, count, opts, clauses, name):
    recs = pool_map(record, [(i + 1000000 * opts.get("offset", 0), opts) for i in range(count)])
    lines = [r for r in recs if r is not None]
    slim = [{"first": True, "runs": [{k: v for k, v in run.items() if k != "err"} for run in line["runs"]], "same": line["same"]} for line in lines]
    res = judge("CemStaticsTrace", slim, scratch, name)
    report.states += res["states"]
    report.transitions += res["transitions"]
    report.traces += len(lines)
    report.steps += sum(len(line["runs"]) + len(line["same"]) for line in lines)
    report.notes["trace:" + name] = {"structures": len(lines), "not stable": count - len(lines),
                                     "forms": sum(run["ok"] for line in lines for run in line["runs"]),
                                     "comparisons": sum(len(line["same"]) for line in lines)}
    for at, bad in res["bad"]:
        for clause in bad:
            if clauses(clause):
                short = dict(lines[at])
                short["same"] = [x for x in short["same"] if x["name"] == clause]
                report.violation(clause, {"campaign": name, "line": short})
    if lines and len(report.samples) < 5:
        report.samples.append({"campaign": name, "structure": lines[len(lines) // 2]["struct"]})
    return res
