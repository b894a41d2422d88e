"""Optimizations of the real code, recorded and judged by CemSearch.tla."""
import recorder   # noqa: I001  (before compas_cem)
import nlopt
import math
import random

from common import SEED, fixed, judge, pool_map, quiet, run_tlc, tlc_must_pass
import ref
import space
from dia import everything, text
from diagrams import nid, np
from compas_cem.optimization import solve_proxy
from goals import Optimizer, ORIGIN, LOAD, evaluate, seen
from goals import TrailEdgeParameter, DeviationEdgeParameter
from goals import PointConstraint, LineConstraint, PlaneConstraint, PolylineConstraint
from goals import DeviationEdgeLengthConstraint, TrailEdgeForceConstraint, ReactionForceConstraint, EdgeDirectionConstraint
from goals import Line, Plane, Point, Polyline, Vector

ALGORITHMS = ["SLSQP", "LBFGS", "MMA", "TNEWTON", "AUGLAG", "VAR"]
XU = 1e6


# ------------------------------------------------------------------------------
# problems
# ------------------------------------------------------------------------------

def random_problem(rng, d, opts=None):
    """Parameters [kind, key, component, low, up] and goals [kind, key, target, weight] for a topology."""
    opts = opts or {}

    def bound():
        return rng.choice([None, None, 0.25, 1.0, 2.0, -0.5, 3, 0.0] if not opts.get("tight") else [0.1, 0.25, -0.2, 0.0, 0.5])
    pars = []
    for u, v in d.edges():
        e = (u, v)
        if d.is_trail_edge(e):
            if not d.edge_plane(e):
                pars.append(["length", e, 0])
        else:
            pars += [["force", e, 0]] * 2
    for n in d.nodes():
        if d.is_node_origin(n):
            pars += [["origin", n, c] for c in range(3)]
        pars += [["load", n, c] for c in range(3)]
    rng.shuffle(pars)
    seen, chosen = set(), []
    for p in pars:
        if str(p) not in seen:
            seen.add(str(p))
            chosen.append(p + [bound(), bound()])
    chosen = chosen[:rng.randint(1, opts.get("pars", 6))]
    nodes, goals = sorted(d.nodes()), []

    def pt(s=3.0):
        return [rng.uniform(-s, s) for _ in range(3)]
    for _ in range(rng.randint(1, opts.get("goals", 4))):
        kind = rng.choice(["point", "point", "line", "plane", "polyline", "length", "force", "reaction", "direction"])
        key, w = rng.choice(nodes), rng.choice(opts.get("weights", [0.5, 1.0, 1.0, 3.0]))
        trail = sorted(e for e in d.edges() if d.is_trail_edge(e))
        devs = sorted(e for e in d.edges() if d.is_deviation_edge(e))
        if kind == "point":
            t = pt()
        elif kind in ("line", "plane"):
            t = [pt(), pt()]
        elif kind == "polyline":
            t = [pt() for _ in range(rng.choice([2, 3, 4, 4, 6, 9]))]
            if len(t) > 2 and rng.random() < 0.3:
                t.append(list(t[0]))      # closed
        elif kind == "length":
            if not devs:
                continue
            key, t = rng.choice(devs), rng.uniform(0.5, 4.0)
        elif kind == "force":
            key, t = rng.choice(trail), rng.uniform(-3.0, 3.0)
        elif kind == "reaction":
            key, t = rng.choice(sorted(n for n in nodes if d.is_node_support(n))), pt(2.0)
        else:
            key, t = rng.choice(trail + devs), pt(1.0)
            if rng.random() < 0.5:
                key = (key[1], key[0])
        if opts.get("form") is not None and rng.random() < 0.4:
            t = close_by(rng, opts["form"], kind, key, t)
        goals.append([kind, key, t, w])
    if not goals:
        goals.append(["point", nodes[0], pt(), 1.0])
    return chosen, goals


def close_by(rng, form, kind, key, t):
    """A target next to what is there already."""
    far = 10.0 ** rng.uniform(-4, 0)

    def step(p):
        v = np.array([rng.uniform(-1, 1) for _ in range(3)])
        return [float(c) for c in np.array(p) + far * v / np.linalg.norm(v)]
    a = achieved(form, [kind, key, t, 1.0])[0]
    if kind in ("length", "force"):
        return a[0] + rng.choice([-1, 1]) * far
    if kind in ("point", "reaction", "direction"):
        return step(a)
    q = step(a)
    if kind == "plane":
        return [q, t[1]]
    if kind == "line":
        return [[float(c) for c in np.array(q) - 0.3 * np.array(t[1])], [float(c) for c in np.array(q) + np.array(t[1])]]
    i = rng.randrange(1, len(t))
    return t[:i] + [q] + t[i:]


def make_par(p):
    kind, key, c, low, up = p
    if kind == "length":
        return TrailEdgeParameter(key, low, up)
    if kind == "force":
        return DeviationEdgeParameter(key, low, up)
    return (ORIGIN if kind == "origin" else LOAD)[c](key, low, up)


def make_goal(g):
    kind, key, t, w = g
    return {"point": lambda: PointConstraint(key, Point(*t), w), "line": lambda: LineConstraint(key, Line(*t), w),
            "plane": lambda: PlaneConstraint(key, Plane(*t), w), "polyline": lambda: PolylineConstraint(key, Polyline(t), w),
            "length": lambda: DeviationEdgeLengthConstraint(key, t, w), "force": lambda: TrailEdgeForceConstraint(key, t, w),
            "reaction": lambda: ReactionForceConstraint(key, Vector(*t), w), "direction": lambda: EdgeDirectionConstraint(key, Vector(*t), w)}[kind]()


def slot(p):
    kind, key, c = p[:3]
    if kind in ("length", "force"):
        return "%s:%s-%s" % (kind, nid(key[0]), nid(key[1]))
    return "%s:%s" % ("xyz"[c] if kind == "origin" else "q" + "xyz"[c], nid(key))


def slots(d):
    out = {}
    for n in d.nodes():
        for name in ("x", "y", "z", "qx", "qy", "qz"):
            out["%s:%s" % (name, nid(n))] = fixed(d.node_attribute(n, name), XU)
    for u, v in d.edges():
        for name in ("length", "force"):
            out["%s:%s-%s" % (name, nid(u), nid(v))] = fixed(d.edge_attribute((u, v), name), XU)
    return out


def rest(d, masked):
    """Everything but the values of the parametrised slots, exactly."""
    out = everything(d)
    for n, attrs in out["nodes"]:
        for kv in attrs:
            if "%s:%s" % (kv[0], n) in masked:
                kv[1] = "*"
    for u, v, attrs in out["edges"]:
        for kv in attrs:
            if "%s:%s-%s" % (kv[0], u, v) in masked:
                kv[1] = "*"
    out.pop("lookups")
    return text(out)


def put(d, p, value):
    kind, key, c = p[:3]
    if kind in ("length", "force"):
        d.edge_attribute(key, kind, value)
    else:
        d.node_attribute(key, ("x", "y", "z")[c] if kind == "origin" else ("qx", "qy", "qz")[c], value)


def take(d, p):
    kind, key, c = p[:3]
    if kind in ("length", "force"):
        return float(d.edge_attribute(key, kind))
    return float(d.node_attribute(key, ("x", "y", "z")[c] if kind == "origin" else ("qx", "qy", "qz")[c]))


# ------------------------------------------------------------------------------
# oracles
# ------------------------------------------------------------------------------

def closest_on_segment(p, a, b, clamp=True):
    d = b - a
    t = float(np.dot(p - a, d) / np.dot(d, d))
    if clamp:
        t = min(1.0, max(0.0, t))
    return a + t * d


def achieved(form, g):
    """Achieved quantity and nearest target of a goal."""
    kind, key, t, w = g

    def xyz(n):
        return np.array([float(c) for c in form.node_coordinates(n)])
    if kind in ("length", "force"):
        if kind == "length":
            a = [float(np.linalg.norm(xyz(key[0]) - xyz(key[1])))]
        else:
            a = [float(form.edge_attribute(key, "force"))]
        return a, [t]
    if kind == "reaction":
        return [float(c) for c in form.reaction_force(key)], t
    if kind == "direction":
        a = xyz(key[1]) - xyz(key[0])
        a = a / np.linalg.norm(a)
        b = np.array(t) / np.linalg.norm(t)
        return list(a), list(b if np.linalg.norm(a - b) <= np.linalg.norm(a + b) else -b)
    p = xyz(key)
    if kind == "point":
        b = np.array(t)
    elif kind == "line":
        b = closest_on_segment(p, np.array(t[0]), np.array(t[1]), False)
    elif kind == "plane":
        n = np.array(t[1]) / np.linalg.norm(t[1])
        b = p - np.dot(p - np.array(t[0]), n) * n
    else:
        cands = [closest_on_segment(p, np.array(a), np.array(b)) for a, b in zip(t, t[1:])]
        b = min(cands, key=lambda c: np.linalg.norm(c - p))
    return list(p), list(b)


def healthy(form, floor=0.05):
    """Is the form away from everything singular?"""
    for e in form.edges():
        a, b = (np.array([float(c) for c in form.node_coordinates(n)]) for n in e)
        if np.linalg.norm(a - b) < floor or np.linalg.norm(a - b) > 30:
            return False
        if form.edge_attribute(e, "type") == "trail" and abs(float(form.edge_attribute(e, "force"))) < floor:
            return False
    return True


def values(form):
    return space.values_of(form)


# ------------------------------------------------------------------------------
# recording
# ------------------------------------------------------------------------------

def start(rng, opts):
    """A structure with a healthy form, or None."""
    s = space.random_structure(rng, **dict({"trails": (1, 3), "length": (2, 4), "devs": (0, 4), "planes": 0.1, "alike": 0.35}, **opts.get("structure", {})))
    d, keys = space.realise(s, rng)
    tmax, eta = rng.choice(opts.get("limits", [(100, 1e-6), (60, 1e-7), (100, 1e-4)]))
    form, err = space.attempt(space.find_form, d, "py", tmax=tmax, eta=eta)
    if form is None or not healthy(form) or not ref.steady(s, tmax, eta, rng.randrange(1 << 30)):
        return None
    return s, d, keys, tmax, eta


def unit_of(fs):
    m = max([abs(f) for f in fs if math.isfinite(f)] + [1e-6])
    return 1e8 / m


class Result(object):
    """What solve_proxy returns, under the names of the optimizer."""

    def __init__(self, d, pars, out):
        self.same_topology = out[0] is d
        self.penalty, self.gradient_norm, self.evals, self.time_opt, self.status = out[2:]
        self.x_opt = None if self.penalty is None else [take(d, p) for p in pars]
        self.gradient = None


DEFAULTS = {"algorithm": "SLSQP", "grad": "AD", "step_size": 1e-6, "iters": 100, "eps": 1e-6, "kappa": 1e-8, "tmax": 100, "eta": 1e-6, "verbose": False}


def run(rng, o, d, pars, goals, algorithm, tmax, eta, opts, name, verbose=None):
    """One call of solve (or of solve_proxy if there is no optimizer), recorded."""
    iters = rng.choice(opts.get("iters", [1, 2, 3, 5, 10, 25, 60]))
    eps = rng.choice(opts.get("eps", [None, 1e-6, 1e-3, 0.3, 5.0]))
    kappa = rng.choice(opts.get("kappa", [1e-8, 1e-8, 1e-4, None]))
    end = rng.choice(["failure", nlopt.ROUNDOFF_LIMITED, nlopt.MAXTIME_REACHED]) if rng.random() < opts.get("ends", 0.1) else None
    grad = "FD" if rng.random() < opts.get("fd", 0.15) and o is not None else "AD"
    masked = {slot(p) for p in pars}
    line = {"first": True, "crash": "", "same": [], "goals": [], "fform": 0, "what": [name, algorithm, iters, eps, kappa, grad, tmax, eta]}
    before, rest0 = slots(d), rest(d, masked)
    line["start"] = {"edges": sorted([list(e), d.edge_attribute(e, "type"), take(d, ["length", e, 0]), take(d, ["force", e, 0])] for e in d.edges()),
                     "pars": [str(p) for p in pars], "goals": [str(g) for g in goals]}
    recorder.clear()
    if end:
        recorder.END.append(end)
    form = None
    old = None if o is None else o.x_opt
    kw = {"algorithm": algorithm, "iters": iters, "eps": eps, "kappa": kappa, "tmax": tmax, "eta": eta}
    if o is not None:
        kw.update({"grad": grad, "step_size": 1e-6, "verbose": rng.random() < 0.1 if verbose is None else verbose})
    if opts.get("bare", rng.random() < 0.3):
        kw = {k: v for k, v in kw.items() if v is None or v != DEFAULTS[k] or o is None and k in ("algorithm", "iters")}
    try:
        if o is None:
            with quiet():
                out = solve_proxy(d, [make_goal(g) for g in goals], [make_par(p) for p in pars], kw.pop("algorithm"), kw.pop("iters"), **kw)
            form, o = out[1], Result(d, pars, out)
            line["same"].append({"name": "proxy.topology", "got": str(o.same_topology), "want": "True"})
        else:
            with quiet():
                form = o.solve(d, **kw)
        ended = "reported" if o.x_opt is not None and o.x_opt is not old else "failed"
    except Exception as e:
        # a candidate without a form; a form finding that fails is not the optimizer's fault
        cause = recorder.ERRORS[0] if recorder.ERRORS else e
        if not isinstance(cause, ValueError) or not recorder.ERRORS and not recorder.LOG:
            line["crash"] = "%s: %s" % (type(cause).__name__, cause)
            return line, None
        if not recorder.LOG:
            return None, None      # not even a first evaluation
        ended = "noform"
    log = list(recorder.LOG)
    if ended != "reported" and o is not None:
        line["same"].append({"name": "reuse.stale", "got": text([o.x_opt, o.penalty, o.evals, o.gradient_norm, o.status]), "want": text([None] * 5)})
    if any(not math.isfinite(f) for _, f, _ in log[1:]):
        return None, None      # the search went through a singular point
    unit = unit_of([f for _, f, _ in log])
    line["P"] = {"pars": [{"slot": slot(p), "low": [] if p[3] is None else [fixed(p[3], XU)], "up": [] if p[4] is None else [fixed(p[4], XU)]} for p in pars],
                 "iters": iters, "eps": [], "slack": 0 if algorithm in ("SLSQP", "MMA") else 30, "late": 0 if algorithm in ("SLSQP", "MMA") else 30,
                 "calm": kappa is not None and algorithm != "AUGLAG" and kappa > 100 * max(abs(f) for _, f, _ in log)}
    line["code"] = recorder.CODES[-1] if recorder.CODES else 0
    line["before"], line["after"] = before, slots(d)
    line["rest"] = [rest0, rest(d, masked)]
    line["tried"] = [{"x": [fixed(v, XU) for v in x], "f": fixed(f, unit), "hit": eps is not None and f <= eps} for x, f, _ in log]
    line["ended"] = ended
    line["report"] = {"x": [], "f": 0, "evals": 0, "hit": False, "status": ""}
    if ended == "reported":
        line["report"] = {"x": [fixed(v, XU) for v in o.x_opt], "f": fixed(o.penalty, unit), "evals": int(o.evals),
                          "hit": eps is not None and o.penalty <= eps, "status": str(o.status)}
    if ended != "noform":
        after(line, o, d, form, pars, goals, tmax, eta, grad, rng)
    return line, form


def after(line, o, d, form, pars, goals, tmax, eta, grad, rng):
    """The returned form, the reported objective and gradient belong to the topology that was left."""
    same = line["same"]
    mine, err = space.attempt(space.find_form, d.copy(), "py", tmax=tmax, eta=eta)
    same.append({"name": "form.outcome", "got": str(form is not None), "want": str(mine is not None)})
    if mine is None or form is None:
        return
    same.append({"name": "form.keys", "got": text([sorted(form.nodes()), sorted(form.edges())]), "want": text([sorted(mine.nodes()), sorted(mine.edges())])})
    if sorted(form.nodes()) != sorted(mine.nodes()) or sorted(form.edges()) != sorted(mine.edges()):
        return
    ns, es = sorted(mine.nodes()), sorted(mine.edges())

    def digest(f):
        out = []
        for n in ns:
            out += [float(c) for c in f.node_coordinates(n)] + [float(c) for c in f.reaction_force(n)] + [float(c) for c in f.node_load(n)]
        for e in es:
            out += [float(f.edge_attribute(e, "force")), float(f.edge_attribute(e, "length"))]
        return out
    if space.unit_for(digest(mine)) is None or not healthy(mine, 1e-3):
        return
    same.append(space.compare("form.values", digest(form), digest(mine)))
    if line["ended"] != "reported":
        return
    again = evaluate(d.copy(), [make_goal(g) for g in goals], [make_par(p[:3] + [None, None]) for p in pars], "again", grad, tmax=tmax, eta=eta)
    if again["crash"]:
        same.append({"name": "penalty.again", "got": again["crash"], "want": ""})
        return
    scale = 1e7 / max(1.0, abs(o.penalty))
    x, f, g = recorder.LOG[0]
    same.append({"name": "penalty.again", "got": [fixed(o.penalty, scale)], "want": [fixed(f, scale)], "tol": 50})
    gs = 1e6 / max([1.0] + [abs(v) for v in g])
    # finite differences are noisy
    tol = 20 if grad == "AD" else 2000 + int(1e6 * 1e-9 * max(1.0, abs(f)) / 1e-6)
    if o.gradient is not None:
        same.append({"name": "gradient.reported", "got": [fixed(v, gs) for v in o.gradient], "want": [fixed(v, gs) for v in g], "tol": tol})
        g, tol = o.gradient, 3
    same.append({"name": "gradient.norm", "got": [fixed(o.gradient_norm, gs)], "want": [fixed(math.sqrt(sum(v * v for v in g)), gs)], "tol": 2 * tol})
    if o.penalty < 2000 and eta <= 1e-6:
        pairs = [(achieved(form, q), q[3]) for q in goals]
        most = max(abs(x - y) for (a, b), w in pairs for x, y in zip(a, b))
        if most < 20:
            # the unit is that of the largest error; the form is known up to the threshold
            total = sum(w * (x - y) ** 2 for (a, b), w in pairs for x, y in zip(a, b))
            unit = min(20000.0 / max(most, 1e-9), 1.0 / eta, math.sqrt(2e9 / max(total, o.penalty, 1e-12)))
            line["goals"] = [{"w2": int(round(2 * w)), "a": [fixed(x - y, unit) for x, y in zip(a, b)], "b": [0] * len(a)} for (a, b), w in pairs]
            line["fform"] = fixed(o.penalty, unit * unit / 100)


def fill(o, rng, d, pars, goals):
    """Add the goals and parameters; others come and go in between."""
    fake = random_problem(rng, d)
    junk = [[o.add_constraint, make_goal(g), True] for g in fake[1]] + [[o.add_parameter, make_par(p), False] for p in fake[0]]
    todo = [[o.add_constraint, make_goal(g), None] for g in goals] + [[o.add_parameter, make_par(p), None] for p in pars]
    drop = []
    for add, thing, goal in todo:
        while junk and rng.random() < 0.15:
            add2, other, goal2 = junk.pop()
            add2(other)
            drop.append((goal2, max(o.constraints if goal2 else o.parameters)))
        add(thing)
        if drop and rng.random() < 0.5:
            remove(o, drop.pop(0))
    rng.shuffle(drop)
    for x in drop:
        remove(o, x)


def remove(o, entry):
    goal, key = entry
    (o.remove_constraint if goal else o.remove_parameter)(key)


def record(args):
    idx, opts = args
    rng = random.Random(SEED * 122949823 + idx + 30000000 * opts.get("offset", 0))
    try:
        st = start(rng, opts)
        if st is None:
            return []
        s, d, keys, tmax, eta = st
        z = rng.randrange(1 << 30)
        d = space.realise(s, random.Random(z), keys)[0]
        form, err = space.attempt(space.find_form, d, "py", tmax=tmax, eta=eta)
        pars, goals = random_problem(rng, d, dict(opts, form=form))
        o = Optimizer()
        fill(o, rng, d, pars, goals)
        algorithm = rng.choice(opts.get("algorithms", ALGORITHMS))
        lines = []
        if opts.get("proxy") and rng.random() < 0.25:
            line, form = run(rng, None, d, pars, goals, algorithm, tmax, eta, opts, "proxy")
            return [] if line is None else [line]
        for k in range(2 if rng.random() < opts.get("twice", 0.3) else 1):
            line, form = run(rng, o, d, pars, goals, algorithm, tmax, eta, opts, "run%d" % k)
            if line is None:
                break
            lines.append(line)
            if line["crash"] or line["ended"] != "reported":
                break
            algorithm = rng.choice(opts.get("algorithms", ALGORITHMS))
            if rng.random() < 0.5:      # the same problem on another topology
                other = space.revise(s, rng, ["loads", "values", "origins", "all"])[1]
                d = space.realise(other, random.Random(z), keys)[0]
                form, err = space.attempt(space.find_form, d, "py", tmax=tmax, eta=eta)
                if form is None or not healthy(form) or not ref.steady(other, tmax, eta, z):
                    break
        return lines
    except Exception as e:
        import traceback
        return [{"first": True, "crash": "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-500:])}]


# ------------------------------------------------------------------------------
# optimizers, goals and parameters that were used before
# ------------------------------------------------------------------------------

def deed(rng, kind, o, objs, build, s, tmax, eta):
    """Something that was done with the optimizer, or with its goals and parameters; whether it succeeds does not matter."""
    other = space.revise(s, rng, ["loads", "values", "origins", "all"])[1]
    algorithm, iters = rng.choice(ALGORITHMS), rng.choice([1, 2, 5, 20])
    if kind == "shared":
        o = Optimizer()
        for thing, goal in rng.sample(objs, len(objs)):
            (o.add_constraint if goal else o.add_parameter)(thing)
    try:
        d = build(s if kind == "same" else other)
        kw = {"algorithm": algorithm, "iters": iters, "tmax": tmax, "eta": eta, "grad": rng.choice(["AD", "AD", "FD"]),
              "eps": rng.choice([None, 1e-6, 1e-2, 5.0]), "kappa": rng.choice([None, 1e-8, 1e-3])}
        if kind == "refused":
            kw[rng.choice(["algorithm", "grad"])] = "NONE"
        elif kind == "noform":
            kw.update({"tmax": 2, "eta": -1.0})
        with quiet():
            o.solve(d, **kw)
    except Exception:
        pass


def reuse(args):
    """The same problem solved with fresh objects, and with objects that have a history."""
    idx, opts = args
    rng = random.Random(SEED * 86028157 + idx + 30000000 * opts.get("offset", 0))
    try:
        st = start(rng, opts)
        if st is None:
            return []
        s, _, keys, tmax, eta = st
        z, z2 = rng.randrange(1 << 30), rng.randrange(1 << 30)

        def build(desc):
            return space.realise(desc, random.Random(z), keys)[0]
        d1, d2 = build(s), build(s)
        pars, goals = random_problem(rng, d1, opts)
        algorithm = rng.choice(opts.get("algorithms", ALGORITHMS))
        proxy = rng.random() < opts.get("proxy", 0)

        def fresh():
            objs = [(make_goal(g), True) for g in goals] + [(make_par(p), False) for p in pars]
            o = Optimizer()
            for thing, goal in objs:
                (o.add_constraint if goal else o.add_parameter)(thing)
            return o, objs
        o1, _ = fresh()
        o1 = None if proxy else o1
        line, form1 = run(random.Random(z2), o1, d1, pars, goals, algorithm, tmax, eta, dict(opts, bare=False), "fresh", verbose=False)
        if line is None or line["crash"]:
            return []
        o2, objs = fresh()
        before = [seen(thing, d2) for thing, _ in objs]
        books = [list(o2.constraints.items()), list(o2.parameters.items())]
        deeds = [rng.choice(["other", "other", "same", "shared", "refused", "noform"]) for _ in range(rng.randint(1, 3))]
        if opts.get("new"):
            deeds = []
        for kind in deeds:
            deed(rng, kind, o2, objs, build, s, tmax, eta)
        line["what"].append(deeds)
        line["same"] += [{"name": "reuse.objects", "got": text([seen(thing, d2) for thing, _ in objs]), "want": text(before)},
                        {"name": "reuse.books", "got": str([list(o2.constraints.items()), list(o2.parameters.items())] == books), "want": "True"}]
        o2 = None if proxy else o2
        line2, form2 = run(random.Random(z2), o2, d2, pars, goals, algorithm, tmax, eta, opts, "reused", verbose=not opts.get("new"))
        none = {"ended": "none", "tried": [], "report": line["report"], "after": {}}
        if line2 is not None:
            line["same"] += [x for x in line2["same"] if x["name"] == "reuse.stale"]
        line["twin"] = none if line2 is None or line2["crash"] else {k: line2[k] for k in none}
        if form1 is not None and form2 is not None and space.unit_for(values(form1)) is not None:
            line["same"].append(space.compare("reuse.form", values(form2), values(form1)))
        return [line]
    except Exception as e:
        import traceback
        return [{"first": True, "crash": "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-500:])}]


# ------------------------------------------------------------------------------
# derivatives
# ------------------------------------------------------------------------------

def passes(d, eta, most=300):
    """The least number of passes with which the form is found."""
    low, up = 1, most
    while up - low > 1:
        mid = (low + up) // 2
        form, err = space.attempt(space.find_form, d, "py", tmax=mid, eta=eta)
        low, up = (low, mid) if form is not None else (mid, up)
    return up


def lucky(d, pars, eta):
    """Do the positions converge sooner than those of the neighbours? Then their derivatives lag behind (known finding)."""
    n = passes(d, eta)
    for p in pars:
        t = d.copy()
        put(t, p, take(d, p) + 1e-4)
        if passes(t, eta) > n + 2:
            return True
    return False


def has_form(d, p, step, tmax, eta):
    t = d.copy()
    put(t, p, take(d, p) + step)
    return space.attempt(space.find_form, t, "np", tmax=tmax, eta=eta)[0] is not None


def displaced(d, goals, v):
    """Move everything away from the origin of the world."""
    def by(p):
        return [float(a) + b for a, b in zip(p, v)]
    for n in d.nodes():
        d.node_xyz(n, by(d.node_coordinates(n)))
    for e in d.edges():
        plane = d.edge_attribute(e, "plane")
        if plane:
            d.edge_attribute(e, "plane", (by(plane[0]), list(plane[1])))
    how = {"point": by, "line": lambda t: [by(p) for p in t], "polyline": lambda t: [by(p) for p in t], "plane": lambda t: [by(t[0]), t[1]]}
    return [[kind, key, how.get(kind, lambda t: t)(t), w] for kind, key, t, w in goals]


def derivative(args):
    """Gradients against differences of the objective."""
    idx, opts = args
    rng = random.Random(SEED * 141650939 + idx + 30000000 * opts.get("offset", 0))
    line = {"first": True, "runs": [], "same": []}
    far = 1
    try:
        if opts.get("given"):
            s, keys, pars, goals = opts["given"]
            d, tmax, eta = space.realise(s, None, keys, shuffle=False, flip=False)[0], 300, 1e-11
        else:
            st = start(rng, dict(opts, limits=[(300, 1e-11)]))
            if st is None:
                return None
            s, d, keys, tmax, eta = st
            pars, goals = random_problem(rng, d, opts)
            if rng.random() < opts.get("far", 0):
                goals, eta, far = displaced(d, goals, [rng.choice([0.0, -4096.0, 1024.0, 8192.0]) for _ in range(3)]), 1e-9, 100
            if space.attempt(space.find_form, d, "np", tmax=tmax, eta=eta)[0] is None:
                return None
        line["what"] = {"structure": s, "keys": keys, "pars": [str(p) for p in pars], "goals": [str(g) for g in goals]}
        gs = [make_goal(g) for g in goals]
        ps = [make_par(p) for p in pars]
        kw = {"tmax": tmax, "eta": eta}

        def f_at(p, v):
            t = d.copy()
            put(t, p, v)
            out = evaluate(t, gs, ps[:1], **kw)
            if out["crash"]:
                raise ArithmeticError(out["crash"])
            return recorder.LOG[0][1]

        def grad(method, **more):
            t = d.copy()
            out = evaluate(t, gs, ps, grad=method, **dict(kw, **more))
            if out["crash"]:
                raise RuntimeError(out["crash"])
            line["same"].append({"name": method + ".topology", "got": out["after"], "want": out["before"]})
            return recorder.LOG[0][1], recorder.LOG[0][2]
        f0, ad = grad("AD")
        central, steady, bend = [], [], []
        for p in pars:
            x = take(d, p)
            try:
                d1, d2 = [(f_at(p, x + h) - f_at(p, x - h)) / (2 * h) for h in (1e-4, 1e-5)]
                d3 = (f_at(p, x + 1e-3) - f0) / 1e-3
            except ArithmeticError:
                d1, d2, d3 = 0.0, 1e9, 0.0
            central.append(d2)
            bend.append(abs(d3 - d2))
            steady.append(abs(d1 - d2) <= 1e-5 * max(1.0, abs(d2)) and bend[-1] <= max(1.0, abs(d2)))
        use = [j for j in range(len(pars)) if steady[j] and abs(central[j]) < 1e4]
        line["steady"] = len(use)
        scale = 1e6 / max([1.0] + [abs(central[j]) for j in use])

        def cmp(name, g, tol):
            line["same"].append({"name": name + ".size", "got": [len(g)], "want": [len(pars)], "tol": 0})
            if len(g) == len(pars):
                line["same"].append({"name": name, "got": [fixed(g[j], scale) for j in use], "want": [fixed(central[j], scale) for j in use], "tol": tol})
        off = any(abs(fixed(ad[j], scale) - fixed(central[j], scale)) > 100 for j in use if len(ad) == len(pars))
        if opts.get("given") or not off or not lucky(d, pars, eta):
            cmp("AD.gradient", ad, 100 if far == 1 else 500)
        for step in rng.sample([1e-7, 1e-6, 1e-5, 1e-4], 2):
            if not all(has_form(d, p, step, tmax, eta) for p in pars):
                continue      # a neighbour has no form
            _, fd = grad("FD", step_size=step)
            noise = 1e-12 * far * max(1.0, abs(f0)) / step
            curve = max([bend[j] * step / 1e-3 for j in use] + [0.0])
            cmp("FD.gradient", fd, int(100 + scale * (noise + 2 * curve)))
    except ArithmeticError:
        return None
    except Exception as e:
        line["runs"].append({"name": "gradient", "crash": "%s: %s" % (type(e).__name__, e), "ok": False})
    return line


STATUS = {1: "NLOPT_SUCCESS", 2: "NLOPT_EPSVAL_REACHED", 3: "NLOPT_FTOL_REACHED", 4: "NLOPT_XTOL_REACHED", 5: "NLOPT_ITERSMAX_REACHED",
          6: "NLOPT_MAXTIME_REACHED", -4: "NLOPT_ROUNDOFF_LIMITED", -1: "None"}


def walk(args):
    """Evaluations in any order, some next to each other or repeated: each is what a new optimizer computes at that point."""
    idx, opts = args
    rng = random.Random(SEED * 160481183 + idx + 30000000 * opts.get("offset", 0))
    line = {"first": True, "runs": [], "same": []}
    try:
        st = start(rng, {"limits": [(100, 1e-6), (200, 1e-9)]})
        if st is None:
            return None
        s, d, keys, tmax, eta = st
        pars, goals = random_problem(rng, d, opts)
        pars = [p[:3] + [None, None] for p in pars]
        method, step = rng.choice(["AD", "AD", "FD"]), rng.choice([1e-6, 1e-5])
        x0 = [take(d, p) for p in pars]
        steps = [[0.0] * len(pars)]
        for _ in range(rng.randint(3, 6)):
            size = rng.choice([0.0, 1e-9, 1e-7, 1e-5, 1e-3, 0.05, 0.3])
            base = rng.choice(steps)
            steps.append([b + size * rng.uniform(-1, 1) for b in base])
        kw = {"tmax": tmax, "eta": eta, "grad": method, "step_size": step}
        want = []
        for st in steps:
            t = d.copy()
            for p, x, dx in zip(pars, x0, st):
                put(t, p, x + dx)
            out = evaluate(t, [make_goal(g) for g in goals], [make_par(p) for p in pars], **kw)
            if out["crash"]:
                return None      # no form
            want.append(recorder.LOG[0])
        if not all(math.isfinite(v) and abs(v) < 1e6 for _, f, g in want for v in [f] + g):
            return None
        line["what"] = {"structure": s, "keys": list(keys), "pars": [str(p) for p in pars], "goals": [str(g) for g in goals], "steps": steps, "solve": str(kw)}
        o, t = Optimizer(), d.copy()
        fill(o, rng, t, pars, goals)
        recorder.clear()
        recorder.SCRIPT.extend(steps)
        end = rng.choice(sorted(STATUS))
        recorder.END.append(end if end != -1 else "failure")
        with quiet():
            form = o.solve(t, algorithm=rng.choice(ALGORITHMS), verbose=False, **kw)
        log = list(recorder.LOG)
        recorder.clear()
        same = line["same"]
        same.append({"name": "walk.status", "got": str(o.status), "want": STATUS[end]})
        # the nodes are found where they were left
        moved = sorted({p[1] for p in pars if p[0] == "origin"})
        places = [t.node_coordinates(n) for n in moved]
        apart = [n for n, a in zip(moved, places)
                 if all(max(abs(x - y) for x, y in zip(a, t.node_coordinates(m))) > 0.01 for m in t.nodes() if m != n)]
        same.append({"name": "walk.place", "got": text([t.node_key(t.node_coordinates(n)) for n in apart]), "want": text(apart)})
        mine, err = space.attempt(space.find_form, t.copy(), "py", tmax=tmax, eta=eta)
        same.append({"name": "walk.outcome", "got": str(form is not None), "want": str(mine is not None)})
        if mine is not None and form is not None and space.unit_for(values(mine)) is not None:
            same.append(space.compare("walk.form", values(form), values(mine)))
        for (x, f, g), (x1, f1, g1) in zip(want, log):
            fs, gs = 1e8 / max(1.0, abs(f)), 1e7 / max([1.0] + [abs(v) for v in g])
            # another order of summation, or the rounding of x0 + dx
            noise = int(1e-7 * gs * 1e-5 / step) if method == "FD" else 0
            same.append({"name": "walk.value", "got": [fixed(f1, fs)], "want": [fixed(f, fs)], "tol": 10})
            same.append({"name": "walk.gradient", "got": [fixed(v, gs) for v in g1], "want": [fixed(v, gs) for v in g], "tol": 10 + noise})
        line["steady"] = len(steps)
        if end == -1:
            left = [fixed(take(t, p), XU) for p in pars]
            same.append({"name": "walk.left", "got": str(any(left == [fixed(v, XU) for v in x] for x, _, _ in log)), "want": "True"})
            return line
        best = min(range(len(log)), key=lambda i: log[i][1])
        x, f, g = log[best]
        same.append({"name": "walk.report", "got": [fixed(v, XU) for v in list(o.x_opt) + [take(t, p) for p in pars]] + [int(o.evals)],
                     "want": [fixed(v, XU) for v in x + x] + [len(steps)], "tol": 0})
        same.append({"name": "walk.penalty", "got": [fixed(o.penalty, 1e8 / max(1.0, abs(f)))], "want": [fixed(f, 1e8 / max(1.0, abs(f)))], "tol": 1})
        gs = 1e7 / max([1.0] + [abs(v) for v in want[best][2]])
        same.append({"name": "walk.gradient", "got": [fixed(v, gs) for v in o.gradient], "want": [fixed(v, gs) for v in want[best][2]],
                     "tol": 10 + (int(1e-7 * gs * 1e-5 / step) if method == "FD" else 0)})
    except Exception as e:
        import traceback
        line["runs"].append({"name": "walk", "crash": "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-300:]), "ok": False})
    finally:
        recorder.clear()
    return line


# ------------------------------------------------------------------------------
# judging
# ------------------------------------------------------------------------------

def model(report, scratch, iters=3):
    res = run_tlc("CemSearchMC.tla", "CemSearchMC.cfg", scratch, constants={"MaxIters": str(iters)})
    tlc_must_pass(res, "CemSearchMC")
    report.model(res, "CemSearchMC")


def judge_runs(report, scratch, count, opts, clauses, name, how=record):
    recs = pool_map(how, [(i, opts) for i in range(count)])
    lines = [line for r in recs for line in r]
    slim = [{k: v for k, v in line.items() if k not in ("what", "start")} for line in lines]
    res = judge("CemSearchTrace", slim, scratch, name)
    report.states += res["states"]
    report.transitions += res["transitions"]
    report.traces += len(lines)
    report.steps += sum(len(line.get("tried", [])) + len(line.get("same", [])) for line in lines)
    ends = {}
    for line in lines:
        k = "%s %s" % (line["what"][1], line.get("ended", "crash")) if "what" in line else "crash"
        ends[k] = ends.get(k, 0) + 1
    report.notes["trace:" + name] = {"optimizations": len(lines), "evaluations": sum(len(line.get("tried", [])) for line in lines), "ends": ends}
    for at, bad in res["bad"]:
        for clause in bad:
            if clauses(clause):
                short = dict(lines[at])
                for k in ("before", "after", "rest"):
                    if clause != "frame":
                        short.pop(k, None)
                short["same"] = [x for x in short.get("same", []) if x["name"] == clause]
                report.violation(clause, {"campaign": name, "line": short})
    if lines and len(report.samples) < 5:
        mid = lines[len(lines) // 2]
        report.samples.append({"campaign": name, "run": {k: mid.get(k) for k in ("what", "start", "report")}})
    return lines


# an unloaded first node: the positions converge at once, the derivatives with respect to its load do not (known finding)
UNLOADED = ({"nodes": [{"xyz": [0.0, 0.0, 0.0], "q": [0.0, 0.0, 0.0]}, {"xyz": [0.0, 0.0, -1.0], "q": [0.0, 0.0, -1.0]}, {"xyz": [0.0, 0.0, -2.0], "q": [0.0, 0.0, 0.0]}],
             "trails": [[0, 1, 2]], "shift": [0],
             "edges": [{"a": 0, "b": 1, "t": "trail", "val": 1.0, "plane": None}, {"a": 1, "b": 2, "t": "trail", "val": 1.0, "plane": None},
                       {"a": 0, "b": 2, "t": "deviation", "val": -0.25, "plane": None}]},
            [0, 1, 2], [["load", 0, 0, None, None]], [["point", 2, [1.0, 0.0, -2.0], 1.0]])


def judge_derivatives(report, scratch, count, opts, clauses, name, how=None):
    recs = pool_map(how or derivative, [(i, opts) for i in range(count)])
    if opts.get("given"):
        recs[0]["what"]["instance"] = name
    lines = [r for r in recs if r is not None]
    slim = [{k: line[k] for k in ("first", "runs", "same")} for line in lines]
    res = judge("CemStaticsTrace", slim, scratch, name)
    report.states += res["states"]
    report.transitions += res["transitions"]
    report.traces += len(lines)
    report.steps += sum(len(line["same"]) for line in lines)
    report.notes["trace:" + name] = {"problems": len(lines), "derivatives": sum(line.get("steady", 0) for line in lines)}
    for at, bad in res["bad"]:
        for clause in bad:
            if clauses(clause):
                short = dict(lines[at])
                short["same"] = [x for x in short["same"] if x["name"] == clause]
                report.violation(clause, {"campaign": name, "line": short})
    if lines and len(report.samples) < 5:
        report.samples.append({"campaign": name, "problem": lines[len(lines) // 2].get("what")})
    return lines
