"""Servers and searches of the Grasshopper front end, judged by CemProxy.tla."""
import random
import sys

import front
from common import SEED, judge, pool_map, quiet, run_tlc, tlc_must_pass
from dia import everything, text

OPS = ["start", "stop", "both", "idle", "search", "fail", "unsolved", "forget"]


def model(report, scratch, depth):
    res = run_tlc("CemProxyMC.tla", "CemProxyMC.cfg", scratch, constants={"EMIT": "TRUE", "DEPTH": str(depth)})
    tlc_must_pass(res, "CemProxyMC")
    report.model(res, "CemProxyMC")
    return sorted({tuple(x["h"]) for x in res["lines"]})


def problem(rng):
    """A topology, parameters and goals made by components, and what the library makes of them."""
    import compas
    from compas_cem.optimization import solve_proxy
    from opt import make_goal, make_par, random_problem, start
    got = None
    while got is None:
        got = start(rng, {})
    d = got[1]
    pars, goals = random_problem(rng, d, {"pars": 2, "goals": 2})
    c = compas.json_loads(compas.json_dumps({"topology": d.copy(), "constraints": [make_goal(g) for g in goals], "parameters": [make_par(p) for p in pars]}))
    with quiet():
        want = solve_proxy(algorithm="SLSQP", iters=2, eps=1e-6, kappa=1e-8, tmax=100, eta=1e-6, **c)
    return d, [front.par_component(p) for p in pars], [front.goal_component(g, rng) for g in goals], summary(want)


def summary(res):
    topology, form, objective, _, evals, _, status = res
    return text([everything(topology), everything(form), repr(float(objective)), int(evals), str(status)])


def history(args):
    idx, h = args
    rng = random.Random(SEED * 32452843 + idx)
    lines = []
    try:
        front.stand_in()
        if h is None:
            h = [rng.choice(OPS + ["search", "fail", "start"]) for _ in range(rng.randint(4, 12))]
        h = list(h)
        made, error = None, None
        for _ in range(40):
            try:
                made = problem(rng)
                break
            except Exception as e:
                error = e         # not a problem that can be solved at all
        if made is None:
            raise error
        d, pars, goals, want = made
        sticky = sys.modules["scriptcontext"].sticky
        sticky.clear()
        front.Rpc.reset()
        main = set()
        for n, op in enumerate(h):
            line = {"h": h[:n + 1], "crash": "", "ok": True, "result": "", "want": ""}
            before = len(front.Rpc.moves)
            front.Rpc.served = []
            try:
                if op in ("start", "stop", "both", "idle"):
                    off = rng.choice([None, False])
                    front.run("Proxy", start=True if op in ("start", "both") else off, stop=True if op in ("stop", "both") else off)
                    main |= {port for what, port in front.Rpc.moves[before:] if what == "start"}
                elif op == "forget":
                    sticky.clear()
                else:
                    cs = list(goals)
                    if op == "fail":
                        cs.append(front.run("ConstraintNodePoint", node_key=987654, point=front.Foreign([0.0, 0.0, 0.0])))
                    if op == "search":
                        line["want"] = want
                    res = front.run("ConstrainedFormFinding", solve=op != "unsolved", topology=d, constraints=cs, parameters=pars,
                                    algorithm=None, iters_max=2, eps=None, kappa=None, tmax=None, eta=None)
                    line["result"] = "" if res is None else front.rounded_alike(summary(res), line["want"])
            except Exception as e:
                line["ok"] = False
                line["error"] = "%s: %s" % (type(e).__name__, e)
            line["running"] = sorted({"main" if port in main else "own" for port in front.Rpc.servers})
            line["moved"] = len(front.Rpc.moves) != before
            line["served"] = "" if not front.Rpc.served else "main" if set(front.Rpc.served) <= main else "own"
            lines.append(line)
    except Exception as e:
        import traceback
        lines.append({"h": ["idle"], "crash": "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-400:])})
    return lines


def judge_histories(report, scratch, items, name):
    histories = pool_map(history, list(enumerate(items)))
    lines = [line for h in histories for line in h]
    res = judge("CemProxyTrace", lines, scratch, name)
    report.states += res["states"]
    report.transitions += res["transitions"]
    report.traces += len(histories)
    report.steps += len(lines)
    report.notes["trace:" + name] = {"histories": len(histories), "steps": len(lines)}
    if histories and len(report.samples) < 5:
        report.samples.append({"campaign": name, "steps": histories[len(histories) // 2][-1]["h"]})
    for at, bad in res["bad"]:
        for clause in bad:
            report.violation(clause, {"campaign": name, "line": lines[at]})
