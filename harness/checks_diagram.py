"""C06 - C14: topology diagrams as state machines."""
import random

import opt        # before anything that imports compas_cem
import dia
from common import SEED, pool_map, tier
from dia import starts


def offset(n):
    """Histories differ between tiers and seeds."""
    return n + 1000000 * (SEED % 997)


def stories(report, scratch, count, opts, clauses, name):
    hs = pool_map(dia.story, [(offset(i), opts) for i in range(count)])
    dia.judge_lines(report, scratch, hs, clauses, name)
    return hs


def graph_campaign(report, scratch, n, kinds, opts, clauses, name, sample=None, keep=None):
    gs = dia.graphs(report, scratch, n, kinds)
    if keep:
        gs = [g for g in gs if keep(g)]
    if sample and len(gs) > sample:
        gs = random.Random(SEED).sample(gs, sample)
    hs = pool_map(dia.replay_graph, [(i, g, opts) for i, g in enumerate(gs)])
    dia.judge_lines(report, scratch, hs, clauses, name)


def model_campaign(report, scratch, profile, depth, opts, clauses, sample=None):
    hs = dia.model_histories(report, scratch, profile, depth)
    if sample and len(hs) > sample:
        hs = random.Random(SEED).sample(hs, sample)
    rec = pool_map(dia.replay_model, [(i, profile, h, opts) for i, h in enumerate(hs)])
    dia.judge_lines(report, scratch, rec, clauses, "model:%s:%d" % (profile, depth))


def deep_model(report, scratch, profile, depth):
    """Deeper exploration of the model alone."""
    dia.model_histories(report, scratch, profile, depth, emit=False)


def candidate(g):
    """Topologies that may be valid: each node is touched by a trail edge and there are supports."""
    nodes = {n for e in g["t"] for n in e}
    return len(nodes) == g["n"] and g["s"] and len(g["t"]) < g["n"]


BASE = {"addNode": 1, "move": 1, "addTrail": 1, "addDev": 2, "delEdge": 1, "undoEdge": 1, "addSupport": 1,
        "addLoad": 1, "build": 4, "buildaux": 2, "shift": 2, "json": 1, "copy": 1, "solve": 1, "setaux": 1}


def weights(**kw):
    w = dict(BASE)
    w.update(kw)
    return {k: v for k, v in w.items() if v}


def C06(report, scratch):
    c = starts("build.", "buildaux.", "solve.refused")
    graph_campaign(report, scratch, 3, ("none", "trail", "deviation"), {"ops": ["build", "shift", "build"]}, c, "graphs3")
    graph_campaign(report, scratch, 4, ("none", "trail", "deviation"), {"ops": ["build", "build"]}, c, "graphs4", keep=candidate)
    if tier(False, True):
        graph_campaign(report, scratch, 5, ("none", "trail"), {"ops": ["build", "build"]}, c, "graphs5", keep=candidate)
    model_campaign(report, scratch, "trail", tier(3, 4), {}, c)
    big = {"weights": weights(addTrail=0, delEdge=0, addNode=0), "trails": (1, 5), "length": (2, 7), "devs": 8, "plan": 1.0, "steps": 4}
    stories(report, scratch, tier(400, 6000), big, c, "stories:plans")
    stories(report, scratch, tier(100, 2000), {"weights": weights()}, c, "stories:edits")
    stories(report, scratch, tier(12, 120), dict(big, trails=(1, 3), length=(60, 140), devs=30, steps=2, planned=True), c, "stories:long")


def C07(report, scratch):
    c = starts("build.accepted", "build.failed", "buildaux.accepted", "buildaux.failed", "build.refused", "buildaux.refused",
               "solve.accepted", "solve.failed", "shift.accepted", "shift.failed")
    ops = ["solve", "build", "solve", "buildaux"]
    graph_campaign(report, scratch, 3, ("none", "trail", "deviation"), {"ops": ops}, c, "graphs3")
    graph_campaign(report, scratch, 4, ("none", "trail", "deviation"), {"ops": ["build", "buildaux"]}, c, "graphs4", sample=tier(6000, None))
    if tier(False, True):
        graph_campaign(report, scratch, 5, ("none", "trail"), {"ops": ops}, c, "graphs5")
    model_campaign(report, scratch, "trail", tier(3, 4), {}, c)
    w = weights(addTrail=4, delEdge=3, addSupport=3, build=6, buildaux=3, addNode=2, solve=2)
    stories(report, scratch, tier(250, 5000), {"weights": w, "steps": 18}, c, "stories:invalid")


def C08(report, scratch):
    c = starts("shift.", "build.", "q.direct", "q.indirect", "q.deviation_predicates", "q.connected_", "q.sequence", "q.node_sequence",
               "q.edge_sequence", "q.trail_sequences", "q.sequences", "q.deviation_counters", "fresh.", "solve.", "shifted.")
    model_campaign(report, scratch, "trail", tier(4, 5), {"queries": False}, c, sample=tier(2500, 20000))
    graph_campaign(report, scratch, 4, ("none", "trail", "deviation"),
                   {"ops": ["shift", "build", "shift", "shift", "build", "shift", "buildaux", "shift"], "queries": True}, c, "graphs4",
                   keep=candidate, sample=tier(400, None))
    w = weights(shift=10, build=3, addTrail=0, delEdge=0, addSupport=0, setaux=0, addNode=0, buildaux=0)
    stories(report, scratch, tier(100, 2500), {"weights": w, "queries": True, "plan": 1.0, "steps": 12}, c, "stories:shift")

    from checks_statics import shifted, suffix
    shifted(report, scratch, suffix("accepted", "refused", "positions", "forces", "reactions", "lengths"))


def C09(report, scratch):
    c = starts("q.")
    graph_campaign(report, scratch, 4, ("none", "trail", "deviation"), {"ops": ["build", "shift", "buildaux"], "queries": True}, c,
                   "graphs4", sample=tier(1200, None))
    stories(report, scratch, tier(160, 4000), {"weights": weights(), "queries": True, "steps": 16, "probes": 2}, c, "stories:queries")
    stories(report, scratch, tier(40, 600), {"weights": weights(addTrail=0, delEdge=0), "queries": True, "steps": 6, "probes": 0, "plan": 1.0,
                                             "trails": (2, 4), "length": (2, 6), "devs": 10}, c, "stories:large")


def C10(report, scratch):
    c = starts("buildaux.", "build.", "q.aux_edges", "q.is_auxiliary", "q.counters", "json.auxiliary", "copy.auxiliary")
    graph_campaign(report, scratch, 3, ("none", "trail", "deviation"), {"ops": ["buildaux", "build", "buildaux", "json", "buildaux"], "queries": True}, c, "graphs3")
    graph_campaign(report, scratch, 4, ("none", "trail", "deviation"), {"ops": ["buildaux", "build", "buildaux"]}, c, "graphs4", sample=tier(3000, None))
    model_campaign(report, scratch, "trail", tier(3, 4), {}, c)
    w = weights(buildaux=8, setaux=4, addNode=4, build=3)
    stories(report, scratch, tier(200, 4000), {"weights": w, "queries": True, "steps": 14, "probes": 3}, c, "stories:auxiliary")


def C11(report, scratch):
    c = starts("fresh.", "rebuild.", "build.", "buildaux.", "addSupport.", "addEdge.", "delEdge.")
    model_campaign(report, scratch, "trail", tier(4, 5), {"fresh": True}, c, sample=tier(3000, 30000))
    w = weights(undoEdge=4, shift=3, delEdge=3, addTrail=3, addNode=2)
    stories(report, scratch, tier(350, 8000), {"weights": w, "fresh": True, "steps": 16, "probes": 3}, c, "stories:history")

    from checks_statics import edited
    edited(report, scratch, ["extend", "deviations", "shifts", "every"], "space:edited")


def C12(report, scratch):
    def c(clause):
        return clause == "crash" or ".lookup" in clause or clause.startswith(("addNode.", "addEdge.", "move.", "delNode.", "raw.", "optimize.", "form.", "q.node_values"))
    model_campaign(report, scratch, "lookup", tier(3, 4), {}, c)
    deep_model(report, scratch, "lookup", tier(4, 5))
    w = weights(addNode=6, move=6, back=2, raw=1, delNode=1, addPointEdge=8, addSupport=2, addLoad=2, build=1, buildaux=1, shift=0, undoEdge=0, setaux=0)
    o = {"weights": w, "near": True, "tols": ["3f", "2f", "1f"], "plan": 0.5, "steps": 20}
    stories(report, scratch, tier(300, 7000), o, c, "stories:positions")
    stories(report, scratch, tier(60, 1500), dict(o, tols=["4f"], weights=dict(w, buildaux=0)), c, "stories:fine")
    o3 = {"weights": weights(optimize=6, move=2, raw=0, addNode=1, addTrail=0, delEdge=0, addSupport=0, shift=0, undoEdge=0), "plan": 1.0, "steps": 8}
    stories(report, scratch, tier(100, 1500), o3, c, "stories:optimized")
    o2 = {"weights": weights(addNode=1, move=4, addDev=1, build=4, delEdge=0, addTrail=0, addSupport=0), "formlook": True, "plan": 1.0, "steps": 4}
    stories(report, scratch, tier(150, 2000), o2, c, "stories:forms")
    # searches that end in any way, also by failing
    opt.judge_derivatives(report, scratch, tier(100, 2000), {"offset": 3}, lambda clause: "crash" in clause or clause == "walk.place", "walks", how=opt.walk)


def C13(report, scratch):
    c = starts("addLoad.", "addSupport.")
    model_campaign(report, scratch, "load", tier(4, 5), {}, c, sample=tier(None, 40000))
    w = weights(addLoad=10, addSupport=8, addNode=3, move=3, addPointEdge=2, build=2)
    stories(report, scratch, tier(300, 8000), {"weights": w, "near": True, "steps": 20, "plan": 0.6}, c, "stories:loads")


def C14(report, scratch):
    def c(clause):
        return True
    model_campaign(report, scratch, "trail", tier(3, 4), {"roundtrip": True}, c)
    w = weights(json=6, copy=6, shift=3, buildaux=3, addPointEdge=2, optimize=2)
    stories(report, scratch, tier(160, 4000), {"weights": w, "fresh": False, "queries": True, "steps": 16, "probes": 6, "plan": 0.9, "twin": True, "near": True,
                                              "tols": ["3f", "3f", "2f", "1f", "4f"]}, c, "stories:copies")
    stories(report, scratch, tier(80, 1500), {"weights": weights(), "steps": 6, "probes": 4, "plan": 1.0, "formtrip": True, "tols": ["3f", "2f", "1f"]}, c, "stories:forms")
