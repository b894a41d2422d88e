"""C15, C17 - C22: optimization and meshes."""
import random

import book
import goals
import mesh
import opt
from common import SEED, tier


def named(*names):
    def pred(clause):
        return clause == "crash" or any(clause == n or clause.startswith(n + ".") for n in names)
    return pred


def walked(*names):
    def pred(clause):
        return "crash" in clause or clause in ["walk." + n for n in names]
    return pred


def C15(report, scratch):
    def c(clause):
        return clause.startswith(("restored.", "original.", "copy.", "setup.")) or clause == "crash"
    goals.model(report, scratch)
    goals.judge_lines(report, scratch, tier(300, 5000), {"roundtrip": True}, c, "lattice")


def C17(report, scratch):
    c = named("frame", "box", "start", "proxy.topology")
    opt.model(report, scratch, tier(3, 4))
    opt.judge_runs(report, scratch, tier(1600, 25000), {"proxy": True}, c, "mixed")
    opt.judge_runs(report, scratch, tier(700, 12000), {"tight": True, "twice": 0.6, "offset": 1}, c, "tight")
    book.judge_histories(report, scratch, histories(tier(60, 500), 17), named("vector.low", "vector.up"), "bounds")


def C18(report, scratch):
    c = named("limit", "threshold", "left", "reported", "worse", "hit", "evals", "status", "calm", "goals", "form", "penalty", "gradient")
    opt.model(report, scratch, tier(3, 4))
    opt.judge_runs(report, scratch, tier(1800, 30000), {"proxy": True, "offset": 2}, c, "mixed")
    opt.judge_runs(report, scratch, tier(700, 12000), {"iters": [1, 2, 3, 4, 6], "twice": 0.6, "fd": 0.3, "offset": 3}, c, "short")
    opt.judge_runs(report, scratch, tier(250, 4000), {"iters": [100], "eps": [None], "kappa": [1e9], "offset": 7}, c, "calm")
    o = {"iters": [100], "eps": [1e-6], "kappa": [1e-8], "limits": [(100, 1e-6)], "algorithms": ["SLSQP", "SLSQP", "LBFGS"], "bare": True, "new": True, "proxy": 0.4,
         "weights": [1.0, 1e-4, 1e-5, 1e-6, 1e-7], "ends": 0.0, "fd": 0.1, "offset": 8}
    opt.judge_runs(report, scratch, tier(200, 3000), o, lambda clause: clause == "crash" or clause.startswith("reuse."), "bare", how=opt.reuse)
    opt.judge_derivatives(report, scratch, tier(150, 3000), {"offset": 1}, walked("report", "penalty", "form", "status", "outcome", "left"), "walks", how=opt.walk)


def C19(report, scratch):
    def c(clause):
        return clause == "crash" or clause.endswith((".objective", ".crash"))
    goals.model(report, scratch)
    goals.judge_lines(report, scratch, tier(1500, 25000), {"offset": 1}, c, "lattice")
    opt.judge_runs(report, scratch, tier(700, 12000), {"iters": [1, 3, 8], "goals": 6, "offset": 4}, named("goals", "penalty"), "space")
    opt.judge_derivatives(report, scratch, tier(150, 3000), {"offset": 2}, walked("value"), "walks", how=opt.walk)


def C20(report, scratch):
    def c(clause):
        return clause == "crash" or ".crash" in clause or ".gradient" in clause or clause.endswith(".topology") or clause.startswith("gradient")
    goals.model(report, scratch)
    goals.judge_lines(report, scratch, tier(500, 10000), {"smooth": ["shape", "force"], "grads": ["AD", "FD"], "offset": 2}, c, "lattice")
    opt.judge_derivatives(report, scratch, tier(500, 6000), {}, c, "space")
    opt.judge_derivatives(report, scratch, tier(150, 2000), {"far": 1.0, "offset": 4}, c, "far")
    opt.judge_derivatives(report, scratch, 1, {"given": opt.UNLOADED}, c, "unloaded-first-node")
    opt.judge_runs(report, scratch, tier(400, 6000), {"iters": [1, 2, 5], "fd": 0.3, "offset": 5}, named("gradient"), "optima")
    opt.judge_derivatives(report, scratch, tier(300, 6000), {}, walked("gradient"), "walks", how=opt.walk)


def histories(count, salt, length=40):
    rng = random.Random(SEED * 32452843 + salt)
    return [book.random_history(rng, length) for _ in range(count)]


def C21(report, scratch):
    everything = lambda clause: True    # noqa: E731
    hs = book.model_histories(report, scratch, tier(4, 5))
    book.judge_histories(report, scratch, hs, everything, "model")
    book.judge_histories(report, scratch, histories(tier(200, 4000), 21), everything, "random")
    book.judge_histories(report, scratch, histories(tier(20, 300), 22, 150), everything, "long")


def C22(report, scratch):
    everything = lambda clause: True    # noqa: E731
    insts = mesh.model_instances(report, scratch, tier([1012, 1013, 1014, 1015, 1016, 1017, 1022, 1023, 1024, 1033, 1025, 2023, 2024, 2033],
                                                       [1012, 1013, 1014, 1015, 1016, 1017, 1018, 1019, 1022, 1023, 1024, 1025, 1026, 1033, 1034, 2023, 2024,
                                                        2025, 2033, 2034, 3044, 3035]))
    mesh.judge_instances(report, scratch, insts, everything, "model")
    rng = random.Random(SEED * 49979687)
    mesh.judge_instances(report, scratch, [mesh.random_system(rng) for _ in range(tier(3000, 60000))], everything, "random")


def C27(report, scratch):
    opt.model(report, scratch, tier(3, 4))
    o = {"iters": [1, 2, 3, 4], "eps": [None, 1e-6, 0.3], "weights": [0.5, 1.0, 1.0, 3.0, 0.01, 5000.0], "offset": 6}
    opt.judge_runs(report, scratch, tier(900, 15000), o, lambda clause: clause.startswith("reuse."), "reused", how=opt.reuse)
