"""C25: the Grasshopper front end. C26: scenes of the viewer. C28: servers of searches."""
import random

import front
import plots
import proxy
import scenes
from common import SEED, tier


def C25(report, scratch):
    def c(clause):
        return True
    hs = front.model(report, scratch, 2)
    n = tier(400, 1200)
    if len(hs) > n:
        hs = random.Random(SEED).sample(hs, n)
    front.judge_canvases(report, scratch, front.replay, hs, c, "model")
    front.judge_canvases(report, scratch, front.random_canvas, range(tier(600, 6000)), c, "canvases")
    front.judge_canvases(report, scratch, front.draw, [{"what": "form" if i % 2 else "topology"} for i in range(tier(800, 8000))], c, "artists")
    front.judge_canvases(report, scratch, front.search, range(tier(150, 1500)), c, "optimization")
    front.judge_canvases(report, scratch, front.fittings, range(1), c, "fittings")


def C26(report, scratch):
    def c(clause):
        return True
    insts = plots.model_instances(report, scratch)
    n = tier(1200, 12000)
    if len(insts) > n:
        insts = random.Random(SEED).sample(insts, n)
    scenes.judge_scenes(report, scratch, insts, c, "model")
    scenes.judge_scenes(report, scratch, [{"what": "form" if i % 2 else "topology", "i": i} for i in range(tier(1000, 8000))], c, "random")


def C28(report, scratch):
    hs = proxy.model(report, scratch, tier(3, 5))
    n = tier(512, 6000)
    if len(hs) > n:
        hs = random.Random(SEED).sample(hs, n)
    proxy.judge_histories(report, scratch, hs, "model")
    proxy.judge_histories(report, scratch, [None] * tier(150, 2000), "random")
