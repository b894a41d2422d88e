"""C24: drawings."""
import random

import plots
from common import SEED, tier


def C24(report, scratch):
    def c(clause):
        return True
    insts = plots.model_instances(report, scratch)
    n = tier(1500, 12000)
    if len(insts) > n:
        insts = random.Random(SEED).sample(insts, n)
    plots.judge_drawings(report, scratch, insts, c, "model")
    plots.judge_drawings(report, scratch, [{"what": "form" if i % 2 else "topology", "i": i} for i in range(tier(700, 6000))], c, "random")
