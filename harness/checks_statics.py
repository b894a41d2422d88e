"""C01 - C05, C16, C23: form finding."""
import random

import line
import space
from common import SEED, tier


def suffix(*names):
    """Clauses of runs, named <run>.<clause>."""
    def pred(clause):
        rest = clause.split(".", 1)[1] if "." in clause else clause
        return rest == "crash" or clause == "crash" or any(rest == n or rest.startswith(n + ".") or clause.startswith(n) for n in names)
    return pred


def instances(count, salt, **kw):
    rng = random.Random(SEED * 1299709 + salt)
    return [line.random_instance(rng, **kw) for _ in range(count)]


def sample(insts, count):
    if count and len(insts) > count:
        return random.Random(SEED).sample(insts, count)
    return insts


def C01(report, scratch):
    c = suffix("balance", "reaction.place", "global", "finite", "values", "reactions", "refused")
    insts = line.model_instances(report, scratch, "pairs")
    line.judge_lines(report, scratch, sample(insts, tier(600, None)), {}, c, "line:model")
    line.judge_lines(report, scratch, instances(tier(500, 15000), 1, kmax=False), {}, c, "line:random")
    space.judge_lines(report, scratch, tier(500, 15000), {"structure": {"degenerate": 0.15, "scales": 0.3, "idle": 0.05}}, c, "space")
    space.judge_lines(report, scratch, tier(40, 800), {"structure": {"trails": (3, 8), "length": (3, 8), "devs": (5, 20), "shifts": 0.5, "scales": 0.2}}, c, "space:large")


def C02(report, scratch):
    c = suffix("honoured", "keys", "origins", "loads", "supports", "connectivity", "deviation", "trail", "stored", "lengths", "finite", "values",
               "reaction.place")
    insts = line.model_instances(report, scratch, "planes")
    line.judge_lines(report, scratch, sample(insts, tier(800, 12000)), {}, c, "line:model")
    line.judge_lines(report, scratch, instances(tier(600, 15000), 2), {}, c, "line:random")
    space.judge_lines(report, scratch, tier(500, 15000), {"structure": {"degenerate": 0.2, "planes": 0.5, "scales": 0.3}}, c, "space:planes")
    space.judge_lines(report, scratch, tier(300, 8000), {"structure": {"degenerate": 0.2, "planes": 0.0, "scales": 0.3, "idle": 0.1}}, c, "space:lengths")


def C03(report, scratch):
    def c(clause):
        return clause.startswith(("agree.", "np.")) or clause == "crash" or clause.endswith(".crash")
    def agree(clause):
        return clause.startswith("agree.") or clause == "crash" or clause.endswith(".crash")
    insts = line.model_instances(report, scratch, "pairs")
    line.judge_lines(report, scratch, sample(insts, tier(500, None)), {}, c, "line:model")
    line.judge_lines(report, scratch, instances(tier(900, 20000), 3, kmax=False), {}, c, "line:random")
    space.judge_lines(report, scratch, tier(500, 15000), {"agree": True, "structure": {"degenerate": 0.5, "planes": 0.3, "scales": 0.3, "idle": 0.05}}, agree, "space:converged")
    space.judge_lines(report, scratch, tier(300, 8000), {"agree": True, "tmax": [1, 2, 3, 5], "eta": [1e-6, 1e-3, 0.1, 0.5, 2.0],
                                                         "structure": {"degenerate": 0.2, "scales": 0.3}, "offset": 7}, agree, "space:limits")


def C04(report, scratch):
    c = suffix("accepted", "refused", "passes", "positions", "forces", "reactions")
    insts = line.model_instances(report, scratch, "pairs")
    line.judge_lines(report, scratch, sample(insts, tier(700, None)), {}, c, "line:model")
    insts = line.model_instances(report, scratch, "planes")
    line.judge_lines(report, scratch, sample(insts, tier(400, 10000)), {}, c, "line:planes")
    line.judge_lines(report, scratch, instances(tier(1500, 40000), 4, kmax=False), {}, c, "line:random")
    rng = random.Random(SEED + 44)
    many = instances(tier(400, 10000), 44, kmax=False, planes=False)
    for inst in many:
        inst["tmax"] = rng.choice([0, 1, 2, 3, 5, 8, 13])
        inst["eta2"] = rng.choice([0, 1, 2, 3, 4, 5, 7, 9, 13, 21, 41])
    line.judge_lines(report, scratch, many, {"embeddings": (True,)}, c, "line:limits")
    many = [i for i in instances(tier(500, 10000), 45, kmax=False) if i["dev"]]
    line.judge_lines(report, scratch, many, {"embeddings": (True,), "bare": True}, c, "line:bare")


def C05(report, scratch):
    c = suffix("beyond", "kmax", "balance", "reaction.place", "positions", "forces", "reactions", "accepted", "refused", "values", "finite", "honoured")
    insts = [i for i in line.model_instances(report, scratch, "planes") if i["kmax"] >= 0]
    line.judge_lines(report, scratch, sample(insts, tier(900, 15000)), {}, c, "line:model")
    insts = instances(tier(2500, 40000), 5)
    line.judge_lines(report, scratch, [i for i in insts if i["kmax"] >= 0], {}, c, "line:random")

    def only_kmax(clause):
        return clause.startswith("kmax.") or clause == "crash"
    space.judge_lines(report, scratch, tier(250, 8000), {"kmax": True, "structure": {"degenerate": 0.1, "scales": 0.3}}, only_kmax, "space")


def C16(report, scratch):
    def c(clause):
        return clause.startswith("pure.") or clause == "crash" or clause.endswith((".topology", ".again", ".shared", ".aliased", ".later", ".crash"))
    insts = line.model_instances(report, scratch, "pairs")
    line.judge_lines(report, scratch, sample(insts, tier(150, 3000)), {"pure": True}, c, "line:model")
    line.judge_lines(report, scratch, instances(tier(400, 8000), 16), {"pure": True}, c, "line:random")
    space.judge_lines(report, scratch, tier(250, 6000), {"pure": True, "revise": space.EDITS, "structure": {"degenerate": 0.2, "planes": 0.4}}, c, "space")


def C23(report, scratch):
    def c(clause):
        return clause.startswith("moves.") or clause == "crash" or clause.endswith((".crash", ".positions", ".forces", ".reactions", ".lengths", ".accepted", ".refused"))
    insts = line.model_instances(report, scratch, "pairs")
    emb = {"embeddings": (True, False, True, False)}
    line.judge_lines(report, scratch, sample(insts, tier(300, 5000)), emb, c, "line:model")
    line.judge_lines(report, scratch, instances(tier(300, 8000), 23), emb, c, "line:random")
    space.judge_lines(report, scratch, tier(350, 10000), {"moves": True, "structure": {"planes": 0.25}}, c, "space")


def shifted(report, scratch, clauses):
    """Form finding after shifting trails (C08)."""
    insts = [i for i in instances(tier(1500, 30000), 8, kmax=False) if any(t["s"] for t in i["trails"])]
    line.judge_lines(report, scratch, insts, {}, clauses, "line:shifted")
    edited(report, scratch, ["shifts"], "space:shifted")


def edited(report, scratch, parts, name):
    """Form finding before and after edits of the same diagram (C08, C11)."""
    space.judge_lines(report, scratch, tier(150, 3000), {"revise": parts, "offset": 7}, lambda clause: clause.startswith(("pure.revised", "revised.")), name)
