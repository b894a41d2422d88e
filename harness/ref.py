"""
A plain rendering of the specification's passes, in floating-point numbers.

It judges nothing. It only tells which random structures have a form that rounding errors do not change (steady), and
which have one form whatever the order of their trails (one_form): passes over
deviation edges between different sequences may end at different forms, or at none, depending on that order, and what
the code then returns cannot be compared across orders. Being independent of the code, it hides no defect of the code.
"""
import math
import random


def norm(v):
    return math.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])


def unit(v):
    n = norm(v)
    return [c / n for c in v] if n else v


def passes(s, order, tmax, eta, eps=0.0, rng=None):
    """Positions and forces after the passes, or None where they do not settle."""
    nodes = s["nodes"]

    def shake():
        return 1 + eps * (rng.choice([-3, -2, -1, 1, 2, 3]) if rng else 1)
    pos = [[c * shake() for c in n["xyz"]] for n in nodes]
    load = [[c / shake() for c in n["q"]] for n in nodes]
    seq, trail, last = {}, {}, set()
    for t, sh in zip(s["trails"], s["shift"]):
        last.add(t[-1])
        for j, i in enumerate(t):
            seq[i] = sh + j
    devs = {i: [] for i in range(len(nodes))}
    for e in s["edges"]:
        if e["t"] == "trail":
            trail[e["a"], e["b"]] = trail[e["b"], e["a"]] = e
        else:
            devs[e["a"]].append((e["b"], e["val"]))
            devs[e["b"]].append((e["a"], e["val"]))
    force, resid = {}, [[0.0] * 3 for _ in nodes]
    klast = max(seq.values())
    t = distance = 0
    for t in range(tmax):
        before = list(pos)
        for k in range(klast + 1):
            for ti in order:
                tr, sh = s["trails"][ti], s["shift"][ti]
                if not sh <= k < sh + len(tr):
                    continue
                i = tr[k - sh]
                r = [resid[i][c] - load[i][c] for c in range(3)]
                for j, f in devs[i]:
                    if seq[j] == k or t:
                        d = unit([pos[j][c] - pos[i][c] for c in range(3)])
                        r = [r[c] - f * d[c] for c in range(3)]
                if i in last:
                    force[i] = norm(r)
                    continue
                n = tr[k - sh + 1]
                e = trail[i, n]
                length, d = e["val"], unit(r)
                if e["plane"]:
                    o, nrm = e["plane"]
                    nrm = unit(nrm)
                    cos = sum(nrm[c] * d[c] for c in range(3))
                    if abs(cos) >= 1e-6:
                        length = sum(nrm[c] * (o[c] - pos[i][c]) for c in range(3)) / cos or length
                pos[n] = [pos[i][c] + length * d[c] for c in range(3)]
                force[i, n] = math.copysign(norm(r), length)
                resid[n] = r
        if t:
            distance = sum(norm([a - b for a, b in zip(p, q)]) for p, q in zip(pos, before))
            if distance < eta:
                break
    if t and distance > eta:
        return None
    out = [c / s.get("size", 1.0) for p in pos for c in p] + [force[k] / s.get("strength", 1.0) for k in sorted(force, key=str)]
    return out if all(math.isfinite(v) for v in out) else None


def one_form(s, tmax, eta, seed, orders=8):
    """Do the passes end at the same form, or at none, for every order of the trails?"""
    rng = random.Random(seed)
    if not any(e["t"] == "deviation" for e in s["edges"]):
        return True
    n = len(s["trails"])
    want = None
    for i in range(orders):
        order = list(range(n))
        rng.shuffle(order)
        got = passes(s, order, tmax, eta, 1e-13 * (i % 3))
        if i and (got is None) != (want is None):
            return False
        if i and got is not None and max(abs(a - b) for a, b in zip(got, want)) > 1e-7 * max(1.0, max(abs(a) for a in want)):
            return False
        want = want if i else got
    # nor is it a close call whether the passes settle
    for share, factor in ((0.8, 0.3), (1.3, 3.0)):
        if (passes(s, list(range(n)), max(1, int(share * tmax)), factor * eta) is None) != (want is None):
            return False
    return True


def steady(s, tmax, eta, seed=None):
    """Do rounding errors leave the form, or that there is none, as it is? Without a seed, loads that cancel still do."""
    rng = None if seed is None else random.Random(seed)
    order = list(range(len(s["trails"])))
    want = passes(s, order, tmax, eta)
    for i in range(4 if rng else 8):
        got = passes(s, order, tmax, eta, 1e-13 if rng else 1e-13 * (i + 1), rng)
        if (got is None) != (want is None):
            return False
        if got is not None and max(abs(a - b) for a, b in zip(got, want)) > 1e-7 * max(1.0, max(abs(a) for a in want)):
            return False
    return True
