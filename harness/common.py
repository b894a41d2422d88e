"""Shared machinery: running TLC, collecting verdicts, writing evidence."""
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO_SRC = "/repo/src"
TLC_JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))

NAN = 1050000000      # fixed-point stand-in for values that are not finite numbers
BIG = 1000000000      # fixed-point stand-in for values beyond the range of TLC integers


def tier(quick, thorough):
    return thorough if TIER == "thorough" else quick


def fixed(x, unit=10000):
    """A number as a fixed-point integer; never fails."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return NAN
    if not math.isfinite(x):
        return NAN
    v = int(round(x * unit))
    if abs(v) > BIG:
        return BIG if v > 0 else -BIG
    return v


def fixed3(xyz, unit=10000):
    try:
        xyz = list(xyz)
    except TypeError:
        return [NAN, NAN, NAN]
    if len(xyz) != 3:
        return [NAN, NAN, NAN]
    return [fixed(c, unit) for c in xyz]


class MachineryError(Exception):
    """The check itself failed: neither a pass nor a violation."""


class Scratch(object):
    """A scratch directory that is removed at the end."""

    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="cemverif-")

    def file(self, name):
        return os.path.join(self.path, name)

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


def run_tlc(module, cfg, scratch, env=None, workers=None, timeout=800, heap="6g", extra=(), constants=None):
    """Run TLC on a module of the specification; returns its parsed output."""
    meta = tempfile.mkdtemp(prefix="meta-", dir=scratch.path)
    cfgpath = os.path.join(SPEC, cfg)
    if constants:
        text = open(cfgpath).read()
        for name, value in constants.items():
            text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % name, lambda m: m.group(1) + value, text)
            if n != 1:
                raise MachineryError("constant %s not in %s" % (name, cfg))
        cfgpath = os.path.join(meta, cfg)
        open(cfgpath, "w").write(text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", TLC_JAR, "tlc2.TLC",
           "-metadir", meta, "-config", cfgpath, "-workers", str(workers or WORKERS),
           "-noGenerateSpecTE", *extra, os.path.join(SPEC, module)]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s" % module)
    out = p.stdout
    shutil.rmtree(meta, ignore_errors=True)
    res = {"rc": p.returncode, "out": out, "wall": time.time() - t0, "lines": []}
    for line in out.splitlines():
        if line.startswith('"{') and line.endswith('}"'):
            try:
                res["lines"].append(json.loads(json.loads(line)))
            except ValueError:
                raise MachineryError("unreadable TLC output: " + line[:200])
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        m = re.search(r"(\d+) states generated", out)
    res["states"] = int(m.group(2)) if m and m.lastindex > 1 else 0
    res["transitions"] = int(m.group(1)) if m else 0
    res["ok"] = "Model checking completed. No error has been found." in out or \
                ("Progress" in out and p.returncode == 0)
    return res


def tlc_must_pass(res, what):
    """The specification itself has to satisfy its properties."""
    if not res["ok"]:
        tail = "\n".join(l for l in res["out"].splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")))
        raise MachineryError("TLC did not accept %s:\n%s" % (what, tail[-3000:]))
    return res


class Malformed(Exception):
    """The code under test produced something that the specification cannot even read."""

    def __init__(self, what, text):
        super(Malformed, self).__init__(what)
        self.what = what
        self.text = text


def error_text(out):
    lines = [line for line in out.splitlines() if not line.startswith(("Parsing", "Semantic", "Linting", '"{'))]
    return "\n".join(lines)[-2500:]


def is_evaluation_error(out):
    if "OutOfMemory" in out or "StackOverflow" in out:
        return False
    return any(text in out for text in ("Attempted to", "evaluating the expression", "is not in the domain", "CHOOSE x", "Overflow when computing"))


def write_ndjson(path, records):
    n = 0
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
            n += 1
    return n


def judge(module, records, scratch, what, env=None, chunk=40000, workers=None):
    """Validate recorded steps with a trace specification.

    Returns the number of judged lines, states, transitions and a list of
    (index, violated clauses).
    """
    records = list(records)
    bad, states, trans = [], 0, 0
    start = 0
    while start < len(records):
        # do not separate the lines of a history
        stop = min(len(records), start + chunk)
        while stop < len(records) and not records[stop].get("first", True):
            stop += 1
        path = scratch.file("trace.ndjson")
        write_ndjson(path, records[start:stop])
        e = {"TRACE": path}
        e.update(env or {})
        res = run_tlc(module + ".tla", module + ".cfg", scratch, env=e, workers=workers)
        if not res["ok"] and is_evaluation_error(res["out"]):
            # an observation of the code that is no state of the specification at all
            raise Malformed(what, error_text(res["out"]))
        tlc_must_pass(res, what)
        for v in res["lines"]:
            bad.append((start + v["at"] - 1, sorted(v["bad"])))
        states += res["states"]
        trans += res["transitions"]
        start = stop
        os.remove(path)
    return {"judged": len(records), "states": states, "transitions": trans, "bad": bad}


class Report(object):
    """Accumulates what a check covered and found."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.violations = []
        self.notes = {}
        self.assumptions = []

    def model(self, res, name):
        self.states += res["states"]
        self.transitions += res["transitions"]
        self.notes["model:" + name] = {"states": res["states"], "transitions": res["transitions"]}

    def violation(self, clause, detail):
        self.violations.append({"clause": clause, "detail": detail})

    def finish(self, level="model_checking"):
        known = load_known(self.prop)
        new, listed = [], []
        for v in self.violations:
            hit = next((k for k in known if k["clause"] == v["clause"] and k["match"] in json.dumps(v["detail"], sort_keys=True)), None)
            if hit:
                listed.append(hit["text"])
            else:
                new.append(v)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "steps_validated_against_impl": self.steps,
               "samples": self.samples[:5], "detail": self.notes}
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for text in sorted(set(listed)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        if new:
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".json")
            with open(path, "w") as f:
                json.dump(new[:20], f, indent=1, default=str)
            clauses = {}
            for v in new:
                clauses[v["clause"]] = clauses.get(v["clause"], 0) + 1
            for c, n in sorted(clauses.items()):
                print("  clause %s violated %d time(s)" % (c, n))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d steps=%d wall=%.1fs" % (
            self.prop, self.states, self.transitions, self.traces, self.steps, time.time() - self.t0))
        return 0


def load_known(prop):
    """Entries 'finding: property=<id> clause=<clause> match=<text> :: <what fails>' of KNOWN_FINDINGS.txt."""
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) clause=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append({"clause": m.group(2), "match": m.group(3), "text": m.group(4)})
    return out


def import_repo():
    sys.dont_write_bytecode = True
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    import warnings
    warnings.simplefilter("ignore")


class quiet(object):
    """Silence what the code under test prints."""

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *exc):
        sys.stdout.close()
        sys.stdout = self.old


def pool_map(func, items, procs=None, chunksize=None):
    """Parallel map in forked processes; keeps the order."""
    import multiprocessing as mp
    items = list(items)
    procs = procs or WORKERS
    if procs == 1 or len(items) < 4:
        return [func(i) for i in items]
    ctx = mp.get_context("fork")
    with ctx.Pool(procs) as pool:
        return pool.map(func, items, chunksize or max(1, len(items) // (procs * 4)))
