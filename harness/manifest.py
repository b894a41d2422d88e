"""Writes MANIFEST.json (python3 harness/manifest.py); run by hand when the claims change."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "TLA+: CemStatics/Cem1D equilibrium clauses; TLC enumerates 1D topologies, replays them in both solvers and judges recorded random 3D forms",
    "C02": "TLA+: CemStatics/Cem1D prescription clauses; TLC-enumerated instances replayed and random 3D forms judged by TLC",
    "C03": "TLA+: both solvers conform to the exact integer machine Cem1D; random 3D runs of the two solvers compared by TLC",
    "C04": "TLA+: Cem1D pass/convergence machine (TLC: bounded passes, termination) replayed exactly in both solvers",
    "C05": "TLA+: Cem1D with a last sequence, replayed; TLC judges partial 3D forms against the full ones",
    "C06": "TLA+: CemGraphs (all small topologies) and CemDiagram histories from TLC replayed in the real code, traces judged by TLC",
    "C07": "TLA+: CemGraphs declarative validity vs. constructive build for all small graphs, replayed; failure atomicity judged per step",
    "C08": "TLA+: CemDiagram shift actions, TLC histories replayed and random histories judged; shifted Cem1D form finding",
    "C09": "TLA+: queries specified as functions of the CemDiagram state, recorded after every step and judged by TLC",
    "C10": "TLA+: CemDiagram auxiliary builds, TLC histories and graphs replayed, steps judged by TLC",
    "C11": "TLA+: CemDiagram build is a function of the projected state; histories with failed builds and fresh twins judged by TLC",
    "C12": "TLA+: CemDiagram lookup by tolerance cells, TLC histories replayed, random histories judged by TLC",
    "C13": "TLA+: CemDiagram load/support actions with frame conditions, TLC histories replayed and judged",
    "C14": "TLA+: copy/serialization as stuttering steps of CemDiagram, twins driven through further histories, judged by TLC",
    "C15": "TLA+: serialization as a stuttering step of CemGoals objects; objectives of restored problems judged by TLC",
    "C16": "TLA+: form finding as a stuttering step on the topology, before/after states of real runs judged by TLC",
    "C17": "TLA+: CemSearch machine (TLC model checked); recorded evaluation histories of the real optimizer judged by TLC",
    "C18": "TLA+: CemSearch machine (TLC model checked); recorded optimizations of the real code judged by TLC as behaviours of it",
    "C19": "TLA+: CemGoals computes form and weighted squared goal errors of lattice topologies exactly; replayed in the real optimizer",
    "C20": "TLA+: exact derivatives of the CemGoals objective, and differences of recorded objectives, against the recorded gradients, judged by TLC",
    "C21": "TLA+: CemBook machine explored by TLC, all histories replayed in the real Optimizer, steps judged by TLC",
    "C22": "TLA+: CemMesh conversion over all small grids and supports enumerated by TLC, replayed in the real code and judged",
    "C23": "TLA+: Cem1D embedded along arbitrary motions and scales; transformed 3D runs compared by TLC",
    "C24": "TLA+: CemPlot layer machine (TLC model checked over a family of diagrams and all options), replayed in the real artists; canvases judged by TLC",
    "C25": "TLA+: CemFront specifies artists and components of the Grasshopper front end (TLC model checked), replayed with stand-ins for Rhino; outputs judged by TLC",
    "C26": "TLA+: CemFront/CemSceneTrace specify the viewer scene of a diagram; scenes recorded with a stand-in viewer judged by TLC",
    "C27": "TLA+: a search of CemSearch is a function of the problem; recorded searches with used and new optimizers, constraints and parameters compared step by step by TLC (SameRun)",
    "C28": "TLA+: CemProxy machine of kept and temporary servers (TLC model checked, all short histories), replayed in the real components with a stand-in for the server; histories judged by TLC",
}
LEVEL_NOTE = "TLC explores the specification exhaustively within small bounds; the code is bound to it by replayed and recorded traces (sampled)"


def main(claimed):
    props = [json.loads(line)["id"] for line in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, rest = [], []
    for p in props:
        if p in claimed:
            cmd = "/opt/venv/bin/python /verif/harness/check.py %s" % p
            checks.append({"property": p, "quick_cmd": cmd + " quick", "thorough_cmd": cmd + " thorough", "technique": TECH[p],
                           "level": "model_checking", "level_note": LEVEL_NOTE})
        else:
            rest.append({"property": p, "reason": "machinery not finished yet"})
    out = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": rest,
           "notes": "No hooks in /repo: all observations are made through the public interface. Known findings and fixes: KNOWN_FINDINGS.txt."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    import check
    main(check.MODULES)
