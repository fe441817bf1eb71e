#!/usr/bin/env python3
"""Writes MANIFEST.json.  NOTE holds, per claimed property, what its check gives and trusts."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROPS = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOT = {}
TRUST = (" Exact rational arithmetic decides every step of every recorded behaviour; trusted: TLC, the arithmetic of "
         "spec/java (checked by MC_Rat), the recorder. Bounded by the scenarios recorded.")
NOTE = {
 "C01": "Interior telegrapher residuals of every step at every node, cell and row of random lines and bundles from random states.",
 "C02": "Thevenin end residuals for every step, conductor and end, with random resistances (0 included) and generators.",
 "C03": "Exact discrete energy balance, growth and conservation at every step of source-free systems, long runs included.",
 "C04": "Power sums of reported velocities against the traces of (LC)^k; default time steps of lines, bundles, systems.",
 "C05": "Paired runs against the dependence cone of the specification; exact delay, reflection and absorption at the magic step.",
 "C06": "Superposition, scaling and exact zero across runs of identical systems.",
 "C07": "Nodes and cells against the exact polyline; the node at which attached things act.",
 "C08": "Probe frames, labels and values against the state sequence; twins without probes; positions on and off the line.",
 "C09": "Step counts, times, the one time step of every part seen through all residuals, split runs.",
 "C10": "Random histories of copies, changes and runs, each object judged on its own; copies against newly built lines.",
 "C11": "Element laws and Kirchhoff's law, averaged per step, of random networks; declaration orders.",
 "C12": "The same at junctions of several bundles, ideal and resistive; orders and line reversal.",
 "C13": "Direct against network terminations, together against alone, orders of addition.",
 "C14": "Rows, matrices, losses and attached networks of bundles of several levels and lines.",
 "C15": "Every step of bundles with random transfer impedances, directions, poles, factors and connectors.",
 "C16": "Every step of lines with random lumped elements, refused places included.",
 "C17": "Every step of lines and bundles whose regions or points were given losses.",
 "C18": "Every step of bundles with random distributed sources, refused ones included.",
 "C19": "Every step of lines and bundles excited by polynomial, moving and plane-wave fields.",
 "C20": "Documents elaborated by the specification against the parsed system and its run.",
 "C21": "Runs of random documents and of their renamings, renumberings and reorderings.",
 "C22": "Acceptance conditions of the specification against the library's, and the behaviour after a refusal.",
 "C23": "Values of every waveform against its formula, at and around breakpoints.",
 "C24": "Port waves by an exact transform of the recorded probes; scattering ratios; reciprocity, passivity, amplitude; extraction (with one known finding).",
 "C26": "Histories of a caller that shares, reuses and changes its own arrays, lists and dictionaries between calls.",
 "C27": "The same systems in other units, exactly in the model and in recorded runs; systems that wait before anything happens.",
 "C25": "Runs of permuted, reversed and moved copies of random systems.",
}
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": [{"property": p, "quick_cmd": "./run.sh %s quick" % p, "thorough_cmd": "./run.sh %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": "TLA+ specification checked with TLC; recorded behaviours of the code validated against it",
                 "level": "model_checking", "level_note": NOTE[p] + TRUST} for p in PROPS if p not in NOT],
     "not_applicable": [{"property": p, "reason": r} for p, r in NOT.items()],
     "notes": "See DESIGN.md. Known findings and fixed defects: KNOWN_FINDINGS.json."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]))
