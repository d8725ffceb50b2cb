#!/usr/bin/env python3-vt
"""Regenerate MANIFEST.json from the list below (run by hand, output committed)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ (TLC): "
N = {
 "C01": ("exhaustive model of the bit buffers + trace validation of recorded deliveries",
         "buffer algorithm exhaustive at small word sizes; real code on random request mixes at every width 1-32"),
 "C02": ("exhaustive model of the bit operations + conformance of recorded calls",
         "laws exhaustive at 3-4 bit words; every window and shift, random contents, on the real functions"),
 "C05": ("model of buffered reseeding + trace validation of whole runs (results as a function)",
         "all tests, alone and in series, real and scripted, generators of many widths, capped sample sizes"),
 "C06": ("exhaustive session model + trace validation of recorded sessions (seedings)",
         "session design exhaustive at small scale; sampled option combinations on the real program"),
 "C07": ("exhaustive session model + trace validation of recorded sessions (schedule)",
         "every registered test by number and name, unknown ones, all-tests runs for many tuple sizes"),
 "C08": ("exhaustive test-object model + trace validation of library calls and sessions",
         "random interleavings of several test objects and sessions with scripted p-values"),
 "C09": ("exhaustive session model with termination (liveness) + trace validation of sessions",
         "every p-value sequence on a grid in the model; boundary values and many rounds on the real program"),
 "C10": ("exhaustive assessment model + trace validation of sessions (assessment)",
         "all threshold relations on a grid; boundary p-values on the real program"),
 "C11": ("exhaustive session model + trace validation of sessions (sizes)",
         "every registered test with standard and requested sizes, random multipliers and limits"),
 "C03": ("interleaving model of generators + trace validation of recorded draws",
         "every registered software generator, random interleavings of seedings and draws"),
 "C04": ("range specification + conformance of recorded draws",
         "every registered generator, random seeds and mixes of draws"),
 "C12": ("report grammar specification + conformance of recorded reports",
         "random flag sets by number and name, separators, histograms; thorough covers all 2^18 field sets by classes"),
 "C13": ("exhaustive file-cursor model + trace validation of recorded reads (raw)",
         "random file sizes and draw/reseed sequences on the real generator"),
 "C14": ("exhaustive file-cursor model + trace validation of recorded reads (formatted)",
         "all documented number types, random counts and draw/reseed sequences"),
 "C15": ("exhaustive stream model over all chunkings + trace validation through pipes",
         "random chunkings and stream lengths through real pipes"),
 "C16": ("dump format specification + conformance and round trip of recorded dumps",
         "formats x counts x generators x seeds on the real program"),
 "C17": ("selection specification + conformance over the whole generator listing",
         "every listed generator by number and name, unlisted numbers and names"),
 "C18": ("exhaustive XOR-combination model + trace validation of recorded draws",
         "random component lists, seeds, draw and reseed sequences"),
 "C19": ("GF(2) rank specification, laws exhaustive for small matrices + conformance",
         "all matrices up to 3x3 in the model; random, structured and wide matrices on the real code"),
 "C20": ("exact order-statistic specification + conformance of recorded evaluations",
         "random and structured p-value sets of many sizes, all methods"),
 "C21": ("pooling and degrees-of-freedom specification + conformance of recorded evaluations",
         "random cell vectors and cutoffs"),
 "C22": ("counting specifications executed by TLC on recorded streams + conformance of p-values",
         "random and structured streams, small sample sizes"),
 "C23": ("missing-word and rank specifications executed by TLC on recorded streams",
         "random and structured streams"),
 "C24": ("event specifications executed by TLC on recorded streams",
         "random and structured streams, small sample sizes"),
 "C26": ("definitions of the orders, distances, transforms and trees in TLA+, laws exhaustive for short sequences, executed by TLC on recorded streams",
         "random and structured streams; standard sizes for parking lot and the sphere tests"),
 "C25": ("generator recurrences in TLA+ executed by TLC against recorded draws",
         "random seeds, hundreds of outputs per generator"),
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
have = [p for p in props if os.path.exists(os.path.join(HERE, "vf", "p_%s.py" % p.lower()))]
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": "./check.py %s quick" % p, "thorough_cmd": "./check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": TV + N[p][0], "level": "model_checking", "level_note": N[p][1]}
                for p in have],
     "not_applicable": [{"property": p, "reason": "no check built yet"} for p in props if p not in have]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
