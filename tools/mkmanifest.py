#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property."""
import json, os
T = {
 "P01": ("crash, progress and tree-soundness monitor over hostile inputs in supervised processes", "crashes, stack exhaustion, runaways and malformed results would be seen on every input tried (random bytes, every prefix of files, mutants, extreme nesting and lengths); step and read counts bound progress"),
 "P02": ("tree monitor against the record of a generator of conforming files", "every generated file is compared with what its generator recorded, never with another parser"),
 "P03": ("differential verdict monitor: independent grammar recogniser over mutants and exhaustive single-token edits", "all single-token edits of the kitchen-sink files plus random mutants; trusts the recogniser, which is cross-checked against the generator at setup"),
 "P04": ("token conservation monitor: tokens rendered from the tree against tokens of the source", "independent of the recogniser: only the reference tokeniser and a renderer of trees are trusted"),
 "P05": ("two-mode differential monitor with an independent recogniser", "both modes run on the same inputs; the strict and permissive grammars of the recogniser are trusted"),
 "P06": ("position monitor: every recorded extent recomputed from the source", "exact positions and the nesting and order of extents on every tree produced"),
 "P07": ("comment attachment monitor against an independent model", "each comment's text, place and owner, and that none appears twice"),
 "P08": ("differential monitor with and without the option against an independent model", "difference between the two trees must be exactly the leftover comments"),
 "P09": ("metamorphic monitor: one token sequence under many layouts", "equality of structure and of the failing token over layouts"),
 "P10": ("fault injection at every read plus delivery schedules, results compared", "instrumented readers split, delay, fail or panic at every point of the input; results must be equal or failures"),
 "P11": ("differential monitor over the configuration options, log output observed", "equality of results across debug and file-name options"),
 "P12": ("race detector plus isolation oracles over stressed, interleaved and repeated parses", "the Go race detector watches concurrent parses and shared trees; results, snapshots and forced alternations are compared with sequential runs"),
 "P13": ("visitor call trace monitor against a reflective inventory of the tree", "every call and omission for each pruning set tried, found by reflection and not by the walker"),
 "P14": ("conservation monitor by pointer identity, before and after snapshots", "each element of a tree must be found in the unordered one exactly once, with an untouched source tree"),
 "P15": ("history monitor of lexer calls against a cursor model", "random call histories; after each call position, token, text and error state are judged"),
 "P16": ("scan trace monitor against an independent tokeniser, exhaustive short words", "all short words over a hostile alphabet and random texts in all 64 modes"),
 "P17": ("value monitor: decoded constants against decoded source literals", "independent escape decoder; adjacent literals in all quote styles"),
 "P18": ("error monitor: type, consistency and failure point from an independent parser", "each rejection observed must be located in the interval the recogniser gives"),
 "P19": ("cost monitor: executed-statement counters, allocation and processor time over growing families", "deterministic counters decide; processor time only with a wide margin and repeats. Families, not all inputs"),
 "P20": ("call-history monitor of the statement entry points against the whole-file tree", "each statement alone, sequences through one parser and concatenations, with positions and what follows"),
 "P21": ("process-level monitor of the built command against the library", "exit status and both outputs of real runs over files and flags"),
 "P22": ("accessor monitor against recomputation from the text, exhaustive short comments", "every comment, version and position of the trees produced, and all short comments"),
 "P23": ("model-based monitor: cursors moved at random over texts, compared with positions counted from the text", "random walks with copies and bulk moves; every intermediate position is compared"),
 "P24": ("online checker of the lexer's readers against an independent reference scanner", "texts of constants and names, well-formed and broken, read in any order with scans in between; text, position, error and the next scan are compared"),
 "P26": ("ownership monitor: every place of the trees is overwritten with a value of its own and all are read back", "one tree, two trees, statements of one parser edited while it goes on, lists of interpretations"),
 "P25": ("conservation monitor over interpretations of built and edited trees, with foreign elements injected", "trees with elements of every kind, nil and foreign ones at any place and depth; every list of the result is compared or the error demanded"),
}
checks = [{"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
  "technique": "runtime monitoring: " + t, "level": "exploration",
  "level_note": n + ". Held on the executions observed, not proved for all."} for p, (t, n) in T.items()]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
 "notes": "No hooks in /repo: everything the properties speak about is visible at the public API. check.sh PNN case I replays one case."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
