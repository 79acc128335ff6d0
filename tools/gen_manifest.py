#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
SM = "explicit-state exploration of a slot model to closure, every transition and many drain sequences executed on the real parser (conformance), plus the full tree of histories to a small depth"
IN = "bounded exhaustive enumeration of inputs executed on the real parser against an independent reference decoder"
T = {
 "C01": ("exploration", IN + " (totality: panic, abort, hang, allocation bound)", "All strings over sharp alphabets to a length, all 1- and 2-point edits and truncations of a corpus, all payload types x lengths x fills, all time/date/ETA codes; overflow checks on. Trusts the panic/abort/hang/allocation monitors."),
 "C02": ("exploration", IN, "Every suffix and every single-byte edit of a corpus against an independent XOR. Unicode and lower-case digits are outside the property."),
 "C03": ("model_checking", SM + "; every reject event must be a self-loop", "Every reject class in every reachable state of the product model, with drain sequences comparing all later results."),
 "C04": ("model_checking", SM, "All reachable states of the fragment model with 6 keys that pairwise differ in one component; sweeps over ids, split points, channels and hundreds of pending messages."),
 "C05": ("model_checking", SM, "All reachable states of the group model for 2 talkers and sizes 1-3, all arrival orders to 5 (thorough 7) parts, sizes to 255."),
 "C06": ("model_checking", SM, "All reachable states of the two-halves model for several vessels, whole and fragmented; sweeps over MMSIs and pending counts."),
 "C07": ("model_checking", SM + "; product of C04-C06 with the stateless sentences", "All sequences of the all-sentences alphabet to a depth and all states of the product model."),
 "C08": ("model_checking", "explicit-state exploration of the product of two parsers' slot models, every joint transition executed on two real parsers; exhaustive enumeration of all interleavings of two streams, of all assignments of their calls to threads, and (stateless, under a controlled scheduler) of all interleavings inside two calls at instrumented memory accesses up to a preemption bound of 2, on the real code", "Call-level schedules are complete for the bounded histories; inside calls, two threads are scheduled at every control-flow edge and every load and store of static memory (sanitizer-coverage instrumentation of the crate), preemption bound 1 complete and 2 in part."),
 "C09": ("exploration", IN, "Every symbol at every position over backgrounds, all bad characters at all positions."),
 "C10": ("exploration", IN, "Windows over all coordinate bits, all other-bit flips, boundary combinations; thorough: complete 2^27/2^28 value spaces."),
 "C11": ("exploration", IN, "All values of all fields, all single flips of other bits, boundary combinations."),
 "C12": ("exploration", IN, "All 64 message types x talkers x own/other x fragmentation; windows over all identification bits."),
 "C13": ("exploration", IN, "Every code at every position, adjacent pairs, all short words, all lengths of the name extension."),
 "C14": ("exploration", IN, "All codes of all code lists over several backgrounds and all single flips of other bits."),
 "C15": ("exploration", IN, "All values of all flags and numbers, all single flips of all other bits, boundary combinations."),
 "C16": ("exploration", IN + " with a simulated clock", "All 2^20 ETA codes at many clock readings, all dates and times of base stations in parts."),
 "C17": ("exploration", IN, "All degree-minute values in parts, all decimal lengths, all malformed menus, all pairs of fields."),
 "C18": ("exploration", IN, "Complete field menus of all fields in all sentences with pairs and triples, all truncations."),
 "C19": ("exploration", IN + " with a simulated clock", "All times, all dates, all malformed menus at many clock readings."),
 "C20": ("exploration", IN, "All delimiters x talkers x formatters, all one-character edits of headers."),
 "C21": ("exploration", "exhaustive enumeration of all MMSI values on the real function against an independent ITU table", "thorough: all 2^32 MMSIs; quick: every MID class completely at its edges."),
 "C22": ("model_checking", SM + "; observed: live heap bytes after repetition of every bounded history", "All bounded histories repeated 10 to 80 times; every model transition drained and repeated; streams with ever new keys; memory counted by the allocator. A violation is growth at every doubling or more than a fixed margin over an idle parser."),
 "C23": ("exploration", IN, "All codes of all lists in all messages that carry them, all talkers; compared with words of the documented meaning."),
 "C24": ("exploration", IN, "All unknown formatters, all talkers, all AIS types x lengths x forms, all malformed counts and fields of the menus, with right and wrong checksums."),
}
IMPL = [l.strip() for l in open(os.path.join(here, "implemented.txt")) if l.strip()]
checks = []
for i in IMPL:
    level, tech, note = T[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                   "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": "check under construction"} for k in T if k not in IMPL],
     "notes": "No hooks: everything is observed through the public API. replay: harness/target/release/mc replay <file>"}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
