#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON = ("TLC explores the specification completely within the stated constants; the parser's control graph is "
          "explored completely for inputs of every length. What binds it to the code is conformance testing: the real code is driven "
          "along the exported graph or behaviours and its recorded calls are validated by TLC, so code is judged on the executions explored, not proved. ")

T_PARSE = "TLA+ machine and grammar checked with TLC; exported control graph replayed into the parser (W-method), recorded parses validated by TLC"
T_LIB = "TLA+ library model checked with TLC; every behaviour replayed into the code, random histories validated by TLC as traces"

T_FAM = "TLA+ library model and family of values checked with TLC; every behaviour and every member replayed into the code, random histories validated by TLC as traces"

CHECKS = {
 "C01": (T_PARSE, "Every control state x byte x distinguishing suffix of the RFC 2141 machine is run, also on reused machines; deviating parser states that need longer detours are sampled."),
 "C02": (T_PARSE, "As C01 for RFC 8141; grammar equivalence checked on all strings over part-specific alphabets to a depth."),
 "C03": (T_PARSE, "As C01 for RFC 7643, with the SCIM view."),
 "C04": (T_PARSE + "; reassembly decided on the control graph", "Round trip of every accepted input of the streams, each parsed again."),
 "C05": (T_PARSE + "; machine histories validated by TLC", "Every parse of the streams and of random histories on shared machines, with every way of giving a mode."),
 "C06": (T_PARSE, "Message and column of every rejected input of the streams: every control state x unexpected byte and x end of input."),
 "C07": (T_FAM, "All behaviours to the depth, all short histories over many texts, random longer ones. Designs that remember (a cache in the value, the receiver or the library, keyed by less than the whole text: spec/Caches.tla, spec/Parts.tla) are refuted by TLC, and each pair of values that shows one is given to the code, stretched to many lengths. What was given is held while memory is used again (spec/Memory.tla): every history to depth 7 (thorough 8) that shows one of seven wrong designs is run, with garbage collections."),
 "C08": (T_FAM, "As C07, with all pairs of about two thousand different values and millions of pairs of the rest. Designs that remember (a cache in the value, the receiver or the library, keyed by less than the whole text: spec/Caches.tla, spec/Parts.tla) are refuted by TLC, and each pair of values that shows one is given to the code, stretched to many lengths."),
 "C09": (T_LIB, "All behaviours of two machines to the depth and random histories, each parse compared with a new machine's. Designs that remember (a cache in the value, the receiver or the library, keyed by less than the whole text: spec/Caches.tla, spec/Parts.tla) are refuted by TLC, and each pair of values that shows one is given to the code, stretched to many lengths. What was given is held while memory is used again (spec/Memory.tla): every history to depth 7 (thorough 8) that shows one of seven wrong designs is run, with garbage collections."),
 "C10": ("TLA+ model of buffers that the caller fills, parses windows of and fills anew, checked with TLC (wrong designs must fail in it); every behaviour replayed on real buffers, parses on read-only memory, recorded runs validated by TLC", "All behaviours of two buffers, four contents and overlapping windows to depth 3; besides, inputs and their surroundings lie in pages mapped read-only, so any write at all is seen; results are read again after overwriting."),
 "C11": (T_FAM + "; JSON text rules in TLA+", "All behaviours to the depth, random histories and many values; the JSON decoder of the specification covers strings and rejects other JSON. Designs that remember (a cache in the value, the receiver or the library, keyed by less than the whole text: spec/Caches.tla, spec/Parts.tla) are refuted by TLC, and each pair of values that shows one is given to the code, stretched to many lengths. What was given is held while memory is used again (spec/Memory.tla): every history to depth 7 (thorough 8) that shows one of seven wrong designs is run, with garbage collections."),
 "C12": (T_LIB, "All behaviours to the depth and random histories of successful and failed unmarshals into receivers in every state. Designs that remember (a cache in the value, the receiver or the library, keyed by less than the whole text: spec/Caches.tla, spec/Parts.tla) are refuted by TLC, and each pair of values that shows one is given to the code, stretched to many lengths."),
 "C13": (T_PARSE + "; histories over values validated by TLC", "Every accepted input of the streams, and values from JSON, normalizing and composing."),
 "C14": ("TLA+ product automaton of the three modes explored completely with TLC; texts in three modes recorded and validated by TLC", "The inclusions hold of the specified machines for texts of every length; the code is compared on the streams of all three modes."),
 "C15": ("TLA+ interleaving model of calls on shared values, buffers, machines and receivers, checked with TLC (wrong designs must fail in it); every legal pair of calls it generates is run at the same time under the race detector and compared with running alone", "Every pair of the 92 calls that does not conflict by the API is run several times; schedules of the code are sampled, but the race detector reports unsynchronised accesses of those runs whatever their order."),
 "C16": ("TLA+ models of the type names and of a SCIM value under assignment and unmarshalling, checked with TLC; every text within two edits of a name and every behaviour replayed, lookups and values validated by TLC", "All texts within two edits over a near alphabet, edit distance one over all bytes, all type values of a range, all behaviours to depth 3 (thorough 5), random composed values. Designs that remember (a cache in the value, the receiver or the library, keyed by less than the whole text: spec/Caches.tla, spec/Parts.tla) are refuted by TLC, and each pair of values that shows one is given to the code, stretched to many lengths. What was given is held while memory is used again (spec/Memory.tla): every history to depth 7 (thorough 8) that shows one of seven wrong designs is run, with garbage collections."),
 "C17": (T_FAM, "All behaviours to the depth and random histories, every observable of every value compared after each call. What was given is held while memory is used again (spec/Memory.tla): every history to depth 7 (thorough 8) that shows one of seven wrong designs is run, with garbage collections."),
 "C18": ("TLA+ rewriting model checked with TLC on every small file; images replayed through the command", "Every file of up to 6 (thorough 7) tokens, packed files, random larger ones, misuse."),
 "C19": ("TLA+ rewriting model checked with TLC on every small file; images replayed through the command", "Every file of up to 6 (thorough 7) tokens, packed files, random larger ones, misuse."),
 "C20": ("TLA+ model of the cost of parsing, bounded per transition with TLC for texts of every length; every loop of the control graph pumped in the code, its time and memory measured at two sizes and the pair validated by TLC",
         "Costs are measured on the code, on texts of up to 256 KB (thorough 2 MB); the bounds are generous (a factor of 3 in time and 4 in memory over linear growth), so only growth that is far from linear is reported, and only when it is measured so every time."),
 "C21": (T_FAM, "All behaviours to the depth, every member of the family, random histories with odd and empty parts; the prefix as parsed is a ghost variable of the trace specification. Designs that remember (a cache in the value, the receiver or the library, keyed by less than the whole text: spec/Caches.tla, spec/Parts.tla) are refuted by TLC, and each pair of values that shows one is given to the code, stretched to many lengths. What was given is held while memory is used again (spec/Memory.tla): every history to depth 7 (thorough 8) that shows one of seven wrong designs is run, with garbage collections."),
 "C22": (T_LIB, "All behaviours of assigning to values and their SCIM views, parsing, unmarshalling and normalizing to depth 4 (thorough 5), and random histories with the same texts again and again; who shares a view by copying is a ghost variable of the trace specification. Designs that remember (a cache in the value, the receiver or the library, keyed by less than the whole text: spec/Caches.tla, spec/Parts.tla) are refuted by TLC, and each pair of values that shows one is given to the code, stretched to many lengths. What was given is held while memory is used again (spec/Memory.tla): every history to depth 7 (thorough 8) that shows one of seven wrong designs is run, with garbage collections."),
}

NOT = {}

m = {
 "version": 1,
 "setup_cmd": "bin/setup",
 "checks": [{
    "property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p,
    "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": COMMON + n}
    for p, (t, n) in sorted(CHECKS.items())],
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT.items())],
 "notes": "No hooks: every observation is made through the public API, or from outside the two commands. Specification in TLA+ (spec/), harness in Go (harness/), orchestration in bin/check.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
