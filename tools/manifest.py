#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = "differential runtime monitor against encoding/json"
T = {
 "C01": (DIFF, "Every generated value is encoded by the real code and by encoding/json, and the bytes are compared"),
 "C02": (DIFF + " over histories of calls", "layout compared with encoding/json after every call of random histories that include failing and panicking calls"),
 "C03": ("online checker: colored output stripped of its codes equals the uncolored output", "compares two real executions of each call"),
 "C04": ("online trace checker of the color stream against a token-class specification", "an automaton derives the required color of every token from the Go value and checks each byte of the output"),
 "C05": ("differential runtime monitor and hostile raw inputs", "raw messages and marshaler output, valid and damaged, compared with encoding/json and an independent parser"),
 "C06": ("recording writer with injected faults, offline checker of the write log", "write errors, panics and short writes are injected at every call of random histories"),
 "C07": ("repeat-and-compare monitor with canaries, also under the race detector", "same value, different destinations and histories; snapshots of inputs and earlier results are compared"),
 "C08": ("differential runtime monitor against a reference RFC 8259 parser and encoding/json", "bounded exhaustive strings over 11 alphabets plus random and damaged documents"),
 "C09": (DIFF, "documents decoded into identical fresh and prepopulated targets by both, values compared deeply"),
 "C10": (DIFF + " with options; key-renaming oracle for exact matching", "options decided by encoding/json's, or by decoding a document rewritten to mean the same without the option"),
 "C11": ("aliasing monitor: overwritten and read-only inputs, clobbering garbage collector", "dump before and after the input is overwritten; mapped read-only pages; freed memory clobbered"),
 "C12": ("history checker over scripted readers, against encoding/json", "values, errors, read calls and offsets recorded at the boundary under chosen and random splits"),
 "C13": ("online checker of the token stream against a reference tokenizer", "each token's fields compared with those derived by an independent parser"),
 "C14": ("race detector and comparison with sequential results", "barrier-started goroutines on types not seen before; each result compared with the one computed alone"),
 "C15": ("checkptr, AddressSanitizer, clobberfree, guard pages and canaries", "every memory layout of a generated pool under instrumented builds"),
 "C16": ("round-trip runtime monitor", "encode, decode, encode again and compare bytes and values"),
 "C17": ("stress monitor with watched child processes", "cyclic, shared, deep and long data in processes with limited stack and memory"),
 "C18": ("policy monitor over environments and file kinds in child processes", "all combinations of the variables with terminals, pipes, files, closed files"),
 "C19": ("process-level monitor of the jc program", "runs the built program on generated input, flags and failing files"),
 "C20": ("runtime monitor comparing with what fatih/color writes", "random attribute lists and palettes, global setting flipped"),
 "C21": ("output safety monitor with hostile strings", "every output scanned by an independent parser"),
 "C22": ("differential error monitor against encoding/json", "error classes compared for generated failing calls"),
 "C23": ("history monitor: options in any order against a fresh Encoder", "each output compared with a fresh Encoder's"),
 "C24": ("digest comparison across processes that use types in different orders", "each child process reports a digest for each type; they are compared"),
 "C25": ("resource monitor: allocation and thread time against encoding/json, heap growth over histories", "cost of each call on large inputs of many shapes bounded by a multiple of encoding/json's"),
}
CLAIMED = set(open(os.path.join(V, "tools", "claimed")).read().split())
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in CLAIMED:
        na.append({"property": p, "reason": "monitor not built yet"})
        continue
    t, n = T[p]
    checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                   "technique": "runtime monitoring: " + t, "level": "exploration",
                   "level_note": n + ". Holds for the executions made (counts in the evidence); trusts Go 1.26's encoding/json and the harness's reference parser where it names them."})
json.dump({"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every monitor observes through the public API, the process boundary or instrumented builds. Repairs of genuine defects are the fix: commits listed in known_findings.json."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
