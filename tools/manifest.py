#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime monitoring: round-trip monitor over generated messages of all types, value/index oracle",
    "C02": "runtime monitoring: differential oracle against an independent reference encoder driven by a layout specification",
    "C03": "runtime monitoring: differential oracle against an independent reference decoder on reference-made bytes",
    "C04": "runtime monitoring: length-field monitor over frames with built-in, absent and opaque bodies",
    "C05": "runtime monitoring: recording checksum services and independent checksum computation over the exact frame range",
    "C06": "runtime monitoring: stream-history checker (order, index accounting) over a living buffer",
    "C07": "runtime monitoring: byte-array model oracle over fixed-width text writes and reads",
    "C08": "runtime monitoring: boundary-size workloads with element-wise conservation oracle",
    "C09": "runtime monitoring: differential decoding into dirty and fresh objects",
    "C10": "runtime monitoring: truncation and memory-poisoning (two-run non-interference) monitors",
    "C11": "runtime monitoring: mutation fuzzing under allocation, step and throwable monitors",
    "C12": "runtime monitoring: buffer sanitizer (guard zones, indices, reference counts, overwrite after decode) on eleven buffer kinds",
    "C13": "runtime monitoring: selector sweep and registry histories against a map model",
    "C14": "runtime monitoring: equality/hash law checker over single-field mutants",
    "C15": "runtime monitoring: operation-history checker against a field-map model",
    "C16": "runtime monitoring: printed-field oracle over generated states",
    "C17": "runtime monitoring: multi-threaded stress with injected yields and first-use class loading, results against sequential model",
    "C18": "runtime monitoring: recorded concurrent histories checked for per-key linearizability, growth stress with conservation oracle",
    "C19": "runtime monitoring: independent checksum implementations over contents, positions and buffer kinds",
    "C20": "runtime monitoring: operation histories against a bit-set model",
    "C21": "runtime monitoring: write/read monitor with exhaustive single positions and random states",
    "C22": "runtime monitoring: one recorded operation list executed by differently configured processes, per-operation results compared",
    "C23": "runtime monitoring: bystander monitor over groups of messages while one of them is changed",
    "C24": "runtime monitoring: leak monitor (live heap after full collections, direct memory, outstanding allocations) over windows of operations",
    "C25": "runtime monitoring: multi-threaded stress on shared messages, every reading compared with the one obtained alone",
}
NOTE = ("Exploration: the property held on every execution observed (counts, executed lines and samples are in the evidence file). "
        "Trusts the committed layout specification (spec/*.spec, drafted from the pinned tree and reviewed), the harness's reference codec, Netty and the JDK.")
EXTRA = {
    "C17": " Interleavings are sampled on 8 threads with yields injected at source lines, not enumerated.",
    "C18": " Interleavings are sampled on up to 8 threads with yields injected at source lines, not enumerated; each recorded history is decided exactly.",
    "C25": " Interleavings are sampled on 8 threads that meet at each message, not enumerated.",
    "C21": " Deviating positions of the 16-, 32- and 64-bit maps are known findings; anything else is a violation.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: checks compile /repo's tree into a scratch directory and instrument the class files there."}
for i in ids:
    m["checks"].append({"property": i, "quick_cmd": "bash run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + i,
                        "technique": TECH[i], "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
