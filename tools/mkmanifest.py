#!/usr/bin/env python3
"""Writes MANIFEST.json; the notes per property are here."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
 "C01": "property-based testing: round trip of generated contents, options and flush histories",
 "C02": "property-based testing: generated histories against a strict reference decoder and the Go standard library",
 "C03": "property-based testing: token-level generator of conforming streams against a reference decoder (differential)",
 "C04": "mutation and grammar-based fuzzing against a strict reference decoder (differential verdict)",
 "C05": "property-based testing: every or sampled truncation points against a reference decoder",
 "C06": "property-based fuzzing: alterations of checksum, length and header fields against a reference decoder",
 "C07": "property-based testing: generated dictionaries, matching and mismatching, against a reference decoder and the standard library",
 "C08": "property-based testing: generated streams around window limits against a reference decoder",
 "C09": "model-based testing of generated flush histories: prefixes at the destination decoded by a reference decoder",
 "C10": "property-based testing: generated concatenations against a reference decoder",
 "C11": "property-based testing: format detection over generated and mutated inputs against a model",
 "C12": "property-based testing: generated headers round-tripped and compared with an independent header parser",
 "C13": "fault injection at generated points of generated histories, with invariants over the destination's history",
 "C14": "fault injection at generated points of the source, against a reference decoder",
 "C15": "metamorphic testing: the same bytes in generated chunkings and read sizes",
 "C16": "differential stateful testing: generated Reset histories against new objects",
 "C17": "differential stateful testing: generated Reset histories against new objects",
 "C18": "stateful testing of Close at generated points and schedules, with goroutine accounting",
 "C19": "model-based testing: event sequences against a model computed from the bytes by a reference decoder",
 "C20": "property-based testing: checksums at generated positions against an independent implementation, with and without hardware support",
 "C21": "property-based testing: block structure and size bounds over generated contents, by a reference decoder",
 "C22": "randomised concurrent schedules under the race detector, results against serial runs",
 "C23": "property-based testing of the built command: generated flags, inputs and faults, by a reference decoder",
 "C24": "exhaustive enumeration of values and string fuzzing against a table of names",
 "C25": "property-based testing: round trip and arbitrary bytes against an independent codec",
 "C26": "differential testing of a 386 and an amd64 build over generated cases",
 "C28": "generated long transfers with the live heap as a monitored invariant",
 "C29": "metamorphic testing: CPU time of n and 16n generated units of work",
 "C30": "property-based testing: planted violations and mutations, error offsets against a reference decoder; metamorphic re-reading",
 "C31": "stateful differential testing: histories of a caller who reuses its slices against a careful one, with canaries and the race detector",
 "C32": "generated pauses of the source and generated conversations, with a reference decoder's lower bound on the output as the oracle and deadlock detection",
 "C33": "metamorphic relation on generated content: the same content with and without a repetition, sizes compared; the empirical entropy as a bound",
 "C27": "stateful testing of generated option histories against a model of the configuration",
}
BASE = ("Generated-input search: no violation among the cases counted in the evidence file (fixed numbers of cases per seed); "
        "not a proof. Trusts the harness's own RFC 1950-1952 decoder and stream builder, which setup_cmd checks "
        "against each other and the Go standard library.")
EXTRA = {
 "C18": " Goroutine accounting waits for the scheduler, with a generous limit.",
 "C20": " On a processor without carry-less multiplication both runs use the generic code.",
 "C22": " Schedules are sampled, not enumerated; races are those the Go race detector sees.",
 "C23": " A write to a closed pipe may end the command by the signal, without a message.",
 "C24": " Values are exhaustive; strings are sampled.",
 "C29": " Time is CPU time; an alarm needs a factor of 48 for 16 times the work, four times in a row.",
 "C26": " Both builds run on this machine (GOARCH=386 and amd64).",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "bash run.sh SELF",
     "checks": [{"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                 "technique": TECH[i], "level": "exploration", "level_note": BASE + EXTRA.get(i, "")} for i in ids],
     "not_applicable": []}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
