#!/usr/bin/env python3
"""Writes MANIFEST.json for the monitors that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("exploration", "round-trip monitor with bitwise comparison", "Values of about 60 types are generated, written under three layouts and two transports and compared after reading; values not generated are not covered."),
 "C02": ("exploration", "serializer call recorder with reference JSON parser as oracle", "Random call programs; the text is judged by an independent RFC 8259 parser, which is trusted."),
 "C03": ("exploration", "differential monitor against a reference parser, on valid and mutated texts", "Every text is consumed by several strategies; the independent reference parser is trusted."),
 "C04": ("exploration", "online model checker of deserializer call sequences (reference object model)", "Random walks over random documents; each call's result is compared with a sequential model. The model and the reference parser are trusted."),
 "C05": ("exploration", "exact-arithmetic oracle over number literals", "Boundary literals of all ten integer types in all spellings plus random ones; exact decimal arithmetic on the literal decides."),
 "C06": ("exploration", "bitwise float oracle (independent exact arithmetic and std parser)", "Halfway cases, long literals, extreme exponents and random bit patterns."),
 "C07": ("exploration", "reference string decoder, eight read paths", "Random strings with mixed escapes over all read paths."),
 "C08": ("exploration", "crash, hang, step-count and stack monitors on hostile input", "Hostile texts on small stacks with a CPU-time watchdog and reader step bounds."),
 "C09": ("exploration", "differential monitor: byte stream against string", "Same text and same calls through both readers under random chunking and interruptions."),
 "C10": ("exploration", "error-position oracle from the reference parse", "One injected fault per document, many access orders; reference spans decide."),
 "C11": ("exploration", "UTF-8 oracle, exhaustive for short sequences", "All sequences of up to two bytes and all three- and four-byte lead patterns at boundaries, plus random streams; std::str::from_utf8 is trusted."),
 "C12": ("fault_enumeration", "fault injection at every write offset of the sink", "For each generated document every byte offset (up to a cap) is used as failure point."),
 "C13": ("exploration", "name-table oracle: linear search", "Random and adversarial tables; lookups in random pieces."),
 "C14": ("exploration", "hand-written mapping oracle for derived types", "A fixed family of derived types covering each attribute and combinations, with random values and permuted, reduced and extended documents."),
 "C15": ("exploration", "wrapper protocol monitor over a recording backend", "Random and enumerated call sequences, correct and incorrect, against a legality model."),
 "C16": ("exploration", "consumption and allocation monitors", "Reader position after each call against reference spans; a counting allocator bounds live memory independent of document length."),
 "C17": ("exploration", "metamorphic monitor: layout and comment insertion", "Each document is read with and without inserted whitespace and comments by the same walk."),
 "C18": ("exploration", "token and per-line indentation monitor", "Same call program under all layouts; tokens and lines compared with a model."),
 "C19": ("exploration", "option semantics oracle", "All option nestings in all positions against a small semantic model."),
 "C20": ("exploration", "skip/read differential monitor", "Every skip place is compared with reading, on streaming and buffered paths, including deep nesting and malformed skipped data."),
 "C21": ("exploration", "protocol automaton over a recording backend", "All supported types through a backend that checks each call, under all capability combinations."),
 "C22": ("exploration", "context event log compared with the expected order", "Random values of a family of context-using types, both directions."),
 "C23": ("exploration", "Miri (undefined-behaviour interpreter) and AddressSanitizer with leak detection", "Reduced workloads of the other monitors under Miri, larger ones under ASan/LSan."),
 "C24": ("exploration", "reader operation monitor against a reference cursor", "Random operation sequences over the readers."),
 "C25": ("fault_enumeration", "fault injection at every offset of the byte source", "For each document every byte offset (up to a cap) is used as failure point, by error and by malformed bytes."),
 "C26": ("exploration", "tag resolution oracle: linear search and exact arithmetic", "Random tables and tag documents in streaming and buffered position."),
 "C27": ("exploration", "record-and-compare monitor: repetition, re-entrancy, abandonment, threads and processes", "Jobs with complete outcome records are repeated after, within and beside others; state that no job reaches is not observed."),
 "C28": ("exploration", "generated programs compiled and run, monitored by a model of the attributes", "Random declarations are expanded by the real macros; their reading and writing is compared with a model, and the compiler's diagnostics show that unsupported ones are refused. The model and rustc are trusted; recursive types and tuple structs are not generated."),
}
checks = []
for i, (level, tech, note) in T.items():
    if i == "C28" or os.path.exists(os.path.join(root, "harness/src/bin", i.lower() + ".rs")):
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "./run.sh " + i, "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "cd /verif && ./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check under construction"} for i in T if i not in {c["property"] for c in checks}]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
