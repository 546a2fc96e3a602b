#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "reference-model oracle over monitored executions"
T = {
    "C01": MODEL + " of the identifier codec",
    "C02": MODEL + " of the length codec",
    "C03": MODEL + " of integer and boolean contents",
    "C04": MODEL + " of the element parsers",
    "C05": "consumption monitor on caller slices and streams against a model",
    "C06": "fault-injecting readers with request log, compared with the slice parse",
    "C07": "resource monitor: limiting allocator, CPU clock, crash and stack watch under hostile input",
    "C08": "history monitor: edits checked step by step against a byte-vector model, two buffer implementations",
    "C09": "differential monitor: all construction routes against the model, two buffer implementations",
    "C10": "Miri (three targets, two borrow models), AddressSanitizer, ThreadSanitizer, checking allocator and leak accounting, also over the workloads of other properties",
    "C11": "differential monitor of equality, order, hash and copies, two buffer implementations",
    "C12": "round-trip monitor over all entry points with the reference codec",
    "C13": MODEL + " of the serializer, with announced sizes and writer output",
    "C14": MODEL + " of the deserializer on systematically disturbed encodings",
    "C15": "metamorphic monitor: encodings rewritten with indefinite levels and displaced markers against the model",
    "C16": MODEL + " generated from the attributes, over fixed and freshly generated derived types",
    "C17": "monitor of compiler diagnostics on generated derive inputs with known expectation",
    "C18": "fault-injecting sinks with octet log, compared with in-memory output",
    "C19": "monitor of error chains built by library and caller against a model of the chain",
    "C20": "history monitor: byte stores checked step by step against a byte vector, two buffer implementations, three machines",
    "C21": "fault injection into every call of the caller's own serializers and deserializers, compared with the undisturbed run",
}
NOTE = {
    "C10": "Bounded workloads; Miri sees only what the small workload executes.",
}
for _i in ("C01", "C02", "C03", "C04", "C08", "C09", "C12", "C14", "C20"):
    NOTE[_i] = ("Seeded random, boundary-directed and (for small sizes) exhaustive workloads on checked and release builds, "
                "a small one on big-endian and 32-bit machines interpreted by Miri; no proof beyond the inputs executed.")
DEFAULT = "Seeded random, boundary-directed and (for small sizes) exhaustive workloads on checked and release builds; no proof beyond the inputs executed."
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {
        "guard": "bsn1_universal_buffer",
        "enable": "RUSTFLAGS='--cfg bsn1_universal_buffer' (run.py, variants 'universal' and 'asan-universal')",
        "source_commits": ["43b5292"],
    },
    "checks": [
        {
            "property": i,
            "quick_cmd": "python3 run.py %s quick" % i,
            "thorough_cmd": "python3 run.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": T[i],
            "level": "exploration",
            "level_note": NOTE.get(i, DEFAULT),
        }
        for i in ids if i in T
    ],
    "not_applicable": [{"property": i, "reason": "machinery not built yet"} for i in ids if i not in T],
    "notes": "run.py builds the monitors from /repo's working tree; `python3 run.py replay <file>` repeats one violation.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
