#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation: seeded search over thread schedules"
NOTE = ("Seeded sampling of schedules, inputs and faults, not enumeration: a clean run is evidence within the bounds "
        "in DESIGN.md. Trusts the simulator (sim/rt), the reference model (sim/harness), g++ and its TSan "
        "instrumentation pass; libstdc++'s compiled parts are not instrumented.")
CHECKS = {
    "C01": (TECH + ", responses compared with a reference executor", ""),
    "C02": (TECH + " and injected accessor failures, responses compared with a reference executor", ""),
    "C03": (TECH + " and accessor answer times, order of accessor calls monitored", ""),
    "C04": (TECH + " of client threads sharing one service, every response compared with a reference executor", ""),
    "C05": (TECH + " and request histories, every verdict compared with that of an unused service", ""),
    "C06": (TECH + " over generated code, arguments and overlapping calls checked in the accessors, responses compared with a reference executor", ""),
    "C07": (TECH + " and histories of subscribe, unsubscribe and deliver, callbacks and responses compared with a reference model", ""),
    "C08": (TECH + ", histories and injected failures of notifications, callbacks, filters and thread creation", ""),
    "C09": (TECH + " and drop orders, every memory access checked for bounds, lifetime and races", ""),
    "C10": (TECH + ", failing allocations and failing thread creation at drawn points", ""),
    "C11": (TECH + " of service creation and introspection, answers compared with the schema definition", ""),
    "C12": ("deterministic simulation: generated clients and services over a simulated network with message faults, partitions and service restarts, seeded search; documents checked against an independent reader, typed values and errors against a reference executor", ""),
    "C13": ("deterministic simulation: generator processes on an I/O seam, seeded search over sequences of failing, short and lost file operations and kills, files and exit status compared with a fault-free run", ""),
    "C14": ("deterministic simulation: concurrent parsing of files that are replaced, removed or fail in a simulated file system, seeded search over schedules and faults; trees, errors and their positions compared with a parse of the same text from memory", ""),
}
NA = {
    "C15": "A pure function of schema and document: no schedule, clock, I/O or fault takes part, so simulation has nothing to decide; it would be input generation under another name.",
    "C16": "A pure function of the input bytes: no schedule, clock, I/O or fault takes part. (That files are read completely or reported is C14.)",
    "C17": "A pure function of the value: no schedule, clock, I/O or fault takes part. (Values crossing a faulty network are C12.)",
    "C18": "A pure function of the schema, decided at compile time: no schedule, clock or fault takes part. (Disk faults of a generator run are C13.)",
}
PENDING = "The check is not built yet."
ALL = ["C%02d" % i for i in range(1, 19)]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="python3 check.py " + p,
                    technique=t, level="exploration", level_note=(n + " " + NOTE).strip())
               for p, (t, n) in CHECKS.items()],
    "not_applicable": [dict(property=p, reason=NA.get(p, PENDING)) for p in ALL if p not in CHECKS],
    "notes": "No hooks in /repo: the seams are malloc, pthreads, clocks and the compiler's memory access instrumentation. "
             "All commits in /repo are fix: commits, see known_findings.txt.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
