#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {}
MODEL = "runtime monitor: every call judged online against an executable model of the standard"
NOTE = ("Exploration: holds on every call observed; single characters, one- and two-byte strings and short token sequences are enumerated, the rest is sampled or found by coverage-guided search. "
        "Trusts the reference tables and model in /verif, and that calls are judged by return value, buffers and process fate. ")
for i, (t, n) in {
    1: ("runtime monitor: panics, aborts, signals and hangs of each call, in checked and release builds", "A hang is a call that burns 20 s of CPU alone."),
    2: ("sanitizers and monitors: AddressSanitizer, Miri, guard bytes, unsafe-precondition checks; MemorySanitizer when thorough", "Reads outside the input are seen next to forbidden pages, and by AddressSanitizer and Miri in exactly sized allocations."),
    3: (MODEL, "Tables derived from Python's codecs, not from the repository."),
    4: (MODEL, ""), 5: (MODEL, "All surrogate x unit pairs are enumerated."), 6: (MODEL, "All 2^32 values when thorough."),
    7: (MODEL, "Prints the 57 known findings."), 8: (MODEL, ""),
    9: ("runtime monitor: round trips of encode and decode results", "Needs no model beyond the three documented exceptions."),
    10: (MODEL, ""), 11: (MODEL, ""), 12: (MODEL, ""), 13: (MODEL, "Calls go on behind each error."), 14: (MODEL, "Calls go on behind each error."),
    15: ("runtime monitor: pairs of calls that differ in the end flag, against the model", ""),
    16: ("runtime monitor: metamorphic comparison of chunked and one-call streams", "No model involved."),
    17: ("runtime monitor: metamorphic comparison of chunked and one-call streams", "No model involved."),
    18: ("runtime monitor: result digests over call histories, buffer states and threads; ThreadSanitizer (Miri when thorough)", "The library has no shared state today. Interleavings are those the scheduler produced, and those of one call of another thread between two instructions of a short call."),
    19: ("runtime monitor: mirrored calls compared", "No model involved."),
    20: ("runtime monitor: counting allocator; page residency of a private stack", "Stack measured in whole pages, by input shape and length, optimised and not."),
    21: ("runtime monitor: generators run in a scratch copy, observed behaviour of the regenerated library compared", "Translation tables only; compares all bytes, pairs and characters."),
    22: ("runtime monitor: processor time of conversions at 32 KB and 2 MB compared", "64 times the input may take 4 x 64 times the time plus 40 ms, the best of several measurements: finds a wrong order of growth, not a slow constant. A call with 4 to 16 bytes of room may take as long as 1024 multiplications and 32 for each byte."),
    23: ("runtime monitor: one workload in other builds, as an i686 program, as WebAssembly and interpreted (Miri) for s390x, powerpc, aarch64 macOS and Windows, results compared", "Other targets are represented by these; Miri runs a small workload. i686 needs a kernel that runs 32-bit programs, else it is left out and noted."),
    24: ("runtime monitor: conservation log and end-to-end output of decode-encode pipelines against the model", "Pairs of encodings are sampled, not enumerated with every input."),
    25: ("runtime monitor: single-stepped calls with another call and a look at memory behind each instruction", "Short calls; one interruption of a call by another at a time. Single-stepping through the trap flag of x86-64."),
}.items():
    T[f"C{i:02}"] = (t, n)
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": [
        {"property": k, "quick_cmd": f"python3 run.py {k}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {k}", "evidence_file": f"evidence/{k}.json",
         "technique": t, "level": "exploration", "level_note": (NOTE + n).strip()}
        for k, (t, n) in T.items()
    ],
    "not_applicable": [],
    "notes": "No hooks: the public functions are all the monitors need, so /repo carries no guarded code. Three fix: commits (see known_findings.txt).",
}
with open(os.path.join(D, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
