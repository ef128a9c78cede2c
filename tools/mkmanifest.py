#!/usr/bin/env python3
# Writes MANIFEST.json
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
NOTE_C = ("Seeded search over operation histories, schedules and faults, real library code against an executable reference model; a clean batch is evidence, not proof. "
    "Trusts glibc, OpenSSL, the compiler and the reference model. ")
NOTE_PY = ("Seeded search over mirrors, resolver, clock, disk and crash behaviour; the real script, modules and library run in forked processes below a preloaded seam. A clean batch is evidence, not proof. ")
NOTE_IMP = ("Seeded search; the real importer, modules and library run in forked processes. PostgreSQL is a stub: an SQL interpreter with transactions, savepoints, unique indexes and pipelines for what the importer uses; "
    "a run that needs other SQL ends without a verdict. A clean batch is evidence, not proof. ")
C = {
 "C01": (T + "seeded write/reopen histories with I/O faults against a longest-prefix-match model", NOTE_C + "All boundaries of every generated network set are looked up."),
 "C02": (T + "seeded catalogue histories with clock jumps and I/O faults against a map model", NOTE_C),
 "C03": (T + "seeded interleavings of enumerators and lookups, each step checked against the model", NOTE_C),
 "C04": (T + "seeded interleavings of flattened enumerations, result compared piecewise with the model", NOTE_C),
 "C05": (T + "seeded interleavings of bogon enumerations, result compared piecewise with the set model", NOTE_C),
 "C06": (T + "calibrated disk, crypto and allocation faults at random points of every write, followed by verification of every success", NOTE_C),
 "C07": (T + "crash images, torn and damaged files and faults during verification against a byte-equality oracle", NOTE_C + "Forging signatures is out of reach by assumption."),
 "C08": (T + "crash images, damaged and hostile files behind guarded mappings with a step limit", NOTE_C + "Memory errors are detected by AddressSanitizer and guard pages."),
 "C09": (T + "calibrated allocation and system call failures in random histories with retry, model and leak accounting", NOTE_C),
 "C10": (T + "seeded object lifecycles with AddressSanitizer and accounting of memory, descriptors and mappings", NOTE_C),
 "C12": (T + "recorded file operations replayed over every crash point and power-loss states, killed and concurrent updaters, disk faults", NOTE_PY + "A power loss keeps names in order up to some point after the last fsync and loses or tears data that was not synced."),
 "C13": (T + "scripted mirrors and resolver (tampered, stale, spliced, cut content) over histories of updates; installed bytes compared with what was signed", NOTE_PY + "Forging signatures is out of reach by assumption."),
 "C14": (T + "scripted failures of mirrors (connection, TLS, HTTP, body, timing) and disk faults; progress and clean-up checked after every update", NOTE_PY + "A mirror counts as healthy if it answers within 20 s and its Last-Modified is later than the database's creation time."),
 "C15": (T + "simulated clock with jumps, zones and daylight saving against the interval rule; contacts counted at the seams", NOTE_PY + "Two seconds around the boundary are not judged."),
 "C16": (T + "exports with disk faults at random points; all output parsed and compared with a longest-prefix-match model", NOTE_PY + "Exports are judged as a whole: what is left after a visible failure is not specified."),
 "C17": (T + "real threads under a seeded scheduler that switches at memory accesses, results compared with the same program alone", "Seeded search over schedules; switches happen at the library's memory accesses, basic blocks and calls, not inside of libc and OpenSSL, and memory is sequentially consistent. A clean batch is evidence, not proof."),
 "C19": (T + "queries, listings and dumps with failing output; all output parsed and compared with the model", NOTE_PY),
 "C20": (T + "imports over scripted servers, Bird and a simulated PostgreSQL with lost connections, failing statements and kills at any statement or commit; every committed state compared with the old and the served data", NOTE_IMP),
 "C21": (T + "generated tables compiled with failing database and disk; the resulting database compared with a model of the precedence rules", NOTE_IMP),
 "C22": (T + "generated programs in Lua, Perl and Python with failing resources and garbage collections at seeded instants; every answer compared with the model, leaks counted", "Seeded search; the real bindings, library and interpreters run in one process per program with AddressSanitizer. The interpreters' own allocations do not fail for good. A clean batch is evidence, not proof."),
 "C23": (T + "generated databases copied with failing disks and repeated copying; every copy compared with the model of the original", NOTE_PY),
 "C11": (T + "scripted resolver with generated, mutated and cut off replies against an independent parser", NOTE_C),
}
NA = {
 "C18": "Pure arithmetic on values: no schedule, clock, I/O, allocation history or other party influences it, so there is nothing for a simulator to control; property-based testing or proof would be the right family. The parts that allocate (subnets, exclusion, reverse pointers) are exercised under allocation faults by C09.",
}
TODO = []
def main():
    exec(open(os.path.join(V, "tools", "manifest_more.py")).read(), globals()) if os.path.exists(os.path.join(V, "tools", "manifest_more.py")) else None
    checks = []
    for p, (t, n) in sorted(C.items()):
        checks.append({"property": p, "quick_cmd": "./check.py %s --tier quick" % p, "thorough_cmd": "./check.py %s --tier thorough" % p,
            "technique": t, "level": "exploration", "level_note": n.strip()})
    na = [{"property": p, "reason": r} for p, r in sorted(NA.items())]
    for p in TODO:
        if p not in C: na.append({"property": p, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
        "notes": "No hooks are needed in /repo: seams are made by redirecting the library's references to libc and OpenSSL at link time (C), by a preloaded library and at Python's own interfaces (command line tool)."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
