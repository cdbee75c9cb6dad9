#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
common = ("Seeded search over simulated executions: each run is one reproducible execution of the repository's own code on a simulated "
          "machine; a clean batch is evidence, not proof. Trusts the Go toolchain and the simulator's kernel, disk, clock and generators. ")
T = "deterministic simulation with fault injection: "
claimed = {
 "C01": (T + "seeded placement of open/read/interrupt/short-read faults, outcome compared with the fault-free ledger",
         "Oracle: the fault-free ledger of the same files, and a diagnostic for each include that could not be opened."),
 "C02": (T + "same bytes under other read fragmentation, map order, zone, clock and process history, outcomes compared byte by byte",
         "Oracle: the outcome in the plain environment; sometimes in a fresh process."),
 "C03": (T + "storage corruption of records and bytes, outcome compared with a reference model and checked for contradictions",
         "Oracle: an independent model of journals (verdict and full ledger) for undamaged and record-damaged files; invariants in big integers for damaged bytes."),
 "C04": (T + "random histories of edits and recalculations, each compared with a ledger built from scratch and a reference model",
         "Oracle: a new ledger with the same primary data, filled once, and the contradiction checks in big integers."),
 "C05": (T + "random histories of clones and operations on clone and original, interleaved and with map order varied, each side compared with a twin",
         "Oracle: the observable state before the operation on the other side; a second process-independent description of each ledger; structural aliasing is only judged through operations."),
 "C06": (T + "concurrent programs under a seeded scheduler, race detector, disk faults and a simulated database, each compared with itself run alone",
         "Oracle: the same program alone on an identical machine, sometimes in a fresh process. The race detector sees the executed interleavings only."),
 "C07": (T + "concurrent registrations and opens under a seeded scheduler with stalling, failing, panicking and reentrant drivers; linearizability search over the history, race detector",
         "Oracle: a sequential registry; Wing-Gong search for a linearization. Runs in a program of its own, whose package variables are reset for every run."),
 "C08": (T + "export and reopen over several generations in varying environments, and after disk-full, write-error and crash truncation at any byte",
         "Oracle: the exported ledger itself. Which transactions are whole in a cut export is read off its lines (a transaction starts with a date in the first column)."),
 "C10": (T + "open/read faults and concurrent writers on a simulated directory, outcome compared with the states the database went through",
         "Oracle: a model of the text database's contents. Writers append or replace files; they never restore earlier contents. A missing transactions file cannot be told from ENOENT, which is not injected."),
 "C11": (T + "connection, query and row faults and concurrent commits in a simulated PostgreSQL server, outcome compared with single database states",
         "Oracle: a model of the documented tables. The server and driver are simulated: statements outside the simulated SQL subset stop the check."),
 "C12": (T + "faults at every kind of step of an open, then descriptors, connections, result sets and transactions of the simulated machine counted",
         "Oracle: the simulated machine's own tables of open descriptors and connections, also after many opens under a descriptor limit."),
 "C09": (T + "journals and databases of any bytes, ledgers changed at random and command lines, under disk faults, must end in a bounded number of steps without a panic",
         "Oracle: no panic, no exit of the process inside the library, no endless loop (steps of the instrumented code bounded relative to the input), programs end with status 0, 1 or 2 and a diagnostic."),
 "C13": (T + "histories in which a journal grows while the simulated clock advances, observed then and asked about later, compared with each other and with plain sums",
         "Oracle: what was observed at the time, and sums of the movements in 64 bits. Pivots and partial names are combined with dates in C21."),
 "C14": (T + "runs of reports on a machine whose clock jumps and advances, compared with a model of conversion in rational arithmetic at the clock of each moment",
         "Oracle: rational interpolation between the neighbouring prices, one unit of rounding tolerated per step; chains of prices may take any way through the pairs."),
 "C15": (T + "concurrent readers of one ledger and writers of private clones under a seeded scheduler, race detector, each compared with itself alone",
         "Oracle: the same operations alone, on the same ledger or on another one opened from the same data. The race detector sees the executed interleavings only."),
 "C16": (T + "several commands in one invocation against each alone, on a fragmented, interrupted and slow disk and output",
         "Oracle: each command in an invocation of its own, sometimes in a fresh process. The terminal user interface is a stub."),
 "C17": (T + "write errors, short writes, full disks and broken pipes at any byte of a report or export, each with the fault-free output as reference",
         "Oracle: the fault-free output; a failing writer must be reported (an error, or a status other than 0), and what was written must be a prefix."),
 "C18": (T + "histories of changing data, changes in memory, clones and refreshes, with disk and connection faults and concurrent changes during a refresh",
         "Oracle: a ledger newly opened from the same data on another machine, or the ledger as it was. An include that cannot be opened may be left out if a diagnostic names it, as when opening (C01)."),
 "C21": (T + "report commands on stored ledgers at a jumping clock, on a fragmented, interrupted and slow disk and output, read back and compared with sums over the stored movements",
         "Oracle: sums of the movements of the opened ledger in 64 bits, by a reference model of the reports; market values use the library's own conversion, which C14 decides. Totals of a report fit in 64 bits. Market values without an end date depend on the clock and are left to C14."),
}
notready = {}
for i in list(range(1, 19)) + [21]:
    c = "C%02d" % i
    if c not in claimed:
        notready[c] = "the check is being built"
pure = "a pure function of its input: no schedule, clock, fault, I/O or interleaving takes part, so there is nothing to simulate"
na = {
 "C19": pure + " (reading and writing of single amounts is still exercised through whole journals by C03 and C08)",
 "C20": pure + " (running balances are still recomputed in big integers by C03 and C04)",
}
na.update(notready)
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{
    "property": c,
    "quick_cmd": "bash check.sh " + c,
    "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + c,
    "evidence_file": "evidence/%s.json" % c,
    "technique": t,
    "level": "exploration",
    "level_note": common + n,
 } for c, (t, n) in sorted(claimed.items())],
 "not_applicable": [{"property": c, "reason": r} for c, r in sorted(na.items())],
 "notes": "No hooks in /repo: the checks build an instrumented copy of /repo's working tree in a scratch directory, with the simulator's seams in an overlay of the Go standard library (tools/simbuild). Findings and repairs: known_findings.txt and DESIGN.md.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
