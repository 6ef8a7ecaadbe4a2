"""Writes MANIFEST.json from one table (run by hand after changes)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
T = "deterministic simulation with fault injection: "
CHECKS = {
 "C01": ("seeded runs of main.py on a simulated disk; errors, full disks, failed allocations, interrupts and short transfers injected below Python's buffered I/O; outputs compared with an undisturbed run of the same seed",
         "Every run that reported success under sampled fault plans had complete, identical outputs; assumes faults surface through Python's file layer (libxml2 reads only the schema by itself)"),
 "C02": ("seeded crash/restart histories with power-loss damage to unsynchronised files and leftovers; final run compared byte for byte with a pristine machine",
         "Sampled crash points (I/O operations and executed lines), up to 3 crashes per history"),
 "C03": ("seeded faults, crashes and invalid inputs; the disk is compared with the machine before the run, output paths must hold old content or a prefix of new",
         "Sampled; opens are recorded at the seam so a touch that restores content is seen, too"),
 "C04": ("seeded catalogues delivered through the simulated disk with short reads, read errors and interleaved readers; independent reference reader as oracle",
         "Sampled byte sequences, chunkings and fault points against a reference written from the documentation"),
 "C05": ("simulated clock with year rollovers, jumps and offsets moving while a catalogue is read; acceptance judged against the clock window of each row",
         "Sampled clock histories; rows read while the year changes may be judged by either year"),
 "C06": ("store / crash / restart / read-back histories on the simulated disk with split transfers and leftovers; entries compared bit for bit",
         "Sampled entries and histories; entries come from valid catalogues"),
 "C07": ("two-process histories (preprocess, crash, rerun, clock moves, resume) compared with a one-process run of the same seed",
         "Exact for declustering; for Stepp with MLE up to the five decimals of the stored table"),
 "C08": ("seeded documents and mutations delivered with chunked, torn and failing reads, several readers interleaved by the scheduler; independent lxml model as oracle",
         "Sampled documents, mutations and interleavings; DTD entities are not generated"),
 "C09": ("write / crash / restart / read-back histories of source models on the simulated disk; schema validation and field-by-field comparison",
         "Sampled sources and histories"),
 "C10": ("histories of runs, failures and crashes on one machine, then a run whose result document is compared with an independent reference pipeline",
         "Reference reimplements the estimators; agreement to 1e-6 relative; no event on a polygon edge"),
 "C11": ("the same catalogue run with permuted, reduced and isolated zone lists in seeded process histories; zone results compared across lists and with the input values",
         "Sampled degenerate zones, catalogues and histories"),
 "C12": ("several workflows in one process, sequential or in threads whose every switch a seeded scheduler decides at line and I/O boundaries; results compared with runs alone",
         "Sampled schedules (random walk, PCT, round robin); no switches inside C calls"),
 "C13": ("histories of runs, failures and crashes, then a preprocessing run whose stored catalogue and table are compared with an independent selection",
         "Reference reimplements declustering, Stepp and selection"),
 "C14": ("recording stand-ins behind the calculation seam; failures injected into each job, I/O operation or line; sequence of calls and file operations checked against the configured order",
         "Sampled job lists, failing points and sequences of workflows"),
 "C15": ("seeded fault histories and degenerate inputs under step and I/O budgets that are functions of input sizes and configured limits only",
         "Work counted in executed lines and I/O operations; budgets have slack of at least 3 over everything seen"),
 "C16": ("state of the random generators, foreign draws between lines, string-hash seed and thread schedule varied by the simulator; outputs compared",
         "Sampled generator states; hash seeds through a second interpreter"),
 "C17": ("the same run with and without -d while console and debug log fail in seeded ways; outcome and outputs compared",
         "Opening the log file is assumed to succeed"),
 "C18": ("store / tear / crash / restart / retrieve histories of completeness tables, and second runs whose table in force is recorded",
         "Sampled tables and histories"),
}
NA = {
 "C19": "a pure function of its arguments: no schedule, clock, I/O, fault or history can influence it, so a simulator adds nothing to plain input generation (what a run keeps is compared with a reference in C13)",
 "C20": "a pure numeric function: nothing for a scheduler or a fault injector to act on (the stored table is compared with a reference in C13)",
 "C21": "pure numeric functions; only their termination (C15), wiring (C10) and behaviour on zones without data (C11) depend on histories, and are claimed there",
 "C22": "pure numeric functions apart from the random draws, whose confinement is claimed as C16",
 "C23": "pure functions without time, I/O, randomness or shared state",
 "C24": "pure numeric code, and its module cannot be imported in this environment (needs nhlib)",
}
out = dict(
    version=1,
    setup_cmd="./check.py --setup",
    checks=[dict(property=k, quick_cmd="./check.py %s" % k,
                 thorough_cmd="VERIF_TIER=thorough ./check.py %s" % k,
                 evidence_file="evidence/%s.json" % k,
                 technique=T + v[0], level="exploration",
                 level_note=v[1] + ". Sampling: a clean batch is evidence, not proof.")
            for k, v in CHECKS.items()],
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="No hooks in /repo: every seam (file layer, clock, random state, console, map_sc, threads) exists in Python or in the code. Replay: ./check.py Cxx --replay FILE.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
