#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation of the whole executable with "
NOTE = ("Seeded search over simulated executions of the real executable; every failure is minimised and replays exactly. Trusts the "
        "simulated operating system (sim/shim/simos.c) and %s. ")
MODEL = "the reference model in exact fractions (sim/model.py)"
SELF = "nothing but the comparison of runs of the same executable"
C = {
 "C01": ("seeded hash keys, directory order, read and write splitting and signals; runs compared byte for byte", SELF),
 "C02": ("seeded faults on every input operation and allocation; outcome compared with the fault-free run", SELF),
 "C03": ("seeded output faults and split writes; delivered bytes compared with the fault-free run", SELF),
 "C04": ("seeded faults; every system call that could change anything is an alarm of the simulated OS", "that the simulated OS sees every system call"),
 "C05": ("seeded file layouts and listing orders; include trees compared with their inlined text", SELF),
 "C06": ("seeded include graphs, link farms, damaged files and faults; bounded steps and CPU time as the liveness check", "the include-graph oracle of the check"),
 "C07": ("a simulated concurrent editor acting at seeded steps; the report checked against all version combinations", SELF),
 "C08": ("seeded torn and cut files and early ends of file; compared with the reference model of the surviving text", MODEL),
 "C09": ("seeded journals, defects and perturbations against a reference model", MODEL),
 "C10": ("seeded histories and file placements against a reference model", MODEL),
 "C11": ("seeded journals and perturbations; reports reconciled with each other and a reference model", MODEL),
 "C12": ("seeded clocks, time zones, windows and filters against a reference model", MODEL),
 "C13": ("seeded clocks and price histories against a reference model", MODEL),
 "C14": ("seeded init files, home and working directories and faults on them against a precedence oracle", "the precedence oracle of the check"),
 "C15": ("seeded hash keys and journals against a reference model of names", MODEL),
 "C16": ("seeded terminals, locales and colour settings; runs compared after removing layout", SELF),
 "C17": ("seeded rules, placements and perturbations against a reference model", MODEL),
 "C18": ("seeded valid, invalid, damaged and unreadable journals; verdicts of all commands compared", MODEL),
 "C21": ("a simulated clock that passes midnight or jumps at seeded steps of the run; compared with runs that keep one day", SELF),
 "C22": ("seeded price histories, file placements and perturbations against a reference model", MODEL),
 "C23": ("seeded defects, file trees and read patterns; the place named compared with the place known to the generator", MODEL),
 "C24": ("a simulated process appending at seeded steps and bytes; the report checked against every point of the growth", SELF),
 "C25": ("simulated programs saving the files with seeded line ends, blanks and empty lines; compared with the plain files", SELF),
 "C26": ("seeded surroundings: place, environment, user, host, file identity and times, permissions, heap, stray files, day; compared with a plain run", SELF),
 "C27": ("seeded mistakes on the command line, in the init file and in queries, under seeded clocks and perturbations; refusal before any report line", "the generator (it knows which mistake it made)"),
}
checks = [{"property": p, "quick_cmd": "python3 sim/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 sim/check.py " + p,
           "technique": T + t, "level": "exploration",
           "level_note": NOTE % trust + "What was explored (runs, faults, distinct executions) is in the evidence file; nothing outside it is claimed."}
          for p, (t, trust) in sorted(C.items())]
m = {"version": 1, "setup_cmd": "python3 sim/check.py --build", "checks": checks,
     "not_applicable": [
         {"property": "C19", "reason": "Evaluating a value expression is a pure function of its text and a posting: no schedule, clock, I/O or fault can change it, so simulation adds nothing to plain input generation. The expressions that select postings in filters and rules are exercised through C12 and C17, where clock and file layout do matter."},
         {"property": "C20", "reason": "Reading the journal syntax is a pure function of the text once the bytes are in memory. The parts where input delivery matters (splitting, cutting, damage, read errors) are decided by C01, C02, C05 and C08; the meaning of a piece of syntax is outside the reach of this technique."}],
     "notes": "No hooks in /repo: the seam is the system-call interface, replaced by an LD_PRELOADed simulated OS built from /verif/sim/shim. known-findings.json lists the known finding and the repaired defects."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
