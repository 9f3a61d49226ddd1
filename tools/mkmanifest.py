#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation: seeded search over schedules, message timings and faults, "
claimed = {
 "C01": T + "result compared with an independent serial transport solver",
 "C02": T + "converged result compared with an independent undecomposed solver",
 "C03": T + "recorded visiting order checked against the dependency graph of the mesh",
 "C04": T + "schedules of all processes checked against the dependency graph of the mesh",
 "C05": T + "progress within a bounded number of steps under every legal buffering",
 "C06": T + "contract monitors in the simulated message layer (buffers, requests, collectives, thread level)",
 "C07": T + "happens-before race detection on every instrumented access of the simulated threads",
 "C08": T + "exchanged values checked against values that encode where they come from",
 "C09": T + "output bytes checked after runs over arbitrary earlier files and after interrupted runs",
 "C10": T + "injected output faults; success is only accepted with a correct file",
 "C11": T + "damaged mesh files and injected read faults; success is never accepted on wrong data",
 "C12": T + "mesh tools under injected stdio faults; output meshes compared with their input",
 "C13": T + "clock jumps, stops and skew; results and iteration counts compared with the reference",
 "C14": T + "adjacency of all processes checked against the serial mesh",
 "C15": T + "iteration counts and reported changes compared with the reference iteration",
 "C16": T + "failed allocations at drawn points; success is only accepted with a correct result",
 "C19": T + "whole jobs on decks in many notations compared with the reference for the written settings; decks with one mistake must be refused",
 "C21": T + "every access of every simulated run checked against the live allocations of the process",
 "C22": T + "injected open and read faults of the deck; success is only accepted with the result the deck asks for",
 "C23": T + "what each process prints compared with the bytes of the mesh file, over read faults",
}
notapp = {
 "C17": "The quadrature is a pure function of its order, computed once per process without schedule, time, I/O or faults to vary; simulation adds nothing to calling it.",
 "C18": "The local solve is a pure function of one cell's data; no interleaving, fault or history enters it. (Every method is still exercised against the reference by C01.)",
 "C20": "Refinement geometry is a pure function of the input mesh in a single-threaded tool; the tool's I/O is covered by C12.",
}
only = sys.argv[1:] or list(claimed)
note = ("Seeded exploration: the real /repo/src code runs on simulated MPI, OpenMP, PETSc, file system, clock and allocator; "
        "one seed is one repeatable execution and every failure is confirmed by re-execution, minimised and saved as a replay file. "
        "Schedules and faults not drawn within the budget are not covered; the simulated layers are trusted to allow exactly what their standards allow.")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": claimed[p], "level": "exploration", "level_note": note} for p in only],
     "not_applicable": [{"property": p, "reason": r} for p, r in notapp.items()],
     "notes": "No hooks in /repo: all seams are taken at the linker and compiler (interposed MPI/OpenMP/PETSc headers and symbols, -fsanitize=thread call-outs, --wrap)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
