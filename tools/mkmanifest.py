#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
tech = {
 "C01": "seeded query histories, each answer against the same query in a pristine process",
 "C02": "seeded change/query histories against a model of current data and settings answered by a pristine process",
 "C03": "seeded histories with injected allocation, I/O and data failures at every point, refinement against the history without the failed call",
 "C04": "seeded copy/assign/destroy histories over a population with scribbled freed memory, each object against the model of its own history",
 "C05": "seeded operation sequences with faults against an executable map model",
 "C06": "seeded loads through a simulated failing file system against the records written",
 "C07": "seeded exports onto a simulated failing disk, files parsed back and compared cell by cell",
 "C08": "seeded batch histories, every cell against a direct query in a pristine process",
 "C09": "seeded schedules over every memory access of several threads, each thread against its own solo answers",
 "C10": "the same seeded plan under several simulated memory contents, transcripts compared",
 "C11": "seeded create/fail/destroy histories under a counting allocator and descriptor table",
 "C12": "seeded log reconfiguration and failing log storage, answers against the default log",
 "C13": "seeded locale changes of the host program between operations, answers, records and files against the default locale",
 "C21": "seeded change/failure/query histories, each reaction answer against the stoichiometric sum of its parts asked in pristine processes",
}
note = "Seeded search: evidence over the explored runs, not proof. Real ThermoFun code compiled from the working tree; simulated allocator, file calls, clock and thread scheduler; ChemicalFun's formula parser is a stub. Every reported violation was minimised and failed again identically in a fresh process."
na = {
 "C20": "A statement about the numbers a model returns for one T, P and parameter set: a pure function of its input with no schedule, clock, I/O, fault or history in it, so simulation has nothing to control.",
 "C22": "Unit conversion is a pure function of value and unit strings; nothing nondeterministic or faulty to simulate.",
 "C23": "Parsing is a pure function of the text; the storage side of loading (short reads, torn files, failures) is C06, record contents under histories are C05.",
 "C24": "Agreement with published tables is a fixed comparison of pure numerical functions, independent of schedules and faults.",
}
m = dict(version=1, setup_cmd="python3 tools/build.py all",
 checks=[dict(property=p, quick_cmd=f"python3 check {p}", thorough_cmd=f"python3 check {p} --thorough", evidence_file=f"evidence/{p}.json", technique=T + t, level="exploration", level_note=note) for p, t in tech.items()],
 not_applicable=[dict(property=p, reason=r) for p, r in na.items()],
 notes="No hooks in /repo: every seam is outside (link-time replacement of allocation, file, clock, thread and lock functions; compiler instrumentation of memory accesses). Replay a recorded failure with: python3 check <ID> --replay <file>")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print("ok")
