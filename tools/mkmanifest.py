#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ model checked with TLC; "
CLAIMED = {
    "P01": T + "programs generated by the specification are mutated by the real tool, compiled and run with nothing enabled, and compared with the meaning the specification gives the program",
    "P02": T + "every mutant the specification enumerates is enabled in the real mutated program and its behaviour compared with the edited program the specification defines",
    "P03": T + "the sets a specification of the selection list assigns to every list of identifiers are compared with the behaviour of the real mutated programs under that list",
    "P04": T + "every sequence of input files of the session model is replayed through the real tool and the identifier blocks compared",
    "P05": T + "schedules of threads generated by the specification of the run-time code are replayed in real mutated programs of two files, with threads suspended at the points the schedule names",
    "P07": T + "the redundancy rules are checked by exhaustive evaluation in the specification, and every mutant the real tool drops is judged by the behaviour of the mutants of the generated programs",
    "P17": T + "the answers the specification's edits imply for every generated mutant are compared with the real script's answers",
    "P08": T + "programs generated by the specification are run in tracking mode under every tracking-file state and compared with the meaning the specification gives them",
    "P09": T + "the set of places the specification says a run reaches is compared with the identifiers the real tracking-mode program records; schedules of threads, processes and kills generated by the specification are replayed in real programs",
    "P15": T + "every program of the specification is mutated by the real tool in every mode and the output compiled, alone and linked with others",
    "P16": T + "the parts the specification marks as needed at compile time or never evaluated are compared with where the real tool offers mutants, and the programs are compiled and run",
    "P13": T + "every sequence of good and failing input files of the session model is replayed through the real tool",
    "P14": T + "every sequence of input files of the session model is replayed through the real tool and the file system compared before and after",
    "P18": T + "sequences of the session model are replayed several times and in several surroundings and the outputs compared",
    "P19": T + "for every generated program and input the mutants not recorded by tracking are enabled in the real mutated program and the behaviour compared",
    "P06": T + "the mutants the specification allocates to every generated program are compared one to one with those the real tool reports",
    "P10": T + "the numbering state machine of the specification is compared with the identifiers used by both modes of the real tool",
    "P11": T + "tree invariants are checked on the specification and the real tree is compared with the specification's tree",
    "P12": T + "the source extents the specification assigns to every mutant are compared with the locations and snippets the real tool records, over several layouts",
}
LEVEL_NOTE = {}
NOTE = "bounded: all programs, mutants and histories enumerated by the specification within its constants; sampled inputs for execution"
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [],
     "notes": "All checks: harness/check.py <property> <tier>. Each builds the tool from /repo's working tree out of tree, under /var/tmp, and removes what it made."}
for i in ids:
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "python3 harness/check.py %s quick" % i,
                            "thorough_cmd": "python3 harness/check.py %s thorough" % i,
                            "technique": CLAIMED[i], "level": "model_checking",
                            "level_note": LEVEL_NOTE.get(i, NOTE), "evidence_file": "evidence/%s.json" % i})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
