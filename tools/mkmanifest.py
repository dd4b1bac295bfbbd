#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py (run it after editing). Properties without a workload are listed as not applicable."""
import json, os
import props
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DONE = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P23 P24 P25 P26 P27 P28 P29 P30 P32".split()
NA = {"P31": "The scripts are bash programs that start mv, rm, sum, awk and the built tools as processes of the operating system; there is no seam that would put bash, these programs and their scheduling under the simulator, and an interpreter of our own for the scripts would not run the real code. The tools they start are covered by P23 and P25; that ls -l reports the sum of the bytes that bigfile-cat -b prints is part of P25."}
allp = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "BIGFILE_SIM", "enable": "no hooks were needed: the sources are compiled unmodified and libc/MPI entry points are redirected at object level (tools/build.py); the guard is reserved and unused", "source_commits": []},
     "checks": [dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                     evidence_file="evidence/%s.json" % i, technique=props.P[i]["technique"], level=props.P[i]["level"], level_note=props.P[i]["note"]) for i in DONE],
     "not_applicable": [dict(property=i, reason=NA.get(i, "no check is claimed for it yet")) for i in allp if i not in DONE],
     "notes": "See DESIGN.md. Replay a violation with: python3 check.py replay <file> [--trace]"}
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
