#!/usr/bin/env python3
"""dev.py PROP SECS [SCALE]: 8 workers, prints the kinds of failure found (development aid)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
prop, secs = sys.argv[1], sys.argv[2]
PY = prop in ("P27", "P28", "P32")
B = build.build(want_cov=not PY, python=PY)
E = build.engine_cmd(B, PY)
env = dict(os.environ)
ps = [subprocess.Popen(["taskset", "-c", str(i), *E, "run", prop, str(int(os.environ.get("SEED0", "1")) + i), "8", secs, sys.argv[3] if len(sys.argv) > 3 else "0", "/tmp/st%d" % i], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env) for i in range(8)]
kinds, runs, stat, ms, steps = {}, 0, {}, 0, 0
for i, p in enumerate(ps):
    out, err = p.communicate()
    if p.returncode not in (0, 1):
        import struct
        seed = struct.unpack("Q", open("/tmp/st%d" % i, "rb").read(8))[0]
        first = [l for l in err.splitlines() if "ERROR" in l or "limit" in l or "SUMMARY" in l]
        kinds.setdefault("CRASH " + (first[0][:200] if first else err[-300:]), (seed, "rc=%d" % p.returncode, ""))
    for l in out.splitlines():
        d = json.loads(l)
        if "nondet" in d: kinds["NONDET"] = (d["nondet"], json.dumps(d)[:1500], "")
        if "found" in d:
            f = d["found"]; o = f["out"]; k = o["kind"]
            if k not in kinds or len(o["plan"]) < len(kinds[k][2]): kinds[k] = (f["seed"], o["msg"][:400], o["plan"])
        if "done" in d:
            x = d["done"]; runs += x["runs"]; ms = max(ms, x["ms"]); steps += x["steps"]
            for a, b in x["stat"].items(): stat[a] = stat.get(a, 0) + b
print(prop, "runs", runs, "per s", runs * 1000 // max(ms, 1), "steps/run", steps // max(runs, 1))
for k, v in kinds.items(): print("  **", k, "seed", v[0], ":", v[1])
if os.environ.get("STAT"): print(json.dumps(stat, indent=0, sort_keys=True).replace("\n", " "))
