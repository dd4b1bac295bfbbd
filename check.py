#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--secs N]   search for a violation of one property
check.py replay FILE [--trace]                         re-execute a replay file; exit 1 when the violation reproduces
check.py setup                                         build everything once

Exit 0: the property held on everything explored.  Exit 1 and `VIOLATION property=<id> replay=<path>`: it is broken.
Exit 3: the check could not give an answer (the code does not build, or a run could not be repeated)."""
import argparse, array, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build  # noqa: E402
import props  # noqa: E402

CORES = max(1, min(8, len(os.sched_getaffinity(0))))
KNOWN = os.path.join(HERE, "known-findings.txt")
QUICK_SECS, THOROUGH_SECS = 35, 600


class NoAnswer(Exception):
    pass


# ---- running the engine -------------------------------------------------------------------
class Engine:
    """One built engine; knows how to search, generate and replay."""

    def __init__(self, prop):
        self.prop = prop
        self.py = prop in props.PYTHON
        self.dir = build.build(want_cov=prop in props.COV, python=self.py)
        self.tmp = tempfile.mkdtemp(prefix="bfcheck-")
        self.cmd = build.engine_cmd(self.dir, self.py)
        self.env = dict(os.environ)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def gen(self, seed, scale):
        p = subprocess.run(self.cmd + ["gen", self.prop, str(seed), str(scale)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=self.env)
        if p.returncode:
            raise NoAnswer("cannot generate the plan of seed %d: %s" % (seed, p.stderr[-500:]))
        return p.stdout

    def replay(self, plan, limit=10, trace=False, echo=False):
        """-> (kind, out): kind is None when nothing is violated."""
        f = tempfile.NamedTemporaryFile("w", dir=self.tmp, suffix=".plan", delete=False)
        f.write(plan)
        f.close()
        try:
            p = subprocess.run(self.cmd + ["replay", f.name] + (["trace"] if trace else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               errors="replace", env=dict(self.env, BF_RUNLIMIT=str(limit)), timeout=limit * 16 + 60)
        except subprocess.TimeoutExpired:
            return "no-answer", {"msg": "the engine did not stop", "hash": "", "sched": []}
        finally:
            os.unlink(f.name)
        if echo:
            sys.stderr.write(p.stderr)
        if p.returncode in (0, 1):
            try:
                o = json.loads(p.stdout.splitlines()[-1])
            except (ValueError, IndexError):
                return "no-answer", {"msg": p.stderr[-500:], "hash": "", "sched": []}
            return (o["kind"] if o["viol"] else None), o
        return crash_kind(p.returncode, p.stderr)


def crash_kind(rc, err):
    if rc == 77:
        m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", err)
        what = m.group(1) if m else "sanitizer report"
        what = re.sub(r"0x[0-9a-f]+|\(pc.*|==\d+==", "", what).strip()
        cls = what.split(" on ")[0].split(" in ")[0].split(":")[0].strip()[:60]
        return "memory-error", {"msg": "AddressSanitizer: " + what + " " + frames(err), "hash": cls, "sched": []}
    if rc == 78:
        return "hang", {"msg": "one run used up its processor time without returning", "hash": "hang", "sched": []}
    if rc < 0 and rc not in (-9, -15):
        return "memory-error", {"msg": "the process died from signal %d" % -rc, "hash": "signal", "sched": []}
    return "no-answer", {"msg": "engine exit %d: %s" % (rc, err[-800:]), "hash": "", "sched": []}


def frames(err):
    r = []
    for m in re.finditer(r"^\s+#\d+ 0x\w+ +\(?([^\n)]*)", err, re.M):
        r.append(m.group(1).split(" (")[0].split("/")[-1])
        if len(r) == 4:
            break
    return "[" + "; ".join(r) + "]"


# ---- search ---------------------------------------------------------------------------------
def search(e, seed0, secs, scale):
    """-> (totals, list of (seed, kind, out, plan), nondeterminism reports)"""
    ps = []
    n = CORES
    for i in range(n):
        st = "%s/st%d" % (e.tmp, i)

        def pin(i=i):
            try:
                cs = sorted(os.sched_getaffinity(0))
                os.sched_setaffinity(0, {cs[i % len(cs)]})
            except OSError:
                pass
        out = open("%s/out%d" % (e.tmp, i), "w+")
        err = open("%s/err%d" % (e.tmp, i), "w+", errors="replace")
        ps.append((i, st, out, err, subprocess.Popen(e.cmd + ["run", e.prop, str(seed0 + i), str(n), str(secs), str(scale), st],
                                                     stdout=out, stderr=err, env=dict(e.env, BF_STOP="1"), preexec_fn=pin)))
    deadline = time.time() + secs + 240
    stopped = False
    while any(p.poll() is None for *_, p in ps):
        time.sleep(0.1)
        bad = any(p.poll() not in (None, 0) for *_, p in ps)
        if bad and not stopped:
            time.sleep(0.5)  # others may be about to report as well
            stopped = True
            for *_, p in ps:
                if p.poll() is None:
                    p.terminate()
        if time.time() > deadline:
            for *_, p in ps:
                if p.poll() is None:
                    p.kill()
    tot = {"runs": 0, "vtime_us": 0, "steps": 0, "switches": 0, "nontrivial": 0, "selfchecked": 0, "ms": 0, "stat": {}, "samples": []}
    execs, scheds, found, nondet = set(), set(), [], []
    for i, st, out, err, p in ps:
        out.seek(0)
        err.seek(0)
        text, etext = out.read(), err.read()
        out.close()
        err.close()
        done = False
        for line in text.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if "found" in d:
                o = d["found"]["out"]
                found.append((d["found"]["seed"], o["kind"], o, o["plan"]))
            elif "nondet" in d:
                nondet.append(d)
            elif "done" in d:
                done = True
                x = d["done"]
                for k in ("runs", "vtime_us", "steps", "switches", "nontrivial", "selfchecked"):
                    tot[k] += x[k]
                tot["ms"] = max(tot["ms"], x["ms"])
                for k, v in x["stat"].items():
                    tot["stat"][k] = tot["stat"].get(k, 0) + v
                if len(tot["samples"]) < 3:
                    tot["samples"] += x["samples"][:1]
                for suffix, s in ((".h", execs), (".s", scheds)):
                    a = array.array("Q")
                    try:
                        a.frombytes(open(st + suffix, "rb").read())
                    except OSError:
                        pass
                    s.update(a)
        if not done:
            try:
                seed, _, runs, _ = struct.unpack("QQQQ", open(st, "rb").read(32))
            except (OSError, struct.error):
                seed, runs = None, 0
            tot["runs"] += runs
            if p.returncode not in (0, 1, 4, -15):
                kind, o = crash_kind(p.returncode, etext)
                if kind == "no-answer" and seed is None:
                    raise NoAnswer(o["msg"])
                found.append((seed, kind, o, None))
    tot["distinct_exec"], tot["distinct_sched"] = len(execs), len(scheds)
    return tot, found, nondet


# ---- minimising ---------------------------------------------------------------------------------
def split_plan(plan):
    head, ops, faults, sched = [], [], [], []
    for line in plan.splitlines():
        w = line.split(" ", 1)[0]
        if not line or line[0] == "#":
            continue
        (ops if w == "op" else faults if w == "fault" else sched if w == "sched" else head).append(line)
    return head, ops, faults, sched


def join_plan(parts):
    return "\n".join(parts[0] + parts[1] + parts[2] + parts[3]) + "\n"


class Minimiser:
    def __init__(self, e, plan, kind, budget, tag=None):
        self.e, self.kind, self.t_end, self.tries = e, kind, time.time() + budget, 0
        self.limit = 5 if kind == "hang" else 10
        self.tag = tag
        self.parts = split_plan(plan)
        self.pool = ThreadPoolExecutor(CORES)

    def same(self, kind, o):
        return kind == self.kind and (self.kind != "memory-error" or self.tag is None or o["hash"] == self.tag)

    def ok(self, parts):
        if time.time() > self.t_end:
            return False
        self.tries += 1
        return self.same(*self.e.replay(join_plan(parts), self.limit))

    def first(self, cands):
        """the first candidate that still fails, evaluated a batch at a time"""
        for i in range(0, len(cands), CORES):
            b = cands[i:i + CORES]
            for c, r in zip(b, list(self.pool.map(self.ok, b))):
                if r:
                    return c
            if time.time() > self.t_end:
                return None
        return None

    def shrink_list(self, k):
        n = max(1, len(self.parts[k]) // 2)
        while self.parts[k] and n >= 1:
            cur = self.parts[k]
            cands = []
            for i in range(0, len(cur), n):
                p = list(self.parts)
                p[k] = cur[:i] + cur[i + n:]
                cands.append(tuple(p))
            if k == 1:
                cands.reverse()   # later operations first: a failing run rarely needs what comes after
            c = self.first(cands)
            if c:
                self.parts = c
                n = min(n, max(1, len(self.parts[k])))
            else:
                if n == 1:
                    break
                n //= 2

    def shrink_cfg(self):
        for rx, to in ((r"shortio=\d+", "shortio=0"), (r"dtunknown=1", "dtunknown=0"), (r"shuffle=1", "shuffle=0"), (r"cap=\d+", "cap=-1"),
                       (r"fdlimit=[1-9]\d*", "fdlimit=0"), (r"closefaults=1", "closefaults=0"), (r"weak=\d+", "weak=0"), (r"eager=\d+", "eager=1000")):
            h = [re.sub(r"(?<= )" + rx, to, x) if x.startswith("cfg") else x for x in self.parts[0]]
            if h != self.parts[0]:
                c = self.first([(h,) + tuple(self.parts[1:])])
                if c:
                    self.parts = c

    def shrink_values(self):
        for i in range(len(self.parts[1])):
            for m in list(re.finditer(r" (\w+)=(\d+)(?= |$)", self.parts[1][i])):
                if m.group(1) in ("vs",) or m.group(2) in ("0", "1"):
                    continue
                for v in ("0", "1", str(int(m.group(2)) // 2)):
                    line = re.sub(r" %s=%s(?= |$)" % (m.group(1), m.group(2)), " %s=%s" % (m.group(1), v), self.parts[1][i])
                    ops = list(self.parts[1])
                    ops[i] = line
                    c = (self.parts[0], ops, self.parts[2], self.parts[3])
                    if time.time() > self.t_end:
                        return
                    if self.ok(c):
                        self.parts = c
                        break

    def run(self):
        if not self.ok(self.parts):
            return None
        # turn the seeded schedule into an explicit one
        kind, o = self.e.replay(join_plan(self.parts), self.limit)
        if o.get("sched") and any(x.startswith("cfg") and "explicit=0" in x for x in self.parts[0]):
            h = [x.replace("explicit=0", "explicit=1") if x.startswith("cfg") else x for x in self.parts[0]]
            c = (h, self.parts[1], self.parts[2], ["sched %d %d" % (a, b) for a, b in o["sched"]])
            if self.ok(c):
                self.parts = c
        while time.time() < self.t_end:
            before = join_plan(self.parts)
            self.shrink_list(2)
            self.shrink_list(1)
            if len(self.parts[3]) <= 4000:
                self.shrink_list(3)
            self.shrink_cfg()
            if join_plan(self.parts) == before:
                break
        self.shrink_values()
        self.shrink_list(1)
        return join_plan(self.parts)


# ---- known findings ---------------------------------------------------------------------------------
def known(prop):
    """lines `finding: property=P05 kind=<kind> match=<regex> :: what fails` (findings that were repaired are listed as `fixed:` and suppress nothing)"""
    r = []
    try:
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.*?) :: (.*)", line)
            if m and m.group(1) == prop:
                r.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except OSError:
        pass
    return r


# ---- one check ---------------------------------------------------------------------------------
def fault_counts(stat):
    return {k[6:]: v for k, v in sorted(stat.items()) if k.startswith("fault.")}


def evidence(prop, tier, seed, wall, tot, nviol, extra):
    pi = props.P[prop]
    hours = max(tot["ms"], 1) / 3.6e6
    calls = {k[5:]: v for k, v in sorted(tot["stat"].items()) if k.startswith("call.")}
    other = {k: v for k, v in sorted(tot["stat"].items()) if not k.startswith(("fault.", "call.", "errno."))}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": pi["level"], "wall_s": round(wall, 2), "violations": nviol,
        "assumptions": pi["assumptions"] + props.ASSUME,
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": tot["distinct_exec"],
            "rule": "one evaluation is one simulated run: workload, schedule and faults drawn from one seed. Non-trivial: more than 20 simulated calls. Distinct: "
                    "different hash over every simulated call in order, every fault, every byte written and the final storage. " + pi["rule"],
            "samples": tot["samples"][:3],
            "runs_per_hour": round(tot["runs"] / hours), "seeds_per_hour": round(tot["runs"] / hours),
            "simulated_time_s": round(tot["vtime_us"] / 1e6, 3), "simulated_calls": tot["steps"], "task_switches": tot["switches"],
            "distinct_interleavings": tot["distinct_sched"], "interleaving_measure": "distinct (sequence of task switches by step, execution hash) pairs among runs with more than one task",
            "runs_executed_twice_to_check_determinism": tot["selfchecked"],
            "faults_injected": fault_counts(tot["stat"]), "errnos_injected": {k[6:]: v for k, v in sorted(tot["stat"].items()) if k.startswith("errno.")},
            "calls_judged": calls, "counters": other, "real_components": pi["real"], "stubbed_components": pi["stub"], "exhaustive": False,
        },
    }
    ev["coverage"].update(extra)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    tmp = HERE + "/evidence/.%s.tmp" % prop
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, HERE + "/evidence/%s.json" % prop)


def check(prop, tier, secs):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    e = Engine(prop)
    try:
        return check_(e, prop, tier, secs, seed, t0)
    finally:
        e.close()


def check_(e, prop, tier, secs, seed, t0):
    scale = 0 if tier == "quick" else 1
    kf = known(prop)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    tot = None
    remaining, seed0, viol, extra = float(secs), seed * 1000000007, None, {}
    unrepeatable = []
    while remaining > 1 and viol is None:
        t, found, nondet = search(e, seed0, remaining, scale)
        tot = t if tot is None else add(tot, t)
        unrepeatable += ["seed %d: two runs of one plan differ" % d["nondet"] for d in nondet]
        found.sort(key=lambda f: (f[1] in ("memory-error", "hang", "no-answer"), f[1] == "hang", len(f[3] or "")))
        for s, kind, o, plan in found:
            if plan is None:
                plan = e.gen(s, scale)
            k1, o1 = e.replay(plan)
            k2, o2 = e.replay(plan)
            if k1 is None or k1 == "no-answer" or k1 != k2 or o1["hash"] != o2["hash"] or (kind not in ("no-answer", "memory-error", "hang") and o1["hash"] != o["hash"]):
                unrepeatable.append("seed %d: %s in the search, %s and %s when replayed (%s)" % (s, kind, k1, k2, o["msg"][:300]))
                continue
            if any(k[0] == k1 and k[1].search(o1["msg"]) for k in kf):
                continue
            viol = (s, k1, o1, plan)
            break
        if not found and not nondet:
            break
        seed0 += 100000007
        remaining = secs - (time.time() - t0)
    if viol is None:
        evidence(prop, tier, seed, time.time() - t0, tot, 0, extra)
        if unrepeatable:
            raise NoAnswer("; ".join(unrepeatable)[:3000])
        print("%s: held in %d simulated runs (%d distinct), %d faults injected, %.1f s" % (prop, tot["runs"], tot["distinct_exec"], sum(fault_counts(tot["stat"]).values()), time.time() - t0))
        return 0
    s, kind, o, plan = viol
    path = report(e, prop, tier, s, kind, o, plan)
    evidence(prop, tier, seed, time.time() - t0, tot, 1, {"violation": {"seed": s, "kind": kind, "message": o["msg"], "replay": path}})
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return 1


def add(a, b):
    for k, v in b.items():
        if k == "stat":
            for x, y in v.items():
                a["stat"][x] = a["stat"].get(x, 0) + y
        elif k == "samples":
            a[k] += v
        else:
            a[k] += v
    return a


def report(e, prop, tier, seed, kind, o, plan):
    m = Minimiser(e, plan, kind, 60 if tier == "quick" else 120, o["hash"] if kind == "memory-error" else None)
    small = m.run() or plan
    k, o2 = e.replay(small)
    if k != kind:
        small, o2 = plan, o
    os.makedirs(HERE + "/replay", exist_ok=True)
    path = "%s/replay/%s-%d.plan" % (HERE, prop, seed)
    a, b = split_plan(plan), split_plan(small)
    with open(path, "w") as f:
        f.write("# property=%s seed=%d kind=%s hash=%s\n" % (prop, seed, kind, o2["hash"]))
        f.write("# %s\n" % o2["msg"].replace("\n", " "))
        f.write("# minimised from %d operations, %d faults, %d scheduling decisions to %d, %d, %d in %d replays\n" % (
            len(a[1]), len(a[2]), len(o.get("sched", [])), len(b[1]), len(b[2]), len(b[3]), m.tries))
        f.write("# replay with: python3 %s/check.py replay %s [--trace]\n" % (HERE, path))
        f.write(small)
    print("%s: %s: %s" % (prop, kind, o2["msg"][:1500]))
    print(small)
    return path


def replay(path, trace):
    text = open(path).read()
    m = re.match(r"# property=(\S+) seed=(\d+) kind=(\S+) hash=(.*)", text)
    if not m:
        raise NoAnswer("%s is not a replay file" % path)
    e = Engine(m.group(1))
    try:
        kind, o = e.replay(text, trace=trace, echo=trace)
        same = kind == m.group(3) and o["hash"] == m.group(4)
        print("%s: recorded %s hash %s; now %s hash %s: %s" % (m.group(1), m.group(3), m.group(4), kind, o["hash"], "reproduced exactly" if same else "NOT the same"))
        if kind:
            print(o["msg"])
            if kind != "no-answer":
                print("VIOLATION property=%s replay=%s" % (m.group(1), path))
                return 1
            return 3
        return 0
    finally:
        e.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--secs", type=float)
    ap.add_argument("--trace", action="store_true")
    a = ap.parse_args()
    try:
        if a.what == "setup":
            build.build()
            build.build(want_cov=True)
            build.build(python=True)
            return 0
        if a.what == "replay":
            return replay(a.file, a.trace)
        tier = "thorough" if a.tier == "thorough" else "quick"
        return check(a.what, tier, a.secs or (QUICK_SECS if tier == "quick" else THOROUGH_SECS))
    except (build.BuildError, NoAnswer) as ex:
        print("check.py: no answer: %s" % ex)
        return 3


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
