"""
Runs scenarios: many seeds over several processes, one forked process per
execution; shrinks and replays violations; writes the evidence.
"""
import fcntl
import hashlib
import json
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import world as W

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 90
WALL_LIMIT = 120
SHARDS = int(os.environ.get("DST_SHARDS", "8"))


class Scenario:
    def __init__(self, name, fn, quick, thorough=None, weight=1):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.weight = weight


class Prop:
    def __init__(self, id, scenarios, rule, real, stub, assumptions=(),
                 clean=None):
        self.id = id
        self.scenarios = {s.name: s for s in scenarios}
        self.rule = rule
        self.real = real
        self.stub = stub
        self.assumptions = list(assumptions)


def run_seed(base, prop, scenario, i):
    h = hashlib.blake2b(f"{base}/{prop}/{scenario}/{i}".encode(),
                        digest_size=8)
    return int.from_bytes(h.digest(), "big")


def _execute(prop, sc, source, keep_log, workdir):
    """In a process of its own: one simulated execution."""
    from . import seams
    os.makedirs(workdir)
    os.chdir(workdir)
    w = W.RootWorld(source, workdir, keep_log=keep_log)
    w.seed_base = w.draw(1 << 30, "seed of the random generators")
    res = {"status": "ok"}
    W.set_current(w)
    seams.process_started(w)
    try:
        sc.fn(w)
    except W.Violation as e:
        res.update(status="violation", cls=e.cls, msg=e.msg[:4000])
    except W.Discard:
        res.update(status="discard")
    except MemoryError:
        res.update(status="harness", msg="out of memory")
    except Exception as e:  # pylint: disable=broad-except
        # the oracle could not cope with what the code produced
        tb = traceback.format_exc()
        res.update(status="violation", cls="unexpected:" + type(e).__name__,
                   msg=tb[-3500:])
        if isinstance(e, OSError) and e.errno in (28, 12, 24, 11):
            if "(injected)" not in str(e):
                res["status"] = "harness"
    W.set_current(None)
    res.update(
        tape=w.tape, digest=w.digest(), steps=w.steps,
        simtime=w.time - w.t0, faults=dict(w.faults), counts=dict(w.counts),
        kinds=dict(w.kinds), nontrivial=bool(w.nontrivial),
    )
    if keep_log:
        res["log"] = w.log
    return res


EMPTY = {"tape": None, "digest": "", "steps": 0, "simtime": 0, "faults": {},
         "counts": {}, "kinds": {}, "nontrivial": False}


def run_one(prop, sc, source, keep_log=False, base=None):
    """Fork, execute, collect."""
    workdir = os.path.join(base, f"r{os.getpid()}_{time.monotonic_ns()}")
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            res = _execute(prop, sc, source, keep_log, workdir)
            data = pickle.dumps(res)
        except BaseException:  # pylint: disable=broad-except
            data = pickle.dumps({"status": "harness",
                                 "msg": traceback.format_exc()[-3000:]})
        with os.fdopen(wr, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(wr)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    data = b""
    deadline = time.monotonic() + WALL_LIMIT
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        if not select.select([r], [], [], min(left, 5))[0]:
            continue
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        data += chunk
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(workdir, ignore_errors=True)
    if timed_out:
        # (becomes a violation if it happens again)
        return dict(EMPTY, status="harness", cls="no-progress",
                    msg=f"execution did not end within {WALL_LIMIT} s")
    if not data:
        sig = status & 0x7f
        if sig in (signal.SIGXCPU, signal.SIGKILL):
            return dict(
                EMPTY, status="violation", cls="no-progress",
                msg=f"execution used more than {CPU_LIMIT} s of CPU")
        return {"status": "harness",
                "msg": f"execution died with wait status {status}"}
    return pickle.loads(data)


class JobQueue:
    """Numbers of jobs, handed out in order to the processes asking."""

    def __init__(self, n, base):
        self.n = n
        self.path = os.path.join(base, "queue")
        fd = os.open(self.path, os.O_CREAT | os.O_WRONLY)
        os.write(fd, (0).to_bytes(8, "little"))
        os.close(fd)

    def _next(self, new=None):
        fd = os.open(self.path, os.O_RDWR)
        try:
            fcntl.lockf(fd, fcntl.LOCK_EX)
            k = int.from_bytes(os.pread(fd, 8, 0), "little")
            os.pwrite(fd, (k + 1 if new is None else new).to_bytes(
                8, "little"), 0)
            return k
        finally:
            os.close(fd)

    def take(self):
        k = self._next()
        return k if k < self.n else None

    def stop(self):
        """Hand out no more; how many were not begun."""
        return max(0, self.n - self._next(self.n))


def _shard(prop, jobs, base, out_fd, time_cap, queue, again):
    t_end = time.monotonic() + time_cap
    out = {"runs": [], "violation": None, "harness": [], "left": 0,
           "again": 0, "mismatch": []}
    while True:
        if time.monotonic() > t_end:
            out["left"] = queue.stop()
            break
        n = queue.take()
        if n is None:
            break
        sc_name, i, seed = jobs[n]
        sc = prop.scenarios[sc_name]
        t = time.monotonic()
        res = run_one(prop, sc, W.RandomSource(seed), base=base)
        res["wall"] = time.monotonic() - t
        res["scenario"] = sc_name
        res["seed"] = seed
        res["i"] = i
        if res["status"] == "harness":
            # resources may have been short: once more
            res2 = run_one(prop, sc, W.RandomSource(seed), base=base)
            if res2.get("cls") == res.get("cls") == "no-progress":
                res2["status"] = "violation"
                res2["twice"] = True
            if res2["status"] == "harness":
                out["harness"].append((sc_name, i, seed, res2.get("msg")))
                continue
            res2.update(scenario=sc_name, seed=seed, i=i, wall=0)
            res = res2
        if res["status"] == "violation":
            out["violation"] = res
            queue.stop()
            break
        res.pop("tape", None)
        out["runs"].append(res)
        if i < again:
            # one seed is one execution
            res2 = run_one(prop, sc, W.RandomSource(seed), base=base)
            out["again"] += 1
            if res2.get("digest") != res["digest"]:
                out["mismatch"].append((seed, sc_name))
    data = pickle.dumps(out)
    with os.fdopen(out_fd, "wb") as f:
        f.write(data)


def explore(prop, tier, base_seed, base, time_cap, factor=1.0, only=None):
    jobs = []
    for sc in prop.scenarios.values():
        if only and sc.name != only:
            continue
        n = sc.quick if tier == "quick" else sc.thorough
        n = max(1, int(n * factor))
        for i in range(n):
            jobs.append((sc.name, i, run_seed(base_seed, prop.id, sc.name, i),
                         i / n))
    # all scenarios progress together, so a time cap hits all alike
    jobs.sort(key=lambda j: j[3])
    jobs = [j[:3] for j in jobs]
    nsh = min(SHARDS, len(jobs))
    queue = JobQueue(len(jobs), base)
    again = 2 if tier == "quick" else 10
    kids = []
    for _ in range(nsh):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                _shard(prop, jobs, base, wr, time_cap, queue, again)
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(3)
            os._exit(0)
        os.close(wr)
        kids.append((pid, r))
    outs = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if data:
            outs.append(pickle.loads(data))
        else:
            outs.append({"runs": [], "violation": None, "left": 0,
                         "again": 0, "mismatch": [],
                         "harness": [("shard", 0, 0, "shard died")]})
    return outs


# ---------------------------------------------------------------- shrinking
def shrink(prop, sc, tape, cls, base, budget_s, log):
    t_end = time.monotonic() + budget_s
    tried = 0

    def bad(t):
        nonlocal tried
        tried += 1
        r = run_one(prop, sc, W.TapeSource(t), base=base)
        return r["status"] == "violation" and r["cls"] == cls

    best = list(tape)
    while best and best[-1] == 0:
        best.pop()
    # shorter prefixes (the rest becomes zeros)
    lo = 0
    step = max(1, len(best) // 2)
    while step and time.monotonic() < t_end:
        cand = best[:max(0, len(best) - step)]
        if len(cand) < len(best) and bad(cand):
            best = cand
        else:
            step //= 2
    changed = True
    while changed and time.monotonic() < t_end:
        changed = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.monotonic() < t_end:
            i = 0
            while i < len(best) and time.monotonic() < t_end:
                cand = best[:i] + best[i + size:]
                if bad(cand):
                    best = cand
                    changed = True
                    continue
                zero = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                if zero != best and bad(zero):
                    best = zero
                    changed = True
                i += size
            size //= 2
        for i, v in enumerate(list(best)):
            if time.monotonic() > t_end or i >= len(best):
                break
            for nv in (v // 2, v - 1):
                if 0 <= nv < v:
                    cand = best[:i] + [nv] + best[i + 1:]
                    if bad(cand):
                        best = cand
                        changed = True
                        break
    while best and best[-1] == 0:
        best.pop()
    log(f"shrunk tape from {len(tape)} to {len(best)} choices in {tried} runs")
    return best


# ---------------------------------------------------------------- findings
def load_findings():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path, encoding="utf-8") as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def main(prop, argv):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument("tier", nargs="?",
                   default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int,
                   default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--replay")
    p.add_argument("--factor", type=float, default=1.0)
    p.add_argument("--only")
    p.add_argument("--one", type=int, help="run one index, print its history")
    p.add_argument("--time-cap", type=float, default=None)
    p.add_argument("--no-shrink", action="store_true")
    p.add_argument("--evidence", default=None)
    args = p.parse_args(argv)

    def say(*a):
        os.write(1, (" ".join(str(x) for x in a) + "\n").encode())

    base = tempfile.mkdtemp(prefix="dst_")
    try:
        return _main(prop, args, say, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _main(prop, args, say, base):
    t0 = time.monotonic()
    if args.replay:
        with open(args.replay, encoding="utf-8") as f:
            rep = json.load(f)
        sc = prop.scenarios[rep["scenario"]]
        r = run_one(prop, sc, W.TapeSource(rep["tape"]), keep_log=True,
                    base=base)
        for line in r.get("log", []):
            say(line)
        say("result:", r["status"], r.get("cls"), r.get("msg"))
        if r["status"] == "violation":
            same = r["cls"] == rep["class"]
            say("same class as recorded:", same, "same history:",
                r["digest"] == rep["digest"])
            say(f"VIOLATION property={prop.id} replay={args.replay}")
            return 1
        return 0 if r["status"] == "ok" else 2
    if args.one is not None:
        sc = prop.scenarios[args.only] if args.only else next(
            iter(prop.scenarios.values()))
        seed = run_seed(args.seed, prop.id, sc.name, args.one)
        r = run_one(prop, sc, W.RandomSource(seed), keep_log=True, base=base)
        for line in r.get("log", []):
            say(line)
        say({k: v for k, v in r.items() if k not in ("log", "tape")})
        say("tape", len(r.get("tape") or []))
        return 0
    cap = args.time_cap or (300 if args.tier == "quick" else 800)
    outs = explore(prop, args.tier, args.seed, base, cap, args.factor,
                   args.only)
    runs = [r for o in outs for r in o["runs"]]
    harness = [h for o in outs for h in o["harness"]]
    viols = [o["violation"] for o in outs if o["violation"]]
    viols.sort(key=lambda v: (v["i"], v["scenario"]))
    left = sum(o["left"] for o in outs)
    wall_explore = time.monotonic() - t0

    # one seed is one execution: some were run again
    again = sum(o["again"] for o in outs)
    mismatch = 0
    for o in outs:
        for seed, name in o["mismatch"]:
            mismatch += 1
            say(f"note: seed {seed} of {name} gave another history when run "
                "again")

    status = 0
    findings = [f for f in load_findings()
                if f["property"] == prop.id and f["status"] == "known"]
    vio_ev = []
    reported = None
    for v in viols:
        sc = prop.scenarios[v["scenario"]]
        if v["tape"] is None:   # ran out of CPU: draw the tape again
            r = v if v.get("twice") else run_one(
                prop, sc, W.RandomSource(v["seed"]), base=base)
            if r["status"] != "violation":
                harness.append((v["scenario"], v["i"], v["seed"],
                                "CPU limit once, not again"))
                continue
            tape = None
        else:
            tape = v["tape"]
        if tape is not None:
            ok = None
            for _ in range(1 if v["cls"] == "no-progress" else 4):
                r = run_one(prop, sc, W.TapeSource(tape), base=base)
                if r["status"] == "violation" and r["cls"] == v["cls"]:
                    ok = r
                    break
            if ok is None:
                harness.append((v["scenario"], v["i"], v["seed"],
                                "not reproducible: " + v["cls"] + " " +
                                v["msg"][:1500]))
                continue
            if not args.no_shrink and v["cls"] != "no-progress":
                tape = shrink(prop, sc, tape, v["cls"], base, 45, say)
            final = run_one(prop, sc, W.TapeSource(tape), keep_log=True,
                            base=base)
            if final["status"] != "violation":
                tape = v["tape"]
                final = run_one(prop, sc, W.TapeSource(tape), keep_log=True,
                                base=base)
        else:
            tape, final = [], dict(v, log=[])
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop.id}-{v['seed']}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({
                "property": prop.id, "scenario": v["scenario"],
                "seed": v["seed"], "class": final.get("cls"),
                "message": final.get("msg"), "tape": tape,
                "digest": final.get("digest"),
                "trace": (final.get("log") or [])[-4000:],
            }, f, indent=1, ensure_ascii=False)
        say(f"property {prop.id}, scenario {v['scenario']}, seed {v['seed']}")
        say("violated:", final.get("cls"))
        say(final.get("msg"))
        for line in (final.get("log") or [])[-60:]:
            say("   ", line)
        say(f"VIOLATION property={prop.id} replay={path}")
        vio_ev.append({"class": final.get("cls"), "seed": v["seed"],
                       "replay": path})
        status = 1
        reported = v
        break
    for f in findings:
        say(f"KNOWN-FINDING: property={prop.id} {f['what']}")
    if status == 0 and harness:
        for h in harness[:5]:
            say("harness problem:", h)
        status = 2
    elif harness:
        for h in harness[:3]:
            say("note, harness problem:", h)

    write_evidence(prop, args, runs, viols, left, wall_explore,
                   time.monotonic() - t0, again, mismatch, vio_ev)
    n = len(runs)
    if os.environ.get("DST_TIMES"):
        for name in prop.scenarios:
            ts = sorted(r["wall"] for r in runs if r["scenario"] == name)
            if ts:
                say(f"   {name}: {len(ts)} runs, {sum(ts):.1f} s, median "
                    f"{ts[len(ts) // 2]:.3f}, most {ts[-1]:.2f}")
        for r in sorted(runs, key=lambda r: -r["wall"])[:6]:
            say(f"   {r['scenario']} {r['i']} {r['wall']:.2f} s {r['steps']}")
    say(f"{prop.id} {args.tier}: {n} runs, "
        f"{len({(r['scenario'], r['digest']) for r in runs})} distinct, "
        f"{sum(sum(r['faults'].values()) for r in runs)} faults injected, "
        f"{time.monotonic() - t0:.1f} s" + (
            f", {left} runs left out (time cap)" if left else ""))
    return status


def write_evidence(prop, args, runs, viols, left, wall_explore, wall, again,
                   mismatch, vio_ev):
    faults, counts, kinds = Counter(), Counter(), Counter()
    per = Counter()
    for r in runs:
        faults.update(r["faults"])
        counts.update(r["counts"])
        kinds.update(r["kinds"])
        per[r["scenario"]] += 1
    distinct = {(r["scenario"], r["digest"]) for r in runs if r["nontrivial"]}
    alld = {(r["scenario"], r["digest"]) for r in runs}
    samples = []
    seen = set()
    for r in runs:
        if r["scenario"] in seen or not r["nontrivial"]:
            continue
        seen.add(r["scenario"])
        samples.append({
            "scenario": r["scenario"], "seed": r["seed"],
            "steps": r["steps"], "faults": r["faults"],
            "counts": r["counts"], "history": r["digest"],
        })
    if not samples:
        samples = [{"scenario": v["scenario"], "seed": v["seed"],
                    "violation": v["cls"]} for v in viols[:3]]
    ev = {
        "property": prop.id,
        "tier": args.tier if args.tier in ("quick", "thorough") else "quick",
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(runs) + len(viols),
            "distinct_nontrivial": len(distinct),
            "rule": prop.rule + " Distinct: different event histories "
            "(order of all scheduling points, operations and faults).",
            "samples": samples,
            "runs_per_scenario": dict(per),
            "distinct_histories": len(alld),
            "runs_per_hour": int(len(runs) / max(wall_explore, 1e-9) * 3600),
            "seeds_per_hour": int(len(runs) / max(wall_explore, 1e-9) * 3600),
            "simulated_seconds": sum(r["simtime"] for r in runs),
            "scheduling_points": sum(r["steps"] for r in runs),
            "points_by_kind": dict(kinds.most_common(40)),
            "faults_injected": dict(faults),
            "probes": dict(counts),
            "seeds_rerun_for_repeatability": again,
            "histories_that_differed_on_rerun": mismatch,
            "runs_left_out_by_time_cap": left,
            "real_components": prop.real,
            "stubbed_components": prop.stub,
        },
        "wall_s": round(wall, 2),
        "assumptions": prop.assumptions,
        "violations": len(viols),
        "violations_reported": vio_ev,
    }
    path = args.evidence or os.path.join(VERIF, "evidence", prop.id + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(tmp, path)
