"""Driver: runs a batch of seeded cases in worker processes, minimises and
reports violations, writes the evidence.

    python -m sim.runner C01 [--tier quick|thorough] [--runs N] [--jobs N]
    python -m sim.runner C01 --replay FILE [--log]
    python -m sim.runner C01 --determinism N

Ends with exit code 0, or 1 and a line "VIOLATION property=<id> replay=<path>".
"""
from . import env  # noqa: F401  (first)

import argparse
import faulthandler
import gc
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import subprocess
import sys
import time
import traceback

from . import core, minimise

JOBS = 8


def load_check(id):
    return importlib.import_module("checks." + id.lower()).CHECK


def _on_timer(signum, frame):
    raise core.Hang()


def run_case(check, case, keep_log=False):
    """Execute with the processor time limit. Returns (run, violation, error)."""
    if not hasattr(signal, "SIGPROF"):
        raise core.HarnessError("no SIGPROF")
    old = signal.signal(signal.SIGPROF, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, check.cpu_limit)
    try:
        run, v = core.execute(check, case, keep_log)
        return run, v, None
    except core.Hang as e:
        where = core.in_quickly(e.__traceback__)
        return core.Run(), core.Violation("no-progress",
            "no result after %s s of processor time (at %s)" % (check.cpu_limit, where)), None
    except RecursionError as e:
        where = core.in_quickly(e.__traceback__)
        if where:
            return core.Run(), core.Violation("unbounded-recursion", where), None
        return core.Run(), None, traceback.format_exc()
    except Exception as e:
        where = core.in_quickly(e.__traceback__)
        if where:
            # the step is valid, so the code under test may not fail
            return core.Run(), core.Violation("exception",
                "%s in %s" % (core.describe_exc(e), where)), None
        if isinstance(e, (AttributeError, TypeError, LookupError, ValueError)):
            # the oracle can't even interpret what the code under test returned
            tb = traceback.format_exc().strip().splitlines()
            return core.Run(), core.Violation("unexpected-result", " | ".join(tb[-4:])), None
        return core.Run(), None, traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def _worker(conn, check_id, seed, jobs):
    gc.disable()
    faulthandler.enable()
    check = load_check(check_id)
    n = 0
    while True:
        index = conn.recv()
        if index is None:
            break
        lo, hi = index
        out = []
        for i in range(lo, hi):
            try:
                case = check.generate(core.rng_for(check_id, seed, i))
                # what is executed is exactly what the replay file would hold
                case = json.loads(json.dumps(case))
            except Exception:
                out.append((i, None, None, None, "generator: " + traceback.format_exc()))
                continue
            run, v, err = run_case(check, case)
            vio = (v.kind, v.detail, v.step) if v is not None else None
            sample = check.sample(case) if i < 3 or (v is not None) else None
            out.append((i, (run.counts, sorted(run.states), run.time, run.nontrivial,
                            run.log.count, run.log.digest()), vio, sample, err))
            n += 1
            if n % 50 == 0:
                gc.collect()
            if vio and vio[0] == "no-progress":
                conn.send(out)
                conn.close()
                os._exit(0)         # a stuck thread may be left behind
            if vio or err:
                break
        conn.send(out)
    conn.close()
    os._exit(0)


class Batch:
    """Run cases 0 .. runs-1 in worker processes; deterministic result."""

    def __init__(self, check, seed, runs, jobs, budget):
        self.check, self.seed, self.runs, self.jobs = check, seed, runs, jobs
        self.budget = budget

    def run(self):
        ctx = multiprocessing.get_context("fork")
        # chunks are small enough to balance the load
        size = max(1, min(200, self.runs // (self.jobs * 8) or 1))
        todo = [(lo, min(lo + size, self.runs)) for lo in range(0, self.runs, size)]
        todo.reverse()
        procs = {}

        def spawn():
            a, b = ctx.Pipe()
            p = ctx.Process(target=_worker, args=(b, self.check.id, self.seed, self.jobs))
            p.daemon = True
            p.start()
            b.close()
            procs[a] = [p, None, time.monotonic()]
            return a

        def give(c):
            if todo and not self.stop:
                procs[c][1] = todo.pop()
                procs[c][2] = time.monotonic()
                c.send(procs[c][1])
            else:
                procs[c][1] = None
                try:
                    c.send(None)
                except OSError:
                    pass
                procs.pop(c)[0].join(5)
                c.close()

        self.stop = False
        results, failed, errors = [], [], []
        start = time.monotonic()
        done = 0
        for _ in range(min(self.jobs, len(todo))):
            give(spawn())
        while procs:
            for c in multiprocessing.connection.wait(list(procs), timeout=5):
                try:
                    out = c.recv()
                except EOFError:
                    p, chunk, t = procs.pop(c)
                    p.join(5)
                    errors.append((chunk[0] if chunk else -1,
                                   "worker process ended with exit code %s" % p.exitcode))
                    self.stop = True
                    continue
                chunk = procs[c][1]
                got = 0
                for item in out:
                    got += 1
                    i, data, vio, sample, err = item
                    results.append((i, data, sample))
                    if err:
                        errors.append((i, err))
                        self.stop = True
                    if vio:
                        failed.append((i, vio))
                        self.stop = True
                done += got
                if vio and vio[0] == "no-progress":
                    procs.pop(c)[0].join(5)
                    continue
                give(c)
            now = time.monotonic()
            for c, (p, chunk, t) in list(procs.items()):
                if chunk and now - t > self.check.cpu_limit * 6 + 240:
                    # stuck without using processor time: a deadlock
                    p.kill()
                    procs.pop(c)
                    failed.append((chunk[0], ("deadlock", "worker process made no progress "
                                              "within cases %s..%s" % chunk, None)))
                    self.stop = True
            if self.budget and now - start > self.budget:
                self.stop = True
                self.cut = True
        results.sort(key=lambda r: r[0])
        return results, sorted(failed), sorted(errors)

    cut = False


def replay_path(check, seed):
    d = os.path.join(env.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%s.json" % (check.id, seed))


def write_replay(path, check, seed, index, case, v, tries=0, original=None):
    with open(path, "w") as f:
        json.dump({"property": check.id, "seed": seed, "index": index,
                   "violation": {"kind": v.kind, "detail": v.detail, "step": v.step},
                   "minimiser_tries": tries,
                   "case": case}, f, indent=1, ensure_ascii=False)
        f.write("\n")


def replay(check, path, keep_log=False):
    with open(path) as f:
        data = json.load(f)
    run, v, err = run_case(check, data["case"], keep_log)
    return data, run, v, err


def evidence(check, tier, seed, results, violations, wall, extra):
    counts, states = {}, set()
    simtime = nontrivial = events = 0
    digests = set()
    samples = []
    for i, data, sample in results:
        if data is None:
            continue
        c, st, t, nt, n, dig = data
        for k, x in c.items():
            counts[k] = counts.get(k, 0) + x
        states.update(st)
        simtime += t
        events += n
        if nt and dig not in digests:
            nontrivial += 1
        digests.add(dig)
        if sample and len(samples) < 3:
            samples.append(sample)
    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault:")}
    probes = {k: v for k, v in sorted(counts.items()) if not k.startswith("fault:")}
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": nontrivial,
        "rule": check.rule,
        "samples": samples,
        "seeds": len(results),
        "runs_per_hour": int(len(results) / max(wall, 0.001) * 3600),
        "simulated_time": {"unit": "scheduler steps / simulated clock ticks", "total": simtime},
        "events_logged": events,
        "faults_fired": faults,
        "reach_probes": probes,
        "distinct_states": len(states),
        "distinct_states_measure": check.states_measure,
        "distinct_event_logs": len(digests),
        "components_real": check.real,
        "components_stubbed": check.stubs,
    }
    cov.update(extra)
    doc = {"property": check.id, "tier": tier, "seed": seed, "level": check.level,
           "coverage": cov, "assumptions": list(check.assumptions),
           "wall_s": round(wall, 2), "violations": violations}
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, check.id + ".json"), "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
        f.write("\n")


def load_known(check):
    path = os.path.join(env.VERIF, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", ()) if k["property"] == check.id]


def report(check, seed, index, case, v, tier):
    """Minimise, write the replay file, confirm it in a fresh process."""
    path = replay_path(check, seed)
    tries = 0
    if v.kind not in ("no-progress", "deadlock", "unbounded-recursion"):
        case, v, tries = minimise.minimise(check, case, v, seconds=40)
    write_replay(path, check, seed, index, case, v, tries)
    rel = os.path.relpath(path, env.VERIF)
    r = subprocess.run([sys.executable, "-m", "sim.runner", check.id, "--replay", path, "--quiet"],
                       cwd=env.VERIF, capture_output=True, text=True, timeout=check.cpu_limit * 4 + 60)
    print("property %s is broken: %s: %s" % (check.id, v.kind, v.detail))
    if case.get("ops") is not None:
        print("minimised to %d operations (%d tries); case %s of seed %s" % (
            len(case["ops"]), tries, index, seed))
    print("replay in a fresh process: %s" % ("reproduces it" if r.returncode == 1 else
          "exit %s %s" % (r.returncode, r.stderr[-300:])))
    print("VIOLATION property=%s replay=%s" % (check.id, rel))


def main(argv=None):
    p = argparse.ArgumentParser()
    p.add_argument("check")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--runs", type=int)
    p.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS") or JOBS))
    p.add_argument("--replay")
    p.add_argument("--log", action="store_true")
    p.add_argument("--quiet", action="store_true")
    p.add_argument("--case", type=int, help="run only the case with this index")
    p.add_argument("--determinism", type=int)
    p.add_argument("--digests", type=int)
    p.add_argument("--budget", type=float, help="stop handing out cases after so many seconds")
    a = p.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED") or 1)
    check = load_check(a.check)

    if a.replay:
        data, run, v, err = replay(check, a.replay, a.log)
        if a.log:
            for e in run.log.events or ():
                print(e)
        if err:
            print(err)
            return 2
        if v is None:
            print("no violation; log digest %s" % run.log.digest())
            return 0
        print("%s: %s" % (v.kind, v.detail))
        print("VIOLATION property=%s replay=%s" % (check.id, a.replay))
        return 1

    if a.case is not None:
        case = json.loads(json.dumps(check.generate(core.rng_for(check.id, seed, a.case))))
        print(check.sample(case))
        run, v, err = run_case(check, case, a.log)
        if a.log:
            for e in run.log.events or ():
                print(e)
        print(run.counts, run.log.digest(), v, err)
        return 1 if v else 0

    if a.digests is not None:
        for i in range(a.digests):
            case = json.loads(json.dumps(check.generate(core.rng_for(check.id, seed, i))))
            run, v, err = run_case(check, case)
            print(i, run.log.digest(), run.log.count, sorted(run.counts.items()), v, bool(err))
        return 0

    if a.determinism is not None:
        return determinism(check, seed, a.determinism)

    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    runs = a.runs or (check.thorough_runs if tier == "thorough" else check.quick_runs)
    start = time.monotonic()
    b = Batch(check, seed, runs, a.jobs, a.budget or (780 if tier == "quick" else 0))
    results, failed, errors = b.run()
    wall = time.monotonic() - start
    known = load_known(check)
    extra = {"planned_runs": runs}
    if b.cut:
        extra["stopped_early"] = "time budget; %d of %d runs" % (len(results), runs)
    evidence(check, tier, seed, results, len(failed), wall, extra)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (check.id, k["what"]))
    if failed:
        index, (kind, detail, step) = failed[0]
        case = json.loads(json.dumps(check.generate(core.rng_for(check.id, seed, index))))
        v = core.Violation(kind, detail, step)
        report(check, seed, index, case, v, tier)
        return 1
    if errors:
        print("harness error in case %s:\n%s" % errors[0], file=sys.stderr)
        return 2
    print("%s %s: %d simulated runs in %.1f s, no violation" % (check.id, tier, len(results), wall))
    return 0


def determinism(check, seed, n):
    """Run n seeds in several fresh interpreters, other hash seeds; compare the logs."""
    outs = []
    procs = []
    for hs in ("0", "1", "12345", "random"):
        e = dict(os.environ, PYTHONHASHSEED=hs, VERIF_SEED=str(seed))
        procs.append(subprocess.Popen([sys.executable, "-m", "sim.runner", check.id, "--digests", str(n)],
                     cwd=env.VERIF, env=e, stdout=subprocess.PIPE, text=True))
    for pr in procs:
        outs.append(pr.communicate()[0].splitlines())
    bad = 0
    for lines in zip(*outs):
        if len(set(lines)) != 1:
            bad += 1
            if bad < 4:
                print("\n".join(sorted(set(lines))))
    ok = bad == 0 and len({len(o) for o in outs}) == 1 and len(outs[0]) == n
    print("%s: %d cases x %d interpreters: %s" % (check.id, n, len(outs),
          "identical event logs" if ok else "%d DIFFER" % bad))
    return 0 if ok else 2


if __name__ == "__main__":
    sys.exit(main())
