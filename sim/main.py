"""Stage 1: the runner.  One check = many seeded runs over worker processes,
each run in a forked child; violations are minimised and written as replay
files; evidence is measured, not declared."""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import random
import re
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

import simenv                                              # noqa: E402
from simenv import Plan, Run, Stats, Violation, HarnessError   # noqa: E402

CPU_LIMIT = 120
WALL_LIMIT = {"quick": 560, "thorough": 6 * 3600}
RUN_WALL = 300


def load_check(pid):
    sys.path.insert(0, os.path.join(HERE, "checks"))
    mod = importlib.import_module(pid.lower())
    return mod.Check()


def warm_up():
    import hftools
    import hftools.file_formats
    real = os.path.realpath(hftools.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("hftools comes from %s, not from %s" % (real, REPO))


def scratch_dir():
    """A new directory whose name has no digits: code that takes paths apart
    must do the same work in every run."""
    while True:
        name = "".join(chr(97 + b % 26) for b in os.urandom(10))
        d = os.path.join(tempfile.gettempdir(), "hfsim-" + name)
        try:
            os.mkdir(d, 0o700)
            return d
        except FileExistsError:
            pass


def run_seed(check, base, index):
    return "%s:%s:%d" % (base, check.id, index)


def scenario_for(check, base, index, tier):
    return check.scenario(random.Random("scenario-" + run_seed(check, base, index)), tier)


def child_run(check, scratch, seed, sc, plan, tag):
    """Fork; run one scenario; return a result dict."""
    r, w = os.pipe()
    root = os.path.join(scratch, "run")     # the same length for every run
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.mkdir(root)
    pid = os.fork()
    if pid == 0:
        code = 71
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            if not os.environ.get("SIM_STDERR"):
                os.dup2(devnull, 2)
            os.chdir(root)
            run = Run(root, seed)
            run.only_plan = plan
            res = {"status": "ok"}
            try:
                check.run(run, sc)
            except Violation as v:
                res = {"status": "violation", "klass": v.klass, "message": v.message.replace(run.root, "ROOT"),
                       "plan": v.plan.to_json() if v.plan is not None else None,
                       "trace": getattr(v, "trace", None)}
            except Exception:
                res = {"status": "harness", "error": traceback.format_exc()}
            res["stats"] = run.stats_tuple()
            res["sample"] = run.stats.samples[:1]
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    deadline = time.monotonic() + RUN_WALL
    stalled = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            stalled = True
            break
        if select.select([r], [], [], min(left, 5))[0]:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            data += chunk
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(root, ignore_errors=True)
    if data and not stalled:
        return pickle.loads(data)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXCPU:
        return {"status": "violation", "klass": "hang", "message":
                "no answer within %d s of processor time" % CPU_LIMIT, "plan": None, "trace": None,
                "stats": None, "sample": []}
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 99:
        return {"status": "violation", "klass": "hang", "message":
                "more than %d operating-system calls in one operation" % Run.MAX_OPS,
                "plan": None, "trace": None, "stats": None, "sample": []}
    return {"status": "harness", "error": "run ended with status %r (stalled=%s)" % (status, stalled)}


def worker(check, scratch, base, tier, indices, out, stop_at):
    for i in indices:
        if time.monotonic() > stop_at:
            break
        seed = run_seed(check, base, i)
        try:
            sc = scenario_for(check, base, i, tier)
            res = child_run(check, scratch, seed, sc, None, str(i))
        except Exception:
            res = {"status": "harness", "error": traceback.format_exc()}
        res["index"] = i
        pickle.dump(res, out)
        out.flush()
        if res["status"] != "ok":
            break
    pickle.dump(None, out)
    out.flush()


def explore(check, scratch, base, tier, runs, workers, stop_at):
    pipes = []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for p, _ in pipes:
                    p.close()
                d = os.path.join(scratch, "w" + chr(97 + w // 26) + chr(97 + w % 26))
                os.mkdir(d)
                with os.fdopen(wr, "wb") as out:
                    worker(check, d, base, tier, range(w, runs, workers), out, stop_at)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(72)
        os.close(wr)
        pipes.append((os.fdopen(r, "rb"), pid))
    results = []
    open_pipes = dict((p.fileno(), (p, pid)) for p, pid in pipes)
    failed = False
    while open_pipes:
        ready, _, _ = select.select(list(open_pipes), [], [], 5)
        for fd in ready:
            p, pid = open_pipes[fd]
            try:
                res = pickle.load(p)
            except EOFError:
                res = None
                failed = True
            if res is None:
                del open_pipes[fd]
                _, st = os.waitpid(pid, 0)
                failed = failed or st != 0
                p.close()
            else:
                results.append(res)
    results.sort(key=lambda r: r["index"])
    return results, failed


def minimise(check, scratch, seed, sc, res, budget=60, tries=200):
    """Shrink scenario, then schedule, while the same violation persists."""
    t0 = time.monotonic()
    klass = res["klass"]
    n = [0]

    def attempt(sc2, plan2):
        n[0] += 1
        try:
            r2 = child_run(check, os.path.join(scratch, "maa"), seed, sc2, plan2, "min%d" % n[0])
        except Exception:
            return None
        if r2["status"] == "violation" and r2["klass"] == klass:
            return r2
        return None
    if klass == "hang":
        return sc, res, 0
    improved = True
    while improved and time.monotonic() - t0 < budget and n[0] < tries:
        improved = False
        for sc2 in check.shrink(sc):
            if time.monotonic() - t0 > budget or n[0] >= tries:
                break
            r2 = attempt(sc2, None)
            if r2:
                sc, res, improved = sc2, r2, True
                break
    improved = res["plan"] is not None
    while improved and time.monotonic() - t0 < budget + 20:
        improved = False
        for p2 in Plan.from_json(res["plan"]).simpler():
            r2 = attempt(sc, p2)
            if r2:
                if r2["plan"] is None:
                    r2["plan"] = p2.to_json()
                res, improved = r2, True
                break
    return sc, res, n[0]


def reproduces(check, scratch, seed, sc, res):
    """How the violation comes back: "plan" (this one schedule alone), "seed"
    (all schedules of the run), or None."""
    for how, plan in (("plan", Plan.from_json(res["plan"]) if res["plan"] else Plan(note="clean")), ("seed", None)):
        try:
            r = child_run(check, os.path.join(scratch, "maa"), seed, sc, plan, "again-" + how)
        except Exception:
            continue
        if r["status"] == "violation" and r["klass"] == res["klass"] and r["message"] == res["message"]:
            return how
    return None


def write_replay(check, base, index, sc, res, how):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": check.id, "verif_seed": base, "run": index,
            "run_seed": run_seed(check, base, index), "violation": res["klass"],
            "message": res["message"], "scenario": sc, "plan": res["plan"],
            "faults": Plan.from_json(res["plan"]).describe() if res["plan"] else "no fault",
            "trace": res.get("trace"),
            "replays_by": how, "replay_with": "./check %s --replay <this file>" % check.id}
    text = json.dumps(body, indent=1, sort_keys=True)
    name = os.path.join(d, "%s-%s.json" % (check.id, hashlib.sha256(text.encode()).hexdigest()[:10]))
    with open(name, "w") as f:
        f.write(text)
    return name


def known_findings(pid):
    out = []
    fn = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(fn):
        with open(fn) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--digest", action="store_true")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    args = ap.parse_args()
    base = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    random.seed(0)
    print("property=%s tier=%s VERIF_SEED=%d" % (args.property, args.tier, base))
    sys.stdout.flush()
    try:
        check = load_check(args.property)
        check.prepare()
        warm_up()
        check.warm()
    except Exception:
        traceback.print_exc()
        print("HARNESS-ERROR: cannot set up the check")
        return 3
    scratch = scratch_dir()
    os.mkdir(os.path.join(scratch, "maa"))
    try:
        if args.replay:
            return do_replay(check, args.replay, scratch)
        return do_explore(check, args, base, scratch, t0)
    finally:
        check.finish()
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(check, fn, scratch):
    with open(fn) as f:
        rep = json.load(f)
    plan = Plan.from_json(rep["plan"]) if rep["plan"] else Plan(note="clean")
    if rep.get("replays_by") == "seed":
        plan = None
    res = child_run(check, os.path.join(scratch, "maa"), rep["run_seed"], rep["scenario"], plan, "replay")
    if res["status"] == "violation":
        print("violation: %s: %s" % (res["klass"], res["message"]))
        same = res["klass"] == rep["violation"] and res["message"] == rep["message"]
        print("same violation as recorded: %s" % same)
        print("VIOLATION property=%s replay=%s" % (check.id, fn))
        return 1
    if res["status"] == "harness":
        print("HARNESS-ERROR: " + res["error"])
        return 3
    print("did not reproduce")
    return 0


def do_explore(check, args, base, scratch, t0):
    tier = args.tier
    runs = args.runs or int(os.environ.get("SIM_RUNS", 0)) or check.runs[tier]
    workers = int(os.environ.get("SIM_WORKERS", 0)) or min(8, os.cpu_count() or 1)
    stop_at = t0 + WALL_LIMIT[tier]
    results, failed = explore(check, scratch, base, tier, runs, workers, stop_at)
    total = Stats()
    digest = hashlib.sha256()
    samples = []
    for res in results:
        if res.get("stats"):
            s = Stats()
            (s.execs, s.ops, s.fired, s.sim_ns, s.probes, s.traces, s.schedules, d) = res["stats"]
            total.merge(s)
            digest.update(("%d %s %s\n" % (res["index"], res["status"], d)).encode())
        if len(samples) < 3 and res.get("sample"):
            samples.extend(res["sample"])
    if os.environ.get("SIM_DIGESTS"):
        with open(os.environ["SIM_DIGESTS"], "w") as f:
            for res in results:
                f.write("%d %s\n" % (res["index"], res["stats"] and res["stats"][-1]))
    if args.digest:
        print("DIGEST %s %d runs" % (digest.hexdigest(), len(results)))
    harness = [r for r in results if r["status"] == "harness"]
    bad = [r for r in results if r["status"] == "violation"]
    known = known_findings(check.id)
    new, old = [], []
    for r in bad:
        hit = [k for k in known if k[0].search("%s: %s" % (r["klass"], r["message"]))]
        (old if hit else new).append((r, hit))
    code = 0
    for what in sorted(set(h[0][1] for _, h in old)):
        print("KNOWN-FINDING: property=%s %s" % (check.id, what))
    n_viol = 0
    if new:
        res = new[0][0]
        i = res["index"]
        sc = scenario_for(check, base, i, tier)
        seed, sc0 = run_seed(check, base, i), sc
        sc, res2, tries = minimise(check, scratch, seed, sc, res)
        how = reproduces(check, scratch, seed, sc, res2) if res2["klass"] != "hang" else "plan"
        if how is None:
            sc, res2 = sc0, res
            how = reproduces(check, scratch, seed, sc, res2)
        fn = write_replay(check, base, i, sc, res2, how)
        print("violated in run %d (seed %s): %s: %s" % (i, run_seed(check, base, i), res2["klass"], res2["message"]))
        print("fault schedule: %s" % (Plan.from_json(res2["plan"]).describe() if res2["plan"] else "no fault"))
        print("minimised with %d extra runs; replayed: %s" % (tries, {"plan": "same violation from the schedule alone", "seed": "same violation from the seed", None: "NOT REPRODUCED"}[how]))
        print("VIOLATION property=%s replay=%s" % (check.id, fn))
        n_viol = len(new)
        code = 1
    elif harness:
        print("HARNESS-ERROR in run %s:\n%s" % (harness[0].get("index"), harness[0]["error"]))
        code = 3
    elif failed:
        print("HARNESS-ERROR: a worker died")
        code = 3
    wall = time.monotonic() - t0
    ev = evidence(check, tier, base, results, total, digest, samples, wall, n_viol, workers, runs)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "%s.json" % check.id), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%d runs, %d executions, %d simulated operations, %.1f s, faults %s" %
          (len(results), total.execs, total.ops, wall, sum(total.fired.values())))
    if code == 0:
        zero = [p for p in check.probes if not total.probes.get(p)]
        if zero:
            print("note: probes never hit: %s" % ", ".join(zero))
    return code


def evidence(check, tier, base, results, st, digest, samples, wall, n_viol, workers, planned):
    cov = {"evaluations": st.execs,
           "distinct_nontrivial": len(st.traces) + len(st.schedules),
           "rule": check.rule,
           "samples": samples or [{"note": "no sample recorded"}],
           "runs": len(results), "runs_planned": planned,
           "runs_per_hour": int(len(results) / max(wall, 1e-3) * 3600),
           "executions_per_hour": int(st.execs / max(wall, 1e-3) * 3600),
           "simulated_seconds": st.sim_ns / 1e9,
           "simulated_os_operations": st.ops,
           "faults_injected": dict(sorted(st.fired.items())),
           "probes": dict((p, st.probes.get(p, 0)) for p in sorted(set(check.probes) | set(st.probes))),
           "distinct_fault_traces": len(st.traces),
           "distinct_interleavings": len(st.schedules),
           "event_log_digest": digest.hexdigest(),
           "workers": workers,
           "real_code": check.real, "stubs": check.stubs}
    return {"property": check.id, "tier": tier, "seed": base, "level": check.level,
            "coverage": cov, "assumptions": check.assumptions, "wall_s": wall,
            "violations": n_viol}


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
