"""Threads that use hftools at the same time do not see each other."""
import hashlib
import io
import os
import warnings

import gen
import simenv
from base import BaseCheck
from foreign import FOREIGN
from formats import FORMATS
from savecheck import exc_text
from sched import ThreadSim, install_locks, place_schedule
from simenv import Plan, Violation, random_schedule

YAMLS = [u"f: 12GHz\nlevel: 3 mV\nname: amp one\nsteps: [1, 2, 3kHz]\n",
         u"wait: 2 hours 5 minutes\nloss: 12%\nsub:\n  a: 1.5\n  b: [x, y]\n",
         u"p: 1 W\nq: 7ppm\nr: {s: 4.25 Ohm, t: text}\n"]


def yaml_value(x):
    if isinstance(x, dict):
        return sorted((k, yaml_value(v)) for k, v in x.items())
    if isinstance(x, list):
        return [yaml_value(v) for v in x]
    return (type(x).__name__, repr(x), getattr(x, "unit", None))


def file_value(fmt, fname):
    with open(fname, "rb") as f:
        b = f.read()
    if fmt.startswith("hdf5"):
        from hftools.file_formats import read_hdf5
        return repr(gen.without_paths(gen.dump(read_hdf5(fname))))
    return b"\n".join(x for x in b.split(b"\n") if not (fmt == "mdif" and x.startswith(b"!Created")))


class Check(BaseCheck):
    id = "C13"
    level = "exploration"
    runs = {"quick": 320, "thorough": 12000}
    per = {"quick": 6, "thorough": 10}
    probes = ("interleaved", "save", "read", "merge", "config", "cache", "same_dataset_saved_by_two", "same_file_read_by_two", "foreign",
              "fault_in_one_thread", "failing_data_in_one_thread", "opcode_switches")
    stubs = BaseCheck.stubs + ["threading.Lock/RLock (cooperative, over the real ones)", "thread scheduler (sys.settrace, one thread at a time)"]
    assumptions = BaseCheck.assumptions + ["threads change over between lines or bytecodes of hftools, not inside numpy, h5py or PyYAML"]

    def prepare(self):
        install_locks()

    def scenario(self, r, tier):
        n = r.choice([2, 2, 2, 3])
        fmts = ["touchstone", "citi", "spdata", "mdif", "hdf5", "hdf5v1"]
        if r.random() < 0.6:
            fmts = [r.choice(fmts)]
        shared = []
        for _ in range(2):
            fmt = r.choice(fmts)
            shared.append((fmt, self.small(r, fmt)))
        others = []
        for _ in range(3):
            fmt = r.choice(["citi", "spdata", "spdata", "mdif", "touchstone"])
            others.append((fmt, dict(FOREIGN[fmt].gen(r), plain=True)))
        threads = []
        instruments = r.random() < 0.25         # all of them read files of instruments
        focus = r.choice(["save", "merge", "config", "config", "cache"]) if r.random() < 0.4 and not instruments else None    # all of them do the same
        for _ in range(n):
            ops = []
            for _ in range(r.randint(1, 3)):
                k = r.random()
                if focus:
                    k = {"save": 0.1, "merge": 0.7, "config": 0.8, "cache": 0.9}[focus]
                fmt = r.choice(fmts)
                if instruments or (not focus and r.random() < 0.1):
                    ops.append(dict(op="foreign", i=r.randrange(3), via=r.choice(["read_data", "reader"])))
                elif k < 0.25:
                    ops.append(dict(op="save", fmt=fmt, spec=self.small(r, fmt)))
                elif k < 0.4:
                    ops.append(dict(op="saveshared", i=r.randrange(2)))
                elif k < 0.62:
                    ops.append(dict(op="read", i=r.randrange(2), via=r.choice(["read_data", "reader"])))
                elif k < 0.72:
                    ops.append(dict(op="merge", fmt=r.choice(["touchstone", "citi", "spdata"]) if len(fmts) > 1 else fmt))
                elif k < 0.82:
                    ops.append(dict(op="config", text=r.randrange(len(YAMLS)), lexical=r.random() < 0.4))
                elif k < 0.92 and not any(f == "mdif" for f, _ in shared):     # MDIF reads as many blocks: not cacheable
                    ops.append(dict(op="cache", i=r.randrange(2), shared=r.random() < 0.6))
                else:
                    ops.append(dict(op="bad", fmt=fmt, spec=self.small(r, fmt)))
            threads.append(ops)
        return dict(shared=shared, others=others, threads=threads, opcodes=r.random() < 0.25, k=self.per[tier])

    def small(self, r, fmt):
        for _ in range(20):
            s = FORMATS[fmt].gen(r)
            n = 1
            for d in s["dims"]:
                n *= len(d["vals"])
            if n * len(s["vars"]) < 40:
                return s
        return s

    def shrink(self, sc):
        t = sc["threads"]
        for i in range(len(t)):
            if len(t) > 2:
                yield dict(sc, threads=t[:i] + t[i + 1:])
        for i in range(len(t)):
            for j in range(len(t[i])):
                if len(t[i]) > 1:
                    yield dict(sc, threads=t[:i] + [t[i][:j] + t[i][j + 1:]] + t[i + 1:])

    # -- what one operation does, and what can be seen of it
    def operation(self, run, sc, k, j, op, dbs):
        import hftools.file_formats as ff
        from hftools.file_formats.config import Config, LexicalConfig
        d = run.path("t%d" % k)
        kind = op["op"]
        if kind in ("save", "saveshared", "bad"):
            if kind == "saveshared":
                fmt, spec = sc["shared"][op["i"]]
                db = dbs[op["i"]]
            else:
                fmt, spec = op["fmt"], op["spec"]
                db = gen.build(spec)
                if kind == "bad":
                    db.blockname = object()       # cannot be written
                    for v in db.vardata.values():
                        v.outputformat = "%q"
            F = FORMATS[fmt]
            fname = os.path.join(d, "%d_%s" % (j, F.fname(spec)))
            return lambda: (F.save(db, fname, spec), file_value(fmt, fname))[1], fname
        if kind in ("read", "merge"):
            if kind == "read":
                fmt, spec = sc["shared"][op["i"]]
                arg = run.path("shared", "%d_%s" % (op["i"], FORMATS[fmt].fname(spec)))
            else:
                fmt = op["fmt"]
                if fmt.startswith("hdf5") or fmt == "mdif":
                    fmt = "citi"
                arg = run.path("t%d" % k, "m%s*" % fmt)
            f = {"touchstone": ff.read_touchstone, "citi": ff.read_citi, "spdata": ff.read_spdata, "mdif": ff.read_mdif}.get(fmt, ff.read_hdf5)
            if op.get("via") == "read_data" and not fmt.startswith("hdf5"):
                f = ff.read_data
            kw = {} if fmt.startswith("hdf5") else dict(verbose=False)
            return lambda: repr(gen.without_paths(gen.dump(f(arg, **kw)))), arg
        if kind == "foreign":
            fmt, spec = sc["others"][op["i"]]
            F = FOREIGN[fmt]
            arg = run.path("shared", "o%d_%s" % (op["i"], F.fname(spec)))
            f = getattr(ff, F.reader) if op["via"] == "reader" else ff.read_data
            return lambda: repr(gen.without_paths(gen.dump(f(arg, verbose=False)))), arg
        if kind == "config":
            fname = run.path("shared", "%d.yaml" % op["text"])
            return lambda: yaml_value((LexicalConfig if op["lexical"] else Config)(fname)), fname
        if kind == "cache":
            fmt, spec = sc["shared"][op["i"]]
            src = run.path("shared", "%d_%s" % (op["i"], FORMATS[fmt].fname(spec)))

            cdir = run.path("caches") if op.get("shared") else os.path.join(d, "cache")
            name = "c%d-%d" % (k, j)

            def cached():
                with ff.read_to_cache(src, cachename=name, cachedir=cdir, verbose=False) as (x, fresh):
                    a = repr(gen.without_paths(gen.dump(x)))
                with ff.read_to_cache(src, cachename=name, cachedir=cdir, verbose=False) as (y, again):
                    b = repr(gen.without_paths(gen.dump(y)))
                return a, fresh, b, again, sorted(x for x in os.listdir(cdir) if cdir.startswith(d) or x == name + ".hdf5")
            return cached, src
        raise AssertionError(kind)

    def setup(self, run, sc):
        run.clean()
        os.mkdir(run.path("shared"))
        dbs = []
        for i, (fmt, spec) in enumerate(sc["shared"]):
            F = FORMATS[fmt]
            db = gen.build(spec)
            F.save(db, run.path("shared", "%d_%s" % (i, F.fname(spec))), spec)
            dbs.append(db)
        for i, (fmt, spec) in enumerate(sc.get("others", [])):
            with io.open(run.path("shared", "o%d_%s" % (i, FOREIGN[fmt].fname(spec))), "wb") as f:
                f.write(FOREIGN[fmt].text(spec)[0].encode("cp1252"))
        for i, t in enumerate(YAMLS):
            with io.open(run.path("shared", "%d.yaml" % i), "w") as f:
                f.write(t)
        for k, ops in enumerate(sc["threads"]):
            os.mkdir(run.path("t%d" % k))
            for op in ops:
                if op["op"] == "merge":
                    fmt = op["fmt"] if op["fmt"] in ("touchstone", "citi", "spdata") else "citi"
                    for n in range(3):
                        spec = self.merge_spec(fmt, k, n)
                        F = FORMATS[fmt]
                        F.save(gen.build(spec), run.path("t%d" % k, "m%s%d_%s" % (fmt, n, F.fname(spec))), spec)
        return dbs

    def merge_spec(self, fmt, k, n):
        vars_ = [dict(name="S", dims=["freq"], kind="cplx", seed="%d-%d" % (k, n), matrix=[2, 2] if fmt != "spdata" else None, fmt=None),
                 dict(name="Vg", dims=[], kind="real", seed="v%d-%d" % (k, n), fmt="%.17g")]
        if fmt == "touchstone":
            vars_ = vars_[:1]
        return dict(dims=[dict(name="freq", vals=[1e9 * (1 + k), 2e9 * (1 + k), 3e9 * (1 + k)], unit="Hz" if fmt != "citi" else None, fmt=None)],
                    vars=vars_, comments=[], blockname="b" if fmt == "citi" else None)

    def go(self, run, sc, plan, record=False):
        """All threads under the plan; list of results per thread and operation."""
        dbs = run.must(lambda: self.setup(run, sc))
        before = [gen.dump(db) for db in dbs]
        sim = ThreadSim(plan.sched, opcodes=sc["opcodes"])
        sim.record = record or None
        results = [[None] * len(t) for t in sc["threads"]]

        def thread(k):
            todo = [self.operation(run, sc, k, j, op, dbs) for j, op in enumerate(sc["threads"][k])]

            def fn():
                for j, (f, _) in enumerate(todo):
                    try:
                        results[k][j] = ("value", f())
                    except Violation:
                        raise
                    except Exception as e:
                        results[k][j] = ("raised", simenv.exc_name(e))
                        del e
            return fn
        fns = [thread(k) for k in range(len(sc["threads"]))]
        out = run.execute(lambda: sim.run(fns), plan)
        if out.exc is not None:
            raise out.exc
        values, excs = out.value
        for e in excs:
            if e is not None:
                raise e
        if os.path.isdir(run.path("caches")):
            left = sorted(os.listdir(run.path("caches")))
            want = sorted("c%d-%d.hdf5" % (k, j) for k, ops in enumerate(sc["threads"]) for j, op in enumerate(ops) if op.get("shared"))
            if left != want:
                raise Violation("left-over", "the cache directory holds %s after all threads ended, expected %s" % (left, want))
        for i, db in enumerate(dbs):
            if gen.dump(db) != before[i]:
                raise Violation("dataset-changed", "the dataset shared by the threads changed: %s" % gen.dump_diff(gen.dump(db), before[i]))
        return results, sim, out

    def run(self, run, sc):
        warnings.simplefilter("ignore")
        rng = run.derived("c13")
        # one after the other: no switch is forced before a thread ends
        base, sim0, out0 = self.go(run, sc, Plan(), record=True)
        for k, ops in enumerate(sc["threads"]):
            for j, op in enumerate(ops):
                run.stats.probe("save" if op["op"] == "saveshared" else op["op"] if op["op"] != "bad" else "failing_data_in_one_thread")
                if base[k][j][0] == "raised" and op["op"] != "bad":
                    raise Violation("raises-alone", "%s raises %s with nobody else around" % (op["op"], base[k][j][1]))
                run.stats.note(hashlib.sha256(repr(base[k][j]).encode("utf-8", "replace")).hexdigest())
        for what, name in (("saveshared", "same_dataset_saved_by_two"), ("read", "same_file_read_by_two")):
            users = [set(op["i"] for op in ops if op["op"] == what) for ops in sc["threads"]]
            if any(a & b for i, a in enumerate(users) for b in users[:i]):
                run.stats.probe(name)
        length = max(sim0.step, 2)
        cand = []
        places = sim0.places()
        for _ in range(sc["k"]):
            for _ in range(2):
                cand.append(Plan(sched=place_schedule(rng, places)))
            cand.append(Plan(sched=random_schedule(rng, len(sc["threads"]), length)))
        for plan in run.plans("threads", cand):
            try:
                self.judge(run, sc, plan, base, rng)
            except Violation as v:
                v.plan = v.plan or plan
                raise

    def judge(self, run, sc, plan, base, rng):
        results, sim, out = self.go(run, sc, plan)
        self.count(run, sc, sim)
        if plan.faults:
            self.compare(sc, results, base, self.hit(out.log))
            return
        self.compare(sc, results, base, set())
        if out.leaked and not any(op["op"] == "bad" or "hdf5" in str(op) for ops in sc["threads"] for op in ops):
            raise Violation("handle-left-open", "still open after all threads ended: %s" % out.leaked_paths)
        # the same schedule, with one operation of one thread failing
        mine = [r for r in out.log if r[7].strip("/").split("/")[0] in ("t0", "t1", "t2") and not r[5] and r[1] in (simenv.OPEN, simenv.WRITE, simenv.READ)
                and "hdf5" not in r[7] and "cache" not in r[7] and not r[7].endswith(".h5")]
        if mine and run.only_plan is None and rng.random() < 0.35:
            r = rng.choice(mine)
            p2 = Plan.from_json(dict(plan.to_json(), faults=[[r[0], simenv.A_ERRNO, rng.choice([5, 28, 13])]]))
            p2.note = plan.note
            try:
                results, sim, out = self.go(run, sc, p2)
                self.count(run, sc, sim)
                if out.fired:
                    run.stats.probe("fault_in_one_thread")
                self.compare(sc, results, base, self.hit(out.log))
            except Violation as v:
                v.plan = v.plan or p2
                raise

    def hit(self, log):
        """Threads one of whose own files saw a fault."""
        names = [r[7].strip("/") for r in log if r[2] == simenv.A_ERRNO]
        return set(int(n[1]) for n in names if n[0] == "t" and n[1].isdigit())

    def count(self, run, sc, sim):
        run.stats.schedules.add(sim.digest())
        run.stats.fire("thread_switch", len(sim.switches))
        run.stats.note(sim.digest())
        run.stats.probe("interleaved")
        if sc["opcodes"]:
            run.stats.probe("opcode_switches")
        if not run.stats.samples:
            run.stats.samples.append({"threads": [[op["op"] for op in t] for t in sc["threads"]], "opcodes": sc["opcodes"], "switches": sim.switches[:8]})

    def compare(self, sc, results, base, hit):
        for k, ops in enumerate(sc["threads"]):
            if k in hit:
                continue
            for j, op in enumerate(ops):
                a, b = results[k][j], base[k][j]
                if a == b:
                    continue
                if a[0] == "raised" or b[0] == "raised":
                    raise Violation("raises-with-others", "operation %d of thread %d (%s) %s with other threads running, alone it %s" % (
                        j, k, op["op"], "raises " + a[1] if a[0] == "raised" else "succeeds", "raises " + b[1] if b[0] == "raised" else "succeeds"))
                raise Violation("mixed-up", "operation %d of thread %d (%s) gives another result with other threads running" % (j, k, op["op"]))
