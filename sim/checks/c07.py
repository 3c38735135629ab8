"""Reads are all or nothing under any read fault, for every reader."""
import gen
import simenv
from base import BaseCheck
from formats import FORMATS, Mismatch
from savecheck import exc_text, sample, hash_dump
from simenv import Plan, Violation, hard_faults, benign_plan
import errno


class Check(BaseCheck):
    id = "C07"
    level = "fault_enumeration"
    runs = {"quick": 700, "thorough": 25000}
    k = {"quick": 10, "thorough": 80}
    probes = ("fault_raised", "fault_harmless", "short_reads", "retry_equal", "device_dead", "multi_file",
              "via_read_data", "via_specific_reader")

    def scenario(self, r, tier):
        fmt = r.choice(["touchstone", "citi", "spdata", "mdif", "hdf5", "hdf5v1"])
        n = r.choice([1, 1, 2, 3]) if fmt in ("touchstone", "citi", "spdata") else 1
        s0 = FORMATS[fmt].gen(r, big=True)
        if any(len(d["vals"]) > 1 for d in s0["dims"][1:]):
            n = 1      # files with several blocks each cannot be merged
        specs = [s0]
        for i in range(n - 1):
            specs.append(dict(s0, vars=[dict(v, seed="%s-%d" % (v["seed"], i)) for v in s0["vars"]]))
        return dict(fmt=fmt, specs=specs, blank=r.choice([0, 0, 0, 1, 2, 30]) if not fmt.startswith("hdf5") else 0, via=r.choice(["read_data", "reader"]), k=self.k[tier],
                    ext=r.choice([None, "", ".txt", ".dat", ".S2P", ".citi.bak", ".mdif", ".hdf5", ".h5", ".s1p", ".csv", ".mat"]),
                    kw=dict((k, False) for k in ("normalize", "make_complex", "guess_unit", "property_to_vars") if r.random() < 0.25))

    def shrink(self, sc):
        if len(sc["specs"]) > 1:
            yield dict(sc, specs=sc["specs"][:-1])
        if sc.get("blank"):
            yield dict(sc, blank=0)
        for s in FORMATS[sc["fmt"]].shrink(sc["specs"][0]):
            yield dict(sc, specs=[s] + [dict(s, vars=[dict(v, seed="%s-%d" % (v["seed"], i)) for v in s["vars"]])
                                        for i in range(len(sc["specs"]) - 1)])

    def run(self, run, sc):
        import hftools.file_formats as ff
        F = FORMATS[sc["fmt"]]
        rng = run.derived("c07")
        run.clean()
        names = []
        for i, spec in enumerate(sc["specs"]):
            fn = run.path("f%d_%s" % (i, F.fname(spec)))
            if sc.get("ext") is not None and sc["fmt"] != "touchstone":
                fn = run.path("f%d%s" % (i, sc["ext"]))       # the format is found without the help of the name
            run.must(lambda: F.save(gen.build(spec), fn, spec))
            names.append(fn)
            if sc.get("blank"):
                with open(fn, "rb") as f:
                    raw = f.read()
                with open(fn, "wb") as f:
                    f.write(b"\n" * sc["blank"] + raw)
        arg = names[0] if len(names) == 1 else names
        if sc["via"] == "read_data":
            read = lambda: ff.read_data(arg, verbose=False)
            run.stats.probe("via_read_data")
        else:
            f = {"touchstone": ff.read_touchstone, "citi": ff.read_citi, "spdata": ff.read_spdata, "mdif": ff.read_mdif}.get(sc["fmt"], ff.read_hdf5)
            read = (lambda: f(arg)) if sc["fmt"].startswith("hdf5") else (lambda: f(arg, verbose=False))
            run.stats.probe("via_specific_reader")
        if len(names) > 1:
            run.stats.probe("multi_file")
        clean = run.execute(read)
        if clean.exc is not None:
            raise Violation("read-raises", "reading valid files failed: %s" % exc_text(clean.exc))
        if clean.leaked:
            raise Violation("handle-left-open", "reading left %s open" % clean.leaked_paths)
        if len(names) == 1:
            try:
                F.check(sc["specs"][0], clean.value, names[0])
            except Mismatch as m:
                raise Violation("read-differs", "what is read (%s) is not what was saved: %s" % (sc["via"], m))
        ref = gen.dump(clean.value)
        run.stats.note(hash_dump(clean.value))
        hdf = sc["fmt"].startswith("hdf5")
        if not hdf:
            # the generic reader reads the same as the reader of the format, whatever it is asked for
            f = {"touchstone": ff.read_touchstone, "citi": ff.read_citi, "spdata": ff.read_spdata, "mdif": ff.read_mdif}[sc["fmt"]]
            res = []
            for g in (f, ff.read_data):
                out = run.execute(lambda: gen.dump(g(arg, verbose=False, **sc.get("kw", {}))))
                if out.leaked:
                    raise Violation("handle-left-open", "reading left %s open" % out.leaked_paths)
                res.append(type(out.exc).__name__ if out.exc is not None else out.value)
            if res[0] != res[1]:
                raise Violation("generic-differs", "read_data(%s) reads differently from %s: %s" %
                                (", ".join("%s=%s" % x for x in sorted(sc.get("kw", {}).items())), f.__name__,
                                 gen.dump_diff(res[1], res[0]) if isinstance(res[0], tuple) and isinstance(res[1], tuple) else "%.200r, %.200r" % tuple(res)))
            run.stats.probe("generic_equals_reader")

        def exe(plan):
            def fn():
                v = read()
                d = gen.dump(v)
                return None if d == ref else gen.dump_diff(d, ref) or "different"
            return run.forked(fn, plan) if hdf else run.execute(fn, plan)

        for plan in run.plans("short", [benign_plan(clean.log, rng) for _ in range(3)]):
            out = exe(plan)
            if out.hung:
                raise Violation("hang", "read does not end under %s" % plan.describe(), plan)
            if out.exc is not None:
                raise Violation("short-read-raises", "%s: %s" % (plan.describe(), exc_text(out.exc)), plan)
            if out.value:
                raise Violation("short-read-differs", "%s: %s" % (plan.describe(), out.value), plan)
            run.stats.probe("short_reads")
        cand = hard_faults(clean.log, rng, only_write=False)
        cand = sample(rng, cand, sc["k"])
        ops = [r[0] for r in clean.log]
        if ops:
            cand.append(Plan(dead=[rng.choice(ops), errno.EIO]))
        for plan in run.plans("fault", cand):
            out = exe(plan)
            if out.hung:
                raise Violation("hang", "read does not end under %s" % plan.describe(), plan)
            if out.crashed:
                raise Violation("crash", "reader died under %s: %s" % (plan.describe(), exc_text(out.exc)), plan)
            if out.exc is None:
                if out.value:
                    raise Violation("partial-read", "%s: the read returned normally with other data: %s" % (plan.describe(), out.value), plan)
                run.stats.probe("fault_harmless")
            else:
                run.stats.probe("device_dead" if plan.dead else "fault_raised")
            if not hdf and out.leaked:
                raise Violation("handle-left-open", "a failed read left %s open (%s)" % (out.leaked_paths, plan.describe()), plan)
        for plan in run.plans("retry", [Plan()]):
            out = exe(plan)
            if out.exc is not None or out.value:
                raise Violation("retry-differs", "after failed reads, the file reads differently: %s" % (out.value or exc_text(out.exc)), plan)
            run.stats.probe("retry_equal")
        if not run.stats.samples:
            run.stats.samples.append({"format": sc["fmt"], "files": len(names), "via": sc["via"],
                                      "operations": simenv.fmt_log(clean.log)[:10]})
