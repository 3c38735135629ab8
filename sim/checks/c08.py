"""Saving has no side effects on the data, failing or not; a retry is as good as a first try."""
import copy
import errno

import gen
import simenv
from base import BaseCheck
from formats import FORMATS
from savecheck import exc_text, sample
from simenv import Plan, Violation, hard_faults, total_written


class Check(BaseCheck):
    id = "C08"
    level = "fault_enumeration"
    runs = {"quick": 700, "thorough": 25000}
    k = {"quick": 8, "thorough": 50}
    probes = ("failed_save", "retry_identical", "bad_data_save", "disk_full")

    def scenario(self, r, tier):
        fmt = r.choice(["touchstone", "citi", "spdata", "mdif", "hdf5", "hdf5v1"])
        return dict(fmt=fmt, spec=FORMATS[fmt].gen(r, big=True), k=self.k[tier], bad=r.random() < 0.4)

    def shrink(self, sc):
        for s in FORMATS[sc["fmt"]].shrink(sc["spec"]):
            yield dict(sc, spec=s)

    def run(self, run, sc):
        F = FORMATS[sc["fmt"]]
        spec = sc["spec"]
        fname = run.path(F.fname(spec))
        rng = run.derived("c08")
        hdf = sc["fmt"].startswith("hdf5")
        run.clean()
        db = gen.build(spec)
        before = gen.dump(db)

        def unchanged(when, plan):
            d = gen.dump(db)
            if d != before:
                raise Violation("dataset-changed", "%s: %s" % (when, gen.dump_diff(d, before)), plan)
        clean = run.execute(lambda: F.save(db, fname, spec))
        if clean.exc is not None:
            raise Violation("save-raises", exc_text(clean.exc))
        unchanged("a save changed the dataset", None)
        good = run.snapshot()

        def same_file(out, when, plan):
            if out.exc is not None:
                raise Violation("retry-raises", "%s: %s" % (when, exc_text(out.exc)), plan)
            now = run.snapshot()
            if hdf:
                a = gen.dump(F.read(fname, spec))
                if a != ref:
                    raise Violation("retry-differs", "%s: %s" % (when, gen.dump_diff(a, ref)), plan)
                if sorted(now) != sorted(good):
                    raise Violation("litter", "%s: files %s" % (when, sorted(now)), plan)
            elif now != good:
                raise Violation("retry-differs", "%s: the file differs from that of an undisturbed save" % when, plan)
        ref = gen.dump(F.read(fname, spec)) if hdf else None
        run.clean()
        same_file(run.execute(lambda: F.save(db, fname, spec)), "saving the same dataset twice", None)
        unchanged("a second save changed the dataset", None)

        # make the save itself impossible half way: a format no number fits, text the file cannot hold
        if sc["bad"] and spec["vars"]:
            bad = gen.build(spec)
            how = rng.choice(["object"] if hdf else ["var", "var", "dim", "text"])
            if how == "var":
                bad[rng.choice(spec["vars"])["name"]].outputformat = "%.3q"
            elif how == "dim":
                odd = copy.deepcopy(spec)
                rng.choice(odd["dims"])["fmt"] = "%.3q"
                bad = gen.build(odd)
            elif how == "text":
                from hftools.file_formats import Comments
                bad.comments = Comments((spec["comments"] or []) + [u"10 \u03a9 load"])
            else:
                from hftools.dataset import hfarray, DimSweep
                import numpy as np
                bad["zz"] = hfarray(np.array([object(), None], dtype=object), dims=(DimSweep("odd", [1.0, 2.0]),))
            bdump = gen.dump(bad)
            run.clean()
            out = run.execute(lambda: F.save(bad, fname, spec))
            if out.exc is not None:
                run.stats.probe("bad_data_save")
                if out.leaked:
                    raise Violation("handle-left-open", "a save that failed on its data left %s open" % out.leaked_paths)
                if gen.dump(bad) != bdump:
                    raise Violation("dataset-changed", "a save that failed on its data changed it: %s" % gen.dump_diff(gen.dump(bad), bdump))
                out.exc = None
                same_file(run.execute(lambda: F.save(db, fname, spec)), "after a save that failed on its data", None)

        cand = sample(rng, hard_faults([r for r in clean.log if r[1] != simenv.READ], rng), sc["k"])
        n = total_written(clean.log)
        if n:
            cand += [Plan(budget=rng.randrange(n)) for _ in range(2)]
        if clean.log:
            cand.append(Plan(dead=[rng.choice(clean.log)[0], errno.EIO]))
        for plan in run.plans("fault", cand):
            run.clean()

            def fn():
                F.save(db, fname, spec)
            if hdf:
                def wrapped():
                    try:
                        fn()
                        res = None
                    except Exception as e:
                        res = exc_text(e)
                    return res, gen.dump_diff(gen.dump(db), before) if gen.dump(db) != before else ""
                out = run.forked(wrapped, plan)
                if out.hung:
                    raise Violation("hang", "save does not end under %s" % plan.describe(), plan)
                if out.crashed:
                    continue
                if out.exc is not None:
                    raise simenv.HarnessError(exc_text(out.exc))
                failed, changed = out.value
                if changed:
                    raise Violation("dataset-changed", "a failed save (%s) changed the dataset: %s" % (plan.describe(), changed), plan)
            else:
                out = run.execute(fn, plan)
                failed = out.exc
                unchanged("a save under %s changed the dataset" % plan.describe(), plan)
                if out.leaked:
                    raise Violation("handle-left-open", "a failed save (%s) left %s open" % (plan.describe(), out.leaked_paths), plan)
                out.exc = None
            if failed is None:
                continue
            run.stats.probe("disk_full" if plan.budget is not None else "failed_save")
            same_file(run.execute(fn), "retry after a failed save (%s)" % plan.describe(), plan)
            unchanged("a retry changed the dataset", plan)
            run.stats.probe("retry_identical")
        if not run.stats.samples:
            run.stats.samples.append({"format": sc["fmt"], "spec": spec, "operations": simenv.fmt_log(clean.log)[:8]})
