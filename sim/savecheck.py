"""Acknowledged saves are durable and faithful; failing disks are never silent."""
import errno

import gen
import simenv
from base import BaseCheck
from formats import FORMATS, Mismatch
from simenv import Plan, Violation, hard_faults, benign_plan, total_written


def sample(rng, items, k):
    items = list(items)
    if len(items) <= k:
        return items
    idx = sorted(rng.sample(range(len(items)), k))
    return [items[i] for i in idx]


def exc_text(e):
    if e is None:
        return "nothing"
    if isinstance(e, tuple):
        return "%s: %s" % (e[0], e[1])
    return "%s: %s" % (type(e).__name__, e)


class SaveCheck(BaseCheck):
    level = "fault_enumeration"
    formats = ()
    fork = False
    per_kind = {"quick": 10, "thorough": 60}
    probes = ("save_clean", "save_over_existing", "save_failed_as_it_must", "disk_full",
              "short_or_interrupted_write", "short_or_interrupted_read", "retry_after_failure")

    def scenario(self, r, tier):
        fmt = r.choice(self.formats)
        spec = FORMATS[fmt].gen(r, big=True)
        sc = dict(fmt=fmt, spec=FORMATS[fmt].options(r, spec), old=None,
                  k=self.per_kind[tier])
        if FORMATS[fmt].text and "comments" in spec and fmt != "mdif" and r.random() < 0.03:
            # a comment that the encoding of the file may not be able to hold
            spec["comments"] = (spec["comments"] or []) + [u"10 \u03a9 load"]
            sc["unencodable"] = True
        if fmt.startswith("hdf5") and r.random() < 0.06:
            # a name that the file may not be able to hold
            what = r.choice(spec["vars"] + spec["dims"][:1])
            odd = r.choice(["a/b", "/a", "a\\b", "a/b\\c", "a//b", "x/", "\\"])
            for v in spec["vars"]:
                v["dims"] = [odd if n == what["name"] else n for n in v["dims"]]
            spec["spare"] = [odd if n == what["name"] else n for n in spec.get("spare", [])]
            what["name"] = odd
            if len(set([v["name"] for v in spec["vars"]] + [d["name"] for d in spec["dims"]])) == len(spec["vars"] + spec["dims"]):
                sc["unencodable"] = True
            else:
                what["name"] = "other"
                return self.scenario(r, tier)
        if r.random() < 0.4:
            sc["old"] = FORMATS[fmt].gen(r, big=True)
        elif r.random() < 0.2:
            sc["old"] = "junk"
        return sc

    def shrink(self, sc):
        if sc["old"]:
            yield dict(sc, old=None)
        for s in FORMATS[sc["fmt"]].shrink(sc["spec"]):
            yield dict(sc, spec=s)

    # -- one execution, in a child when the library cannot be trusted after a fault
    def exe(self, run, fn, plan=None):
        if self.fork and plan is not None and plan.key() != Plan().key():
            return run.forked(fn, plan)
        return run.execute(fn, plan)

    def run(self, run, sc):
        F = FORMATS[sc["fmt"]]
        spec = sc["spec"]
        fname = run.path(F.fname(spec))
        rng = run.derived("plans")
        run.clean()
        if sc["old"] == "junk":
            if F.text:
                with open(fname, "wb") as f:
                    f.write(b"left over from something else\n" * 4000)
        elif sc["old"]:
            out = run.execute(lambda: F.save(gen.build(sc["old"]), fname, sc["old"]))
            if out.exc is not None:
                raise Violation("save-raises", "saving valid data failed: %s" % exc_text(out.exc))
        start = run.snapshot()
        db = gen.build(spec)

        # 1. no fault: the save is acknowledged and what is read back is what was saved
        clean = run.execute(lambda: F.save(db, fname, spec))
        if clean.exc is not None and sc.get("unencodable"):
            run.stats.probe("refused_text_the_file_cannot_hold")
            return
        if clean.exc is not None:
            raise Violation("save-raises", "saving valid data failed: %s" % exc_text(clean.exc))
        if clean.open_w:
            raise Violation("handle-left-open", "save returned with %s still open for writing" % clean.leaked_paths)
        run.stats.probe("save_over_existing" if sc["old"] else "save_clean")
        good = run.snapshot()
        rd = self.verify(run, F, spec, fname, None)
        if len(run.stats.samples) < 1:
            run.stats.samples.append({"format": F.name, "spec": spec, "over_existing": bool(sc["old"]),
                                      "operations_of_clean_save": simenv.fmt_log(clean.log)[:12],
                                      "operations_of_read": simenv.fmt_log(rd.log)[:6]})

        # 2. legal but unusual operating system: short and interrupted writes and reads
        for plan in run.plans("benign-save", [benign_plan(clean.log, rng) for _ in range(2)]):
            run.restore(start)
            out = self.exe(run, lambda: F.save(db, fname, spec), plan)
            if out.hung:
                raise Violation("hang", "save does not end under %s" % plan.describe(), plan)
            if out.exc is not None:
                raise Violation("save-raises-on-short-write", "%s: %s" % (plan.describe(), exc_text(out.exc)), plan)
            run.stats.probe("short_or_interrupted_write", 1 if out.fired else 0)
            self.verify(run, F, spec, fname, plan)
        for plan in run.plans("benign-read", [benign_plan(rd.log, rng)]):
            run.restore(good)
            self.verify(run, F, spec, fname, plan, plan)
            run.stats.probe("short_or_interrupted_read")

        # 3. failing disk: every fault that hits the save must reach the caller
        cand = hard_faults([r for r in clean.log if r[1] != simenv.READ], rng)
        cand = sample(rng, cand, sc["k"])
        n = total_written(clean.log)
        marks = sorted(set([0, n - 1] + [rng.randrange(n) for _ in range(3)])) if n else []
        cand += [Plan(budget=m) for m in marks]
        ops = [r[0] for r in clean.log if not r[5]]
        if ops:
            cand.append(Plan(dead=[rng.choice(ops[:-1] or ops), errno.EIO]))
        for plan in run.plans("fault-save", cand):
            run.restore(start)
            out = self.exe(run, lambda: F.save(db, fname, spec), plan)
            if out.hung:
                raise Violation("hang", "save does not end under %s" % plan.describe(), plan)
            if out.crashed:
                continue
            if not out.fired:
                continue
            if out.exc is None and not any(r[2] and r[1] in (simenv.WRITE, simenv.CLOSE, simenv.TRUNC) for r in out.log):
                # an open that failed and was worked around: fine if the data is there
                self.verify(run, F, spec, fname, plan)
                continue
            if out.exc is None:
                raise Violation("lost-write", "save returned normally although the disk failed (%s)" % plan.describe(), plan)
            run.stats.probe("disk_full" if plan.budget is not None else "save_failed_as_it_must")
            if rng.random() < 0.3 or run.only_plan is not None:
                out2 = self.exe(run, lambda: F.save(db, fname, spec), None)
                if out2.exc is not None:
                    raise Violation("retry-raises", "after a failed save (%s) the retry failed too: %s" % (plan.describe(), exc_text(out2.exc)), plan)
                run.stats.probe("retry_after_failure")
                self.verify(run, F, spec, fname, plan, what="saved again after a failure")
        return

    def verify(self, run, F, spec, fname, plan, readplan=None, what="saved"):
        if self.fork and readplan is not None:
            def fn():
                db = F.read(fname, spec)
                F.check(spec, db, fname)
                return None
            out = run.forked(fn, readplan)
        else:
            out = run.execute(lambda: F.read(fname, spec), readplan)
        if out.hung:
            raise Violation("hang", "read does not end", plan)
        if out.exc is not None:
            raise Violation("read-back", "what was %s cannot be read back as %s: %s" % (what, what, exc_text(out.exc)), plan)
        if out.value is not None:
            try:
                F.check(spec, out.value, fname)
            except Mismatch as m:
                raise Violation("read-back", "%s data reads back differently: %s" % (what, m), plan)
            run.stats.note(hash_dump(out.value))
        return out


def hash_dump(db):
    import hashlib
    return hashlib.sha256(repr(gen.without_paths(gen.dump(db))).encode("utf-8", "replace")).hexdigest()
