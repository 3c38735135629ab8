"""Reading many files: every file once, in natural order, whatever order the
directory lists them in and whoever else works in it."""
import contextlib
import io
import os
import re

import numpy as np

import gen
import simenv
from base import BaseCheck
from formats import FORMATS, Mismatch, need, check_dim, check_var, through_fmt, int_fmt
from savecheck import exc_text, sample
from simenv import Plan, Violation, hard_faults, random_schedule


def natural_key(s):
    """Numbers by value and before text: the order the documentation promises."""
    out = []
    for num, text in re.findall(r"([0-9]+)|([^0-9]+)", s):
        out.append((0, int(num), "") if num else (1, 0, text))
    return out, s


STEMS = ["dev", "m_", "lot 7 dev", "A", "x-", "", "nan", "inf", "1e", "S21_", "b2b"]


def stated(k):
    """What the comments of file k state: whole and broken numbers, texts of different lengths."""
    return [5, 2.5, -7, 1e-3, 12][k % 5] + 10 * (k // 5), "txt" + "abc" * (k * 7 % 5) + chr(97 + k)


class Check(BaseCheck):
    id = "C11"
    level = "fault_enumeration"
    runs = {"quick": 700, "thorough": 25000}
    probes = ("shuffled_listing", "unknown_types", "pattern", "list_of_patterns", "explicit_list", "subdirectories",
              "unreadable_member", "file_vanished", "file_appeared", "no_match", "useless_member", "order_differs_from_plain_sort")

    def scenario(self, r, tier):
        fmt = r.choice(["touchstone", "citi", "spdata", "mdif"])
        F = FORMATS[fmt]
        while True:
            s = F.gen(r)
            x = s["dims"][0]
            if len(x["vals"]) < 2 or not any(v["dims"] for v in s["vars"]):
                continue
            s["dims"] = [x]
            s["vars"] = [dict(v, dims=[x["name"]]) for v in s["vars"] if v["dims"] and v["dims"][0] == x["name"]]
            for v in s["vars"]:
                if v.get("matrix"):
                    v["matrix"] = [max(2, min(3, v["matrix"][0]))] * 2
                v["nan"] = False
            if s["vars"]:
                break
        x["vals"] = x["vals"][:12]
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 7, 7, 11, 13])
        props = r.random() < 0.3 and fmt != "mdif"
        names = set()
        stem = r.choice(STEMS)
        sub = r.random() < 0.25
        brackets = r.random() < 0.1
        while len(names) < n:
            if brackets:
                n = min(n, 8)
                names.add("dev%d" % r.randint(0, 9))
                continue
            num = r.choice([str(r.randint(0, 12)), str(r.randint(0, 120)), "0%d" % r.randint(0, 12), "%03d" % r.randint(0, 20), "%d_%d" % (r.randint(0, 3), r.randint(8, 12)),
                            "", "b", "1a", "a1", "10-a2", "%d.%d" % (r.randint(0, 2), r.choice([5, 9, 10, 25])), "2012102%dT08031%d" % (r.randint(5, 7), r.randint(0, 3)),
                            "2012102608031%d%03d" % (r.randint(0, 2), r.choice([7, 70, 700])), "%d" % (10 ** r.choice([9, 10, 12, 20]) + r.randint(0, 3)),
                            "B", "v1.%d.%d" % (r.choice([2, 9, 10]), r.randint(0, 1))])
            nm = (stem if r.random() < 0.8 else r.choice(STEMS)) + num
            if not nm:
                continue
            if sub:
                nm = "d%d/%s" % (r.choice([1, 2, 10]), nm)
            names.add(nm)
        names = sorted(names)
        r.shuffle(names)
        return dict(fmt=fmt, spec=s, names=names, sub=sub and not brackets, how=r.choice(["pattern", "pattern", "list", "explicit"]), props=props, dot=r.choice(["", "", "./", "../meas/"]),
                    twice=r.random() < 0.15, brackets=brackets, verbose=r.random() < 0.1,
                    via=r.choice(["read_data", "reader"]), third=r.choice([None, "vanish", "appear"]),
                    bad=r.choice(["empty", "blank", "words", "dir"]), junk=[r.random(), r.random()])

    def shrink(self, sc):
        for i in range(len(sc["names"])):
            if len(sc["names"]) > 1:
                yield dict(sc, names=sc["names"][:i] + sc["names"][i + 1:])
        for k in ("props", "dot", "twice", "verbose"):
            if sc.get(k):
                yield dict(sc, **{k: False})
        if sc["third"]:
            yield dict(sc, third=None)
        for s in gen.shrink_spec(sc["spec"]):
            if len(s["dims"][0]["vals"]) > 1 and all(not v.get("matrix") or v["matrix"][0] > 1 for v in s["vars"]):
                yield dict(sc, spec=s)

    def verify(self, sc, db, files, index_of):
        """db must be exactly these files, in this order."""
        spec = sc["spec"]
        if sc["fmt"] == "mdif":
            need(isinstance(db, dict) and len(db) == 1, "blocks %r", list(db))
            db = list(db.values())[0]
        idx = "INDEX" if sc["fmt"] == "mdif" else "INDEX1"
        x = spec["dims"][0]
        got = [str(v) for v in np.array(db["FILENAME"]).ravel()]
        need(got == files, "files read are %r, expected %r", [os.path.basename(g) for g in got], [os.path.basename(g) for g in files])
        fi = [int(v) for v in (np.array(db["FILEINDEX"]).ravel() if "FILEINDEX" in db.vardata else np.array(db.ivardata["FILEINDEX"].data))]
        need(fi == list(range(len(files))), "FILEINDEX is %r", fi)
        check_dim(db, x["name"], through_fmt(x.get("fmt") or "%.16e", np.array(x["vals"])))
        for i in range(len(spec["vars"])):
            parts = []
            for f in files:
                nm, v = gen.model(self.member(sc, index_of[f]))[1][i]
                parts.append(through_fmt(v["fmt"] or int_fmt(v), v["data"]))
            dd = (x["name"],)
            want = parts[0]
            if len(files) > 1:
                want = np.stack(parts, axis=1)
                dd = dd + (idx,)
            if v["matrix"]:
                dd = dd + ("i", "j")
            check_var(db, nm, want, dd)
        if sc.get("props"):
            vals = [stated(index_of[f]) for f in files]
            dd = (idx,) if len(files) > 1 else ()
            for name, unit, col in (("PKX", None, 0), ("TXX", None, 1), ("UXX", "V", 0)):
                want = np.array([v[col] for v in vals])
                check_var(db, name, want if dd else want[0], dd, unit)

    def member(self, sc, k):
        if sc.get("props"):
            num, text = stated(k)
            extra = [u"PKX = %r" % num, u"TXX = %s" % text, u"UXX [V] = %r" % num]
            sc = dict(sc, spec=dict(sc["spec"], comments=list(sc["spec"].get("comments") or []) + extra))
        return dict(sc["spec"], vars=[dict(v, seed="%s-%d" % (v["seed"], k)) for v in sc["spec"]["vars"]])

    def run(self, run, sc):
        import hftools.file_formats as ff
        F = FORMATS[sc["fmt"]]
        rng = run.derived("c11")
        run.clean()
        ext = os.path.splitext(F.fname(sc["spec"]))[1]
        top = run.path("meas")
        paths = []
        index_of = {}
        for k, nm in enumerate(sc["names"]):
            p = os.path.join(top, nm + ext)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            run.must(lambda: F.save(gen.build(self.member(sc, k)), p, sc["spec"]))
            paths.append(p)
            index_of[p] = k
        with open(os.path.join(top, "readme.nfo"), "w") as f:
            f.write("not data\n")
        base = {"touchstone": ff.read_touchstone, "citi": ff.read_citi, "spdata": ff.read_spdata, "mdif": ff.read_mdif}[sc["fmt"]]
        if sc["via"] == "read_data":
            base = ff.read_data
        if sc.get("dot"):  # the same files under names that are not the shortest
            top = top + "/" + sc["dot"].rstrip("/")
            short = len(run.path("meas"))
            paths = [top + p[short:] for p in paths]
            index_of = dict((top + p[short:], k) for p, k in index_of.items())
        pats = [os.path.join(top, "d*", "*" + ext)] if sc["sub"] else [os.path.join(top, "*" + ext)]
        if sc.get("brackets"):
            pats = [os.path.join(top, "dev[0-9]" + ext)]
        order = sorted(paths, key=natural_key)
        if sorted(paths) != order:
            run.stats.probe("order_differs_from_plain_sort")
        if sc["how"] == "pattern":
            arg = pats[0]
        elif sc["how"] == "list":
            head, tail = order[:1], order[1:]
            # two patterns that overlap in nothing: one exact name last, the rest by pattern of first letter
            groups = {}
            for p in order:
                groups.setdefault(os.path.basename(p)[0], []).append(p)
            keys = sorted(groups)
            rng.shuffle(keys)
            d = os.path.join(top, "d*") if sc["sub"] else top
            arg = [os.path.join(d, "[%s]*%s" % (k, ext)) for k in keys]
            if sc.get("twice"):
                keys.append(keys[0])
                arg.append(arg[0])
            order = [p for k in keys for p in groups[k]]
            run.stats.probe("list_of_patterns")
        else:
            arg = list(paths)
            if sc.get("twice"):
                arg.append(paths[0])
            order = list(arg)
            run.stats.probe("explicit_list")
        if sc["how"] == "pattern":
            run.stats.probe("pattern")
        if sc["sub"]:
            run.stats.probe("subdirectories")

        def read():
            if not sc.get("verbose"):
                return base(arg, verbose=False)
            with contextlib.redirect_stdout(io.StringIO()):
                return base(arg, verbose=True)
        clean = None
        for plan in [Plan()] + run.plans("listing", [Plan(dirmode=1, dirseed=rng.randrange(1, 2 ** 40)) for _ in range(3)] + [Plan(dirmode=2), Plan(dirmode=3)]):
            out = run.execute(read, plan)
            p = plan if plan.dirmode else None
            if out.exc is not None:
                raise Violation("read-raises", "reading %d valid files: %s" % (len(paths), exc_text(out.exc)), p)
            try:
                self.verify(sc, out.value, order, index_of)
            except Mismatch as m:
                raise Violation("wrong-merge", "%s: %s" % (plan.describe(), m), p)
            d = gen.without_paths(gen.dump(out.value))
            if clean is None:
                clean, first = out, d
            elif d != first:
                raise Violation("listing-order", "the result depends on %s: %s" % (plan.describe(), gen.dump_diff(d, first)), p)
            run.stats.probe("unknown_types" if plan.dirmode == 3 else "shuffled_listing", 1 if plan.dirmode else 0)
            if plan.dirmode:
                run.stats.fire("listing_order")
                run.stats.traces.add("dir%d-%s-%s" % (plan.dirmode, plan.dirseed, run.seed))
        # a member that cannot be read is an error, not a smaller result
        # (a directory that cannot be listed is one glob does not see into: not claimed)
        cand = sample(rng, hard_faults(clean.log, rng, only_write=False), 6)
        for plan in run.plans("member", cand):
            out = run.execute(read, plan)
            if out.exc is None:
                try:
                    self.verify(sc, out.value, order, index_of)
                except Mismatch as m:
                    raise Violation("member-dropped", "%s, yet the read returned: %s" % (plan.describe(), m), plan)
            else:
                run.stats.probe("unreadable_member")
        # a member without any data in it: the others must not be handed out alone
        if len(paths) > 1:
            victim = paths[int(sc["junk"][0] * len(paths))]
            with open(victim, "rb") as f:
                content = f.read()
            os.unlink(victim)
            if sc["bad"] == "dir":
                os.mkdir(victim)
            else:
                with open(victim, "w") as f:
                    f.write({"empty": "", "blank": "\n\n\n", "words": "nothing to see here\n"}[sc["bad"]])
            out = run.execute(read)
            if out.exc is None:
                try:
                    names = [str(v) for v in np.array((list(out.value.values())[0] if isinstance(out.value, dict) else out.value)["FILENAME"]).ravel()]
                except Exception as e:
                    names = [repr(e)]
                raise Violation("member-dropped", "one of %d files is unusable (%s), yet the read returned %d: %r" % (len(paths), sc["bad"], len(names), [os.path.basename(x) for x in names]))
            if out.leaked:
                raise Violation("handle-left-open", "an unusable member (%s) left %s open" % (sc["bad"], out.leaked_paths))
            run.stats.probe("useless_member")
            if sc["bad"] == "dir":
                os.rmdir(victim)
            with open(victim, "wb") as f:
                f.write(content)
        # somebody else works in the directory meanwhile
        if sc["third"] in ("vanish", "appear") and sc["how"] == "pattern" and len(paths) > 1:
            victim = rng.choice(paths)
            snap = run.snapshot()
            rest = [p for p in order if p != victim]
            side = run.path("side" + ext)

            if sc["third"] == "vanish":
                def other():
                    os.unlink(victim)
            else:
                os.rename(victim, side)
                snap = run.snapshot()

                def other():
                    os.rename(side, victim)
            outs, trace = run.parallel([read_dump(read, self, sc, index_of, order, rest), other])
            length = len(trace)
            for _ in range(3):
                for plan in run.plans("third", [Plan(sched=random_schedule(rng, 2, length))]):
                    run.restore(snap)
                    os.makedirs(os.path.dirname(victim), exist_ok=True)
                    outs, trace = run.parallel([read_dump(read, self, sc, index_of, order, rest), other], plan)
                    if outs[0].hung:
                        raise Violation("hang", "reading does not end", plan)
                    if outs[1].exc is not None:
                        raise simenv.HarnessError(exc_text(outs[1].exc))
                    run.stats.probe("file_vanished" if sc["third"] == "vanish" else "file_appeared")
                    if outs[0].exc is None and outs[0].value:
                        raise Violation("wrong-merge", "while a file %ss: %s" % (sc["third"], outs[0].value), plan)
                    if outs[0].exc is not None and sc["third"] == "appear":
                        raise Violation("read-raises", "while a file appears: %s" % exc_text(outs[0].exc), plan)
        # nothing matches
        out = run.execute(lambda: base(os.path.join(top, "zzz*" + ext), verbose=False))
        if out.exc is None:
            raise Violation("no-match", "a pattern that matches nothing was read without an error: %r" % (out.value,))
        run.stats.probe("no_match")
        if not run.stats.samples:
            run.stats.samples.append({"format": sc["fmt"], "names": sc["names"], "how": sc["how"], "order": [os.path.relpath(p, top) for p in order]})


def read_dump(read, check, sc, index_of, order, rest):
    def fn():
        db = read()
        why = []
        for files in (order, rest):
            try:
                check.verify(sc, db, files, index_of)
                return ""
            except Mismatch as m:
                why.append(str(m))
        return " / ".join(why)
    return fn
