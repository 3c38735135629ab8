"""The data cache: whatever happened before, what it serves is complete."""
import errno
import os

import numpy as np

import gen
import simenv
from base import BaseCheck
from formats import FORMATS
from savecheck import exc_text, sample
from simenv import Plan, Violation, hard_faults, random_schedule, A_CRASH, A_CRASH_AFTER


MARK = "edited_by_block"


class BodyError(Exception):
    pass


class Left(Exception):
    """The program was told to end."""


class Stopped(Exception):
    """StopIteration, which must not get lost in a generator."""


class Interrupted(Exception):
    """The user pressed control-C."""


def content(db):
    """Variables and dimensions by name: what the cache must preserve."""
    out = {}
    for k in db.vardata:
        v = db.vardata[k]
        out[k] = (tuple((d.name, type(d).__name__, gen.arr_bytes(np.array(d.data)), d.unit) for d in v.dims),
                  np.array(v).dtype.kind, np.array(v).shape, gen.arr_bytes(np.array(v)) if np.array(v).dtype.kind not in "US" else np.array(v).tolist(), v.unit)
    return out


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return "variable %r is %s" % (k, "missing" if k in a else "new")
        if a[k] != b[k]:
            return "variable %r differs" % k
    return ""


class Check(BaseCheck):
    id = "C10"
    level = "fault_enumeration"
    runs = {"quick": 1200, "thorough": 20000}
    probes = ("served_from_cache", "filled", "crash_while_filling", "fault_while_filling", "body_raised",
              "concurrent_fill", "concurrent_with_kill", "reread", "recovered_after_crash", "edited_in_block")

    def scenario(self, r, tier):
        fmt = r.choice(["touchstone", "citi", "spdata", "hdf5", "touchstone"])
        F = FORMATS[fmt]
        specs = [F.gen(r) for _ in range(2)]
        for s in specs:
            # a dimension is one thing in a dataset: matrices of one size, or HDF5 mixes their i and j
            ms = [v for v in s["vars"] if v.get("matrix")]
            for v in ms:
                v["matrix"] = ms[0]["matrix"]
        if fmt == "touchstone":
            specs[1]["vars"][0]["matrix"] = specs[0]["vars"][0]["matrix"]
        steps = []
        for _ in range(r.randint(2, 5)):
            k = r.random()
            st = dict(reread=r.random() < 0.3, cachedir=r.choice(["cache", "deep/er/cache"]) if k < 0 else None)
            if k < 0.2:
                st["kind"] = "clean"
            elif k < 0.4:
                st["kind"] = "crash"
            elif k < 0.55:
                st["kind"] = "fault"
            elif k < 0.65:
                st["kind"] = "body"
                st["body"] = r.choice(["BodyError", "Interrupted", "OSError", "ValueError", "KeyError", "StopIteration", "SystemExit"])
            elif k < 0.72:
                st["kind"] = "change"
            else:
                st["kind"] = "concurrent"
                st["n"] = r.choice([2, 2, 3])
                st["kill"] = r.random() < 0.4
            if r.random() < 0.35:
                st["edit"] = "e%d" % len(steps)
            steps.append(st)
        return dict(fmt=fmt, specs=specs, steps=steps, dir=r.choice(["cache", "deep/er/cache", None]),
                    name=r.choice([None, "mydata", "run 2.b"]), other=r.random() < 0.4,
                    stem=r.choice(["src_data", "src_data", "meas.1", "a b.x"]), sib=r.random() < 0.3)

    def shrink(self, sc):
        for i in range(len(sc["steps"])):
            if len(sc["steps"]) > 1:
                yield dict(sc, steps=sc["steps"][:i] + sc["steps"][i + 1:])
        for i, st in enumerate(sc["steps"]):
            if st.get("n", 0) > 2:
                yield dict(sc, steps=sc["steps"][:i] + [dict(st, n=2)] + sc["steps"][i + 1:])
            if st.get("edit"):
                yield dict(sc, steps=sc["steps"][:i] + [dict((k, v) for k, v in st.items() if k != "edit")] + sc["steps"][i + 1:])
            if st["reread"]:
                yield dict(sc, steps=sc["steps"][:i] + [dict(st, reread=False)] + sc["steps"][i + 1:])
        for k in ("sib", "other"):
            if sc.get(k):
                yield dict(sc, **{k: False})
        if sc["dir"]:
            yield dict(sc, dir=None)
        for s in FORMATS[sc["fmt"]].shrink(sc["specs"][0]):
            yield dict(sc, specs=[s, sc["specs"][1]])

    def run(self, run, sc):
        from hftools.dataset import hfarray
        from hftools.file_formats import read_to_cache, read_from_cache
        F = FORMATS[sc["fmt"]]
        fname = run.path(sc.get("stem", "src_data") + os.path.splitext(F.fname(sc["specs"][0]))[1])
        rng = run.derived("cache")
        cachedir = None if sc["dir"] is None else run.path(sc["dir"])
        run.clean()
        # two versions of the source; what each must look like, read directly
        versions = []
        for spec in reversed(sc["specs"]):
            run.must(lambda: F.save(gen.build(spec), fname, spec))
            from hftools.file_formats import read_data
            with open(fname, "rb") as f:
                raw = f.read()
            versions.insert(0, (content(read_data(fname, verbose=False)), raw))
        run.clean()

        def put(v):
            with open(fname, "wb") as f:
                f.write(versions[v][1])

        def session(reread=False, body=None, edit=None):
            def fn():
                try:
                    with read_to_cache(fname, cachename=sc["name"], cachedir=cachedir, reread=reread, verbose=False) as (data, fresh):
                        res = (content(data), fresh)
                        if edit and fresh:
                            # what the block makes of the data is what the cache keeps
                            data[MARK] = hfarray(np.array(edit))
                        if body:
                            raise {"BodyError": BodyError, "Interrupted": KeyboardInterrupt, "OSError": OSError, "ValueError": ValueError,
                                   "KeyError": KeyError, "StopIteration": StopIteration, "SystemExit": SystemExit}[body]()
                except KeyboardInterrupt:
                    raise Interrupted()
                except SystemExit:
                    raise Left()
                except StopIteration:
                    raise Stopped()
                return res
            return fn

        def which(c):
            c = dict(c)
            mark = c.pop(MARK, None)
            if mark is not None:
                mark = str(mark[3])
            return [(i, mark) for i, v in enumerate(versions) if not diff(v[0], c)]

        cur = 0
        put(cur)
        # another cache in the same directory, filled before: it must stay as it is
        if sc.get("other"):
            out = run.execute(lambda: self.fill(fname, "other set", cachedir))
            if out.exc is not None:
                raise Violation("call-raises", "filling a cache: %s" % exc_text(out.exc))
        # and that of a neighbour under the name the library gives it
        sibling = os.path.splitext(os.path.splitext(fname)[0])[0] + ".2" + os.path.splitext(fname)[1]
        if sc.get("sib"):
            with open(sibling, "wb") as f:
                f.write(versions[1][1])
            out = run.execute(lambda: self.fill(sibling, None, cachedir))
            if out.exc is not None:
                raise Violation("call-raises", "filling a cache: %s" % exc_text(out.exc))
        possible = {None}      # what the cache may hold
        only = run.only_plan
        crashed_before = False

        def judge(out, reread, possible, before, plan, tag, edit=None):
            """One call that returned: check it, return what the cache may hold now."""
            c, fresh = out.value
            w = which(c)
            if not w:
                raise Violation("partial-data", "%s: the data handed out is not the measured data: %s" %
                                (tag, diff(versions[cur][0], c)), plan)
            if fresh:
                if (cur, None) not in w:
                    raise Violation("stale-read", "%s: freshly read data is not the current file" % tag, plan)
                if None not in before and not reread:
                    raise Violation("cache-lost", "%s: a cache that was acknowledged is not used" % tag, plan)
                run.stats.probe("filled")
                if reread:
                    run.stats.probe("reread")
                return {(cur, edit)}
            if reread:
                raise Violation("reread-ignored", "%s: reread was asked for but the cache was served" % tag, plan)
            if not (set(w) & before):
                raise Violation("cache-wrong", "%s: served %s, cache can only hold %s" % (tag, w, sorted(map(str, before))), plan)
            run.stats.probe("served_from_cache")
            return set(w) & before

        for n, st in enumerate(sc["steps"]):
            tag = "step%d" % n
            kind = st["kind"]
            rr = st["reread"]
            edit = st.get("edit")
            if edit:
                run.stats.probe("edited_in_block")
            if kind == "change":
                cur = 1 - cur
                put(cur)
                continue
            if kind in ("crash", "fault") or kind == "concurrent":
                # learn the operations of a clean session from the same state
                snap = run.snapshot()
                if kind == "concurrent":
                    fns = [session(rr, edit=edit) for _ in range(st["n"])]
                    outs, trace = run.parallel(fns)
                    length = len(trace)
                    percent = [sum(1 for t in trace if t[0] == i) for i in range(st["n"])]
                    run.restore(snap)
                    if only is not None and only.note == tag:
                        plan = only
                    else:
                        plan = Plan(sched=random_schedule(rng, st["n"], length), note=tag)
                        if st["kill"]:
                            t = rng.randrange(st["n"])
                            if percent[t]:
                                plan.kill = [t, rng.randrange(percent[t])]
                    outs, trace = run.parallel(fns, plan)
                    run.stats.probe("concurrent_with_kill" if plan.kill else "concurrent_fill")
                    # every call may see the cache as it was, or as any other call left it
                    before = set(possible) | {(cur, edit)}
                    after = set()
                    for i, out in enumerate(outs):
                        if out.hung:
                            raise Violation("hang", "concurrent read_to_cache does not end", plan)
                        if out.crashed:
                            if plan.kill and plan.kill[0] == i:
                                after |= {(cur, edit)}
                                crashed_before = True
                                continue
                            raise Violation("crash", "process %d died by itself" % i, plan)
                        if out.exc is not None:
                            raise Violation("concurrent-raises", "process %d of %d fails when others fill the cache: %s" % (i, st["n"], exc_text(out.exc)), plan)
                        bset = set(before)
                        if possible == {None} or rr or None in possible:
                            bset.add(None)
                        after |= judge(out, rr, possible, bset, plan, "%s process %d" % (tag, i), edit)
                    ok = [o for o in outs if not o.crashed]
                    possible = (possible | after) if not ok else after | (possible - {None} if not any(o.value[1] for o in ok) else set())
                    continue
                base = run.execute(session(rr, edit=edit))
                if base.exc is not None:
                    raise Violation("call-raises", "%s: %s" % (tag, exc_text(base.exc)))
                run.restore(snap)
                if only is not None and only.note == tag:
                    plan = only
                elif kind == "crash":
                    i = rng.choice(base.log)
                    plan = Plan([[i[0], rng.choice([A_CRASH, A_CRASH, A_CRASH_AFTER]),
                                  rng.randint(0, max(0, i[3]))]], note=tag)
                else:
                    cand = hard_faults(base.log, rng, only_write=False)
                    cand += [Plan(budget=rng.randint(0, 4000))]
                    plan = rng.choice(cand)
                    plan.note = tag
                out = run.forked(session(rr, edit=edit), plan)
                if out.hung:
                    raise Violation("hang", "read_to_cache does not end", plan)
                run.stats.probe("%s_while_filling" % kind)
                if out.value is not None and out.exc is None:
                    possible = judge(out, rr, possible, possible, plan, tag, edit) | (set() if not out.fired else set(possible))
                else:
                    if rr or None in possible:
                        possible = possible | {(cur, edit)}
                    crashed_before = True
                continue
            if kind == "body":
                snap = run.snapshot()
                what = st.get("body", "BodyError")
                out = run.execute(session(rr, body=what, edit=edit))
                what = {"SystemExit": "Left", "StopIteration": "Stopped"}.get(what, what)
                if out.exc is None or type(out.exc).__name__ != what:
                    raise Violation("body-exception", "an exception in the with block came out as %s" % exc_text(out.exc))
                now = run.snapshot()
                if now != snap:
                    raise Violation("body-cached", "files changed although the with block failed: %s" %
                                    sorted(set(k for k in set(now) | set(snap) if now.get(k, 0) != snap.get(k, 0))))
                run.stats.probe("body_raised")
                continue
            out = run.execute(session(rr, edit=edit))
            if out.exc is not None:
                raise Violation("call-raises", "%s: %s" % (tag, exc_text(out.exc)))
            possible = judge(out, rr, possible, possible, None, tag, edit)

        # faults have stopped: one call must succeed and fill the cache, the next must be served
        for tag in ("after", "again"):
            out = run.execute(session())
            plan = only
            if out.exc is not None:
                raise Violation("no-recovery", "%s all faults stopped: %s" % (tag, exc_text(out.exc)), self.last_plan(run))
            possible = judge(out, False, possible, possible, None, tag)
            if crashed_before:
                run.stats.probe("recovered_after_crash")
        if out.value[1]:
            raise Violation("not-cached", "an acknowledged cache fill is not used by the next call")
        name = sc["name"] or os.path.splitext(os.path.basename(fname))[0]
        out = run.execute(lambda: content(read_from_cache(name, cachedir=cachedir)))
        if out.exc is not None:
            raise Violation("read-from-cache", exc_text(out.exc))
        if not (set(which(out.value)) & possible):
            raise Violation("cache-wrong", "read_from_cache serves other data")
        if sc.get("other"):
            out = run.execute(lambda: content(read_from_cache("other set", cachedir=cachedir)))
            if out.exc is not None:
                raise Violation("other-cache-lost", "the cache of other data in the same directory: %s" % exc_text(out.exc))
            if diff(versions[0][0], out.value):
                raise Violation("other-cache-wrong", "the cache of other data in the same directory changed: %s" % diff(versions[0][0], out.value))
            run.stats.probe("other_cache_intact")
        if sc.get("sib"):
            out = run.execute(lambda: content(read_from_cache(os.path.splitext(os.path.basename(sibling))[0], cachedir=cachedir)))
            if out.exc is not None:
                raise Violation("other-cache-lost", "the cache of a file of a similar name: %s" % exc_text(out.exc))
            want, got = [dict((k, v) for k, v in c.items() if k != "FILENAME") for c in (versions[1][0], out.value)]
            if diff(want, got):
                raise Violation("other-cache-wrong", "the cache of a file of a similar name changed: %s" % diff(want, got))
            run.stats.probe("neighbour_intact")
        if not run.stats.samples:
            run.stats.samples.append({"format": sc["fmt"], "steps": sc["steps"], "cache_dir": sc["dir"]})

    def fill(self, fname, name, cachedir):
        from hftools.file_formats import read_to_cache
        with read_to_cache(fname, cachename=name, cachedir=cachedir, verbose=False):
            pass

    def last_plan(self, run):
        return run.only_plan
