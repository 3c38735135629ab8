"""No operation leaves a trace in the process: not in later results, not in
the settings it shares with the rest of the program."""
import hashlib
import io
import locale
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

import gen
import simenv
import zygote
from base import BaseCheck
from c13 import YAMLS, file_value, yaml_value
from c22 import Point, mat_bytes
from foreign import FOREIGN
from formats import FORMATS
from simenv import Plan, Run, Violation

FMTS = ["touchstone", "citi", "spdata", "mdif", "hdf5", "hdf5v1"]
NAMES = ["one", "two", "two", "three"]


def settings():
    """What a program shares with the libraries it calls."""
    return dict(cwd=os.getcwd(), environ=sorted(os.environ.items()), errstate=sorted(np.geterr().items()),
                print=repr(sorted(np.get_printoptions().items())), warnings=repr(warnings.filters), showwarning=id(warnings.showwarning),
                locale=locale.setlocale(locale.LC_ALL), path=list(sys.path), umask=umask(), threads=threading.active_count(),
                handlers=[repr(type(h)) for h in logging.getLogger().handlers + logging.getLogger("hftools").handlers],
                random=hashlib.sha256(repr(random.getstate()).encode()).hexdigest(),
                nprandom=hashlib.sha256(repr(np.random.get_state()[1].tolist()).encode()).hexdigest(),
                signals=[str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
                streams=[id(sys.stdout), id(sys.stderr)], recursion=sys.getrecursionlimit(), trace=sys.gettrace() is None)


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


class BadName(object):
    def __str__(self):
        raise ValueError("no name")
    __repr__ = __str__


def remote_op(root, seed, sc, n, plan):
    """One operation in a process that has done nothing else."""
    warnings.simplefilter("ignore")
    os.chdir(root)
    run = Run(root, seed)
    c = Check()
    out = c.result(run, sc, sc["ops"][n], c.datasets(sc, n), Plan.from_json(plan) if plan else None)
    return out.value, out.log, c.disk(run), run.stats_tuple()


class Check(BaseCheck):
    id = "C19"
    level = "exploration"
    runs = {"quick": 1500, "thorough": 30000}
    probes = ("ops", "failed_op", "fault_then_more", "same_name_other_content", "torn_file", "same_object_again", "config", "cache", "merge", "append", "compared_with_fresh_process", "edited_and_saved_again", "result_overwritten", "foreign", "muwave", "tree")

    def prepare(self):
        self.dir = tempfile.mkdtemp(prefix="hfzyg-")
        self.fresh = zygote.Zygote("fresh", {"PYTHONHASHSEED": os.environ.get("PYTHONHASHSEED", "0")}, 10, self.dir, "c19")
        self.fresh.wait()

    def finish(self):
        self.fresh.stop()
        shutil.rmtree(self.dir, ignore_errors=True)

    def scenario(self, r, tier):
        fmts = r.sample(FMTS, r.choice([1, 1, 2, 3]))
        specs = []
        for _ in range(3):
            f = r.choice(fmts)
            specs.append([f, FORMATS[f].gen(r)])
        if r.random() < 0.6:
            # the same layout with other numbers, one block per file: so files can be merged
            f, s0 = specs[0]
            for _ in range(30):
                if all(len(d["vals"]) == 1 for d in s0["dims"][1:]):
                    break
                s0 = FORMATS[f].gen(r)
            specs = [[f, dict(s0, vars=[dict(v, seed="%s-%d" % (v["seed"], i)) for v in s0["vars"]])] for i in range(3)]
        ops = []
        f = r.choice(["touchstone", "citi", "spdata", "mdif"])
        others = []
        for _ in range(3):
            f = f if r.random() < 0.7 else r.choice(["touchstone", "citi", "spdata", "mdif"])
            others.append([f, FOREIGN[f].gen(r)])
        instruments = r.random() < 0.15
        for _ in range(r.randint(4, 10)):
            k = r.random()
            op = dict(i=r.randrange(3), name=r.choice(NAMES))
            if r.random() < (0.7 if instruments else 0.1):
                op["op"] = "foreign"
                op["via"] = r.choice(["read_data", "reader"])
            elif r.random() < 0.04:
                op["op"] = r.choice(["muwave", "tree"])
            elif k < 0.25:
                op["op"] = "save"
            elif k < 0.3:
                op["op"] = "edit"
            elif k < 0.35:
                op["op"] = "remove"
            elif k < 0.55:
                op["op"] = "read"
                op["via"] = r.choice(["read_data", "reader"])
            elif k < 0.68:
                op["op"] = "merge"
            elif k < 0.76:
                op["op"] = "tear"
                op["at"] = r.random()
            elif k < 0.82:
                op["op"] = "config"
                op["text"] = r.randrange(len(YAMLS))
                op["lexical"] = r.random() < 0.5
            elif k < 0.88:
                op["op"] = "cache"
                op["reread"] = r.random() < 0.3
            elif k < 0.94:
                op["op"] = "bad"
            else:
                op["op"] = "append"
            if r.random() < 0.3:
                op["fault"] = [r.random(), r.choice([5, 28, 13, 24])]
            ops.append(op)
        return dict(specs=specs, ops=ops, others=others)

    def shrink(self, sc):
        for i in range(len(sc["ops"])):
            if len(sc["ops"]) > 1:
                yield dict(sc, ops=sc["ops"][:i] + sc["ops"][i + 1:])
        for i, op in enumerate(sc["ops"]):
            if "fault" in op:
                yield dict(sc, ops=sc["ops"][:i] + [dict((k, v) for k, v in op.items() if k != "fault")] + sc["ops"][i + 1:])

    def datasets(self, sc, n):
        """The user's datasets before operation n."""
        dbs = [gen.build(s) for f, s in sc["specs"]]
        for op in sc["ops"][:n]:
            if op["op"] == "edit":
                self.edit(dbs[op["i"]])
        return dbs

    def edit(self, db):
        for v in db.vardata.values():
            a = np.asarray(v)
            if a.dtype.kind in "fc" and a.size:
                a[...] = a.ravel()[::-1].reshape(a.shape) * 0.5
        if db.comments is not None and db.comments.fullcomments:
            db.comments.fullcomments.append(u"edited")

    def operation(self, run, sc, op, dbs):
        """A function that does it and returns what is seen of it."""
        import hftools.file_formats as ff
        from hftools.file_formats.config import Config, LexicalConfig
        fmt, spec = sc["specs"][op["i"]]
        F = FORMATS[fmt]
        fname = run.path("%s_%s" % (op["name"], F.fname(spec)))
        rd = {"touchstone": ff.read_touchstone, "citi": ff.read_citi, "spdata": ff.read_spdata, "mdif": ff.read_mdif}.get(fmt, ff.read_hdf5)
        kw = {} if fmt.startswith("hdf5") else dict(verbose=False)
        kind = op["op"]
        self.kept = []

        def keep(x):
            self.kept.append(x)
            return x
        if kind == "edit":
            return lambda: self.edit(dbs[op["i"]])
        if kind == "save":
            return lambda: (F.save(dbs[op["i"]], fname, spec), file_value(fmt, fname))[1]
        if kind == "bad":
            db = gen.build(spec)
            db.blockname = BadName()
            for v in db.vardata.values():
                v.outputformat = "%q"
            return lambda: (F.save(db, fname, spec), file_value(fmt, fname))[1]
        if kind == "read":
            if op["via"] == "read_data":
                return lambda: repr(gen.dump(keep(ff.read_data(fname, verbose=False))))
            return lambda: repr(gen.dump(keep(rd(fname, **kw))))
        if kind == "merge":
            pat = run.path("*_" + F.fname(spec))
            return lambda: repr(gen.dump(keep(ff.read_data(pat, verbose=False))))
        if kind == "remove":
            return lambda: os.path.exists(fname) and os.unlink(fname)
        if kind == "tear":
            def tear():
                if os.path.exists(fname) and not fmt.startswith("hdf5"):
                    n = os.path.getsize(fname)
                    with open(fname, "r+b") as f:
                        f.truncate(int(n * op["at"]))
            return tear
        if kind == "foreign":
            f, s = sc["others"][op["i"]]
            other = run.path("inst_" + FOREIGN[f].fname(s))
            with open(other, "wb") as fil:
                fil.write(FOREIGN[f].text(s)[0].encode("cp1252"))
            g = ff.read_data if op["via"] == "read_data" else getattr(ff, FOREIGN[f].reader)
            return lambda: repr(gen.dump(keep(g(other, verbose=False))))
        if kind == "muwave":
            s = dict(seed="m%d" % op["i"], n=2, freq=[1e9, 2e9], points=1 + op["i"], files=1, states=["V1", "I2_SET"], texts=["Info"], date=True, cov=False, z0=50.0, compressed=False)
            other = run.path("m.mat")
            with open(other, "wb") as fil:
                fil.write(mat_bytes(s, [Point(s, j) for j in range(s["points"])]))
            return lambda: repr(gen.dump(keep(ff.read_data(other, verbose=False))))
        if kind == "tree":
            from hftools import path
            from hftools.utils import make_dirs

            def tree():
                make_dirs(run.path("deep", op["name"], "x%d" % op["i"]))
                with open(run.path("deep", op["name"], "x%d" % op["i"], "here"), "w"):
                    pass
                return sorted(path(run.path("deep")).walk(errors="ignore")), sorted(path(run.root).files("*"))
            return tree
        if kind == "config":
            cname = run.path("c.yaml")
            with io.open(cname, "w") as f:
                f.write(YAMLS[op["text"]])

            def config():
                c = (LexicalConfig if op["lexical"] else Config)(cname)
                c.write(run.path("d.yaml"))
                with open(run.path("d.yaml")) as f:
                    seen = yaml_value(c), f.read()
                for k in list(c):
                    if isinstance(c[k], list):
                        c[k][:] = [77]
                    elif isinstance(c[k], dict):
                        c[k].clear()
                    c[k] = 77
                return seen
            return config
        if kind == "cache":
            def cache():
                with ff.read_to_cache(fname, cachedir=run.path("cache"), reread=op["reread"], verbose=False) as (x, fresh):
                    seen = repr(gen.dump(x)), fresh
                keep(x)
                return seen
            return cache
        if kind == "append":
            h5 = run.path("log.hdf5")

            def append():
                h = ff.save_hdf5(dbs[op["i"]], h5, expandable=True)
                try:
                    ff.append_hdf5(dbs[op["i"]], h)
                finally:
                    h.close()
                return repr(gen.dump(keep(ff.read_hdf5(h5))))
            return append
        raise AssertionError(kind)

    def disk(self, run):
        """The files, as far as they must be equal."""
        out = {}
        for rel, data in run.snapshot().items():
            if data[:4] == b"\x89HDF":
                out[rel] = "hdf5"
                continue
            out[rel] = b"\n".join(x for x in data.split(b"\n") if not x.startswith(b"!Created"))
        return out

    def result(self, run, sc, op, dbs, plan):
        out = run.execute(self.operation(run, sc, op, dbs), plan)
        if out.exc is not None:
            out.value = ("raised", simenv.exc_name(out.exc))
        else:
            out.value = ("value", out.value)
        return out

    def run(self, run, sc):
        warnings.simplefilter("ignore")
        run.clean()
        dbs = [gen.build(s) for f, s in sc["specs"]]
        saved = {}
        used = set()
        for n, op in enumerate(sc["ops"]):
            fmt = sc["specs"][op["i"]][0]
            before = run.snapshot()
            run.restore(before)     # empty directories go now, not between the two that are compared
            plan = None

            # in a process that did nothing before (a copy of this one would inherit its past)
            def fresh(plan):
                return self.fresh.call("remote_op", run.root, run.seed, sc, n, plan.to_json() if plan else None)

            val, log, tree, st = fresh(None)
            run.merge_tuple(st)
            if op.get("fault") and not fmt.startswith("hdf5") and op["op"] not in ("append", "tear", "remove", "cache", "edit"):
                cand = [r for r in log if r[1] in (simenv.OPEN, simenv.READ, simenv.WRITE) and not r[5]]
                if cand:
                    r = cand[int(op["fault"][0] * len(cand))]
                    plan = Plan([[r[0], simenv.A_ERRNO, op["fault"][1]]])
                    run.restore(before)
                    val, log, tree, st = fresh(plan)
                    run.merge_tuple(st)
            run.restore(before)
            s0 = settings()
            out = self.result(run, sc, op, dbs, plan)
            s1 = settings()
            for x in self.kept:
                gen.scribble(x)
                run.stats.probe("result_overwritten")
            for k in s0:
                if s0[k] != s1[k]:
                    raise Violation("settings-changed", "%s (%s) changed the process-wide setting %s from %.150r to %.150r" % (op["op"], fmt, k, s0[k], s1[k]))
            run.stats.note(n, op["op"], out.value[0], out.value[1] if out.value[0] == "raised" else None)
            if out.value != val:
                raise Violation("depends-on-history", "operation %d (%s, %s) %s after what was done before, but %s in a fresh process" % (
                    n, op["op"], fmt, self.say(out.value), self.say(val)))
            mine = self.disk(run)
            if mine != tree:
                bad = sorted(k for k in set(mine) | set(tree) if mine.get(k) != tree.get(k))
                raise Violation("depends-on-history", "operation %d (%s, %s) leaves other files than in a fresh process: %s" % (n, op["op"], fmt, bad[:4]))
            run.stats.probe("ops")
            run.stats.probe("compared_with_fresh_process")
            if out.value[0] == "raised":
                run.stats.probe("failed_op")
            if plan is not None and n < len(sc["ops"]) - 1:
                run.stats.probe("fault_then_more")
            if op["op"] in ("config", "cache", "merge", "append", "foreign", "muwave", "tree"):
                run.stats.probe(op["op"])
            if op["op"] == "tear":
                run.stats.probe("torn_file")
            if op["op"] == "save" and any(o["op"] == "edit" and o["i"] == op["i"] for o in sc["ops"][:n]):
                run.stats.probe("edited_and_saved_again")
            if op["op"] == "save":
                key = (op["name"], fmt)
                if key in saved and saved[key] != op["i"]:
                    run.stats.probe("same_name_other_content")
                saved[key] = op["i"]
                if op["i"] in used:
                    run.stats.probe("same_object_again")
                used.add(op["i"])
        run.stats.traces.add("history-%s" % simenv.hash_int([(o["op"], o["i"], o["name"]) for o in sc["ops"]]))
        if not run.stats.samples:
            run.stats.samples.append({"operations": [(o["op"], sc["specs"][o["i"]][0], o["name"], o.get("fault")) for o in sc["ops"]]})

    def say(self, v):
        if v[0] == "raised":
            return "raises " + v[1]
        return "gives %s..." % hashlib.sha256(repr(v[1]).encode("utf-8", "replace")).hexdigest()[:8]
