"""Histories of appends to an expandable HDF5 file against a stacking model."""
import os
import random
import warnings

import numpy as np

import gen
from gen import same
from base import BaseCheck
from formats import FORMATS, UNITS, NAMES, Mismatch, check_dim, check_var, check_names, need, freq_vals, sweep_vals
from savecheck import exc_text
from simenv import Plan, Violation, hard_faults, benign_plan, CRASH_STATUS


ALT = 10 ** 6
COLS = {"int": ["i8", "i4", "u8", "i2"], "real": ["f8", "f4"], "cplx": ["c16", "c8"], "dt": ["M8[s]", "M8[ms]", "M8[D]"]}
NEAR = dict(COLS, real=["f8", "f4", "i4", "i8"], cplx=["c16", "c8", "f8", "i4"])
TYPES = ["?", "i1", "i2", "i4", "i8", "u2", "u8", "f4", "f8", "c8", "c16", "M8[D]", "M8[s]", "M8[ms]", "M8[us]", "U"]


def record(spec, k):
    """The k-th record: same names, dimensions and types, other values.
    From ALT on some variables have other types."""
    vs = [dict(v, seed="%s-%d" % (v["seed"], k)) for v in spec["vars"]]
    if k >= ALT:
        r = random.Random("alt-%d-%s" % (k, spec["vars"][0]["seed"]))
        chosen = r.sample(vs, r.choice([1, 1, len(vs)]))
        for v in chosen:
            near = NEAR.get(v["kind"])
            v["ct"] = r.choice(near + ["?", "M8[us]"] if near and r.random() < 0.7 else TYPES)
    return dict(spec, vars=vs)


def as_column(nm, part, col):
    """What a column of type col holds after taking the values of part."""
    bad = "variable %r: values of type %s were accepted into a column of type %s"
    ck, pk = col.kind, part.dtype.kind
    if (ck in "MU" or pk in "MU") and ck != pk:
        raise Mismatch(bad % (nm, part.dtype, col))
    if ck == "U":
        return part
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        new = part.astype(col)
    if ck in "fc":
        need(ck == "c" or pk != "c", bad, nm, part.dtype, col)
        return new
    if ck == "M":
        ok = same(new.astype("M8[us]"), part.astype("M8[us]"))
    else:
        ok = pk != "c" and [int(x) for x in new.ravel()] == [x if x != x or abs(x) == np.inf else (int(x) if x == int(x) else x)
                                                             for x in part.ravel().tolist()]
    need(ok, bad + " which can not hold them", nm, part.dtype, col)
    return new


class Check(BaseCheck):
    id = "C06"
    level = "fault_enumeration"
    runs = {"quick": 400, "thorough": 15000}
    probes = ("append", "reject_missing", "reject_shape", "reject_type", "reject_version", "crash_after_ack", "fault_append",
              "fault_raised", "reopen", "custom_index", "append_other_type", "reject_alt")

    def scenario(self, r, tier):
        nd = r.choice([1, 1, 2])
        names = r.sample(["freq", "time", "Pin", "Vgs"], nd)
        dims = []
        for k, nm in enumerate(names):
            v = sweep_vals(r, r.choice([1, 2, 3, 4])) if k else freq_vals(r, r.randint(1, 20))
            dims.append(dict(name=nm, vals=v, cls=r.choice(["DimSweep", "DimRep"]), unit=r.choice([None] + UNITS)))
        spec = dict(dims=dims, vars=[], comments=None)
        for nm in r.sample(NAMES + [u"a/b"], r.choice([1, 2, 3, 4])):
            dd = list(names) if r.random() < 0.7 else ([names[0]] if r.random() < 0.5 else [])
            kind = r.choice(["real", "real", "cplx", "int", "str", "dt", "bool"])
            spec["vars"].append(dict(name=nm, dims=dd, kind=kind, seed=r.randrange(10 ** 9), unit=r.choice([None, None] + UNITS), fmt=None))
            if kind in COLS and r.random() < 0.4:
                spec["vars"][-1]["ct"] = r.choice(COLS[kind])
        if r.random() < 0.3:
            spec["vars"].append(dict(name="S", dims=[names[0]], kind="cplx", matrix=[2, 2], seed=r.randrange(10 ** 9), unit=None, fmt=None))
        used = set(n for v in spec["vars"] for n in v["dims"])
        spec["dims"] = [d for d in dims if d["name"] in used]
        stages = []
        for _ in range(r.randint(1, 4)):
            ops = []
            for _ in range(r.randint(1, 4)):
                x = r.random()
                if x < 0.6:
                    ops.append("append")
                elif x < 0.8:
                    ops.append("alt")
                else:
                    ops.append(r.choice(["missing", "shape", "type"]))
            stages.append(dict(ops=ops, end=r.choice(["close", "close", "crash"]), fault=r.random() < 0.25, fo=r.randrange(10 ** 6)))
        return dict(spec=spec, stages=stages, index=r.choice([None, None, ["RUN", 1], ["INDEX", 1], ["sample", 5]]))

    def shrink(self, sc):
        st = sc["stages"]
        for i in range(len(st)):
            if len(st) > 1:
                yield dict(sc, stages=st[:i] + st[i + 1:])
            for j in range(len(st[i]["ops"])):
                if len(st[i]["ops"]) > 1:
                    o = st[i]["ops"]
                    yield dict(sc, stages=st[:i] + [dict(st[i], ops=o[:j] + o[j + 1:])] + st[i + 1:])
            if st[i]["end"] == "crash":
                yield dict(sc, stages=st[:i] + [dict(st[i], end="close")] + st[i + 1:])
            if st[i]["fault"]:
                yield dict(sc, stages=st[:i] + [dict(st[i], fault=False)] + st[i + 1:])
        if sc["index"]:
            yield dict(sc, index=None)
        for s in gen.shrink_spec(sc["spec"]):
            yield dict(sc, spec=s)

    def expanddim(self, sc):
        from hftools.dataset import DimRep
        if sc["index"] is None:
            return None
        return DimRep(sc["index"][0], [sc["index"][1]])

    def verify(self, sc, fname, recs):
        from hftools.file_formats import read_hdf5
        db = read_hdf5(fname)
        iname = "INDEX" if sc["index"] is None else sc["index"][0]
        first = 0 if sc["index"] is None else sc["index"][1]
        check_dim(db, iname, np.arange(first, first + len(recs)))
        models = [gen.model(record(sc["spec"], k)) for k in recs]
        for d in sc["spec"]["dims"]:
            check_dim(db, d["name"], models[0][0][d["name"]]["data"], d.get("unit"))
        for i, (nm, v) in enumerate(models[0][1]):
            parts = [m[1][i][1]["data"] for m in models]
            parts = [as_column(nm, p, parts[0].dtype) for p in parts]
            dd = tuple(v["dims"]) + (("i", "j") if v["matrix"] else ())
            if dd:
                want = np.stack(parts, axis=1)
                dd = dd[:1] + (iname,) + dd[1:]
            else:
                want = np.array(parts)
                dd = (iname,)
            check_var(db, nm, want, dd, v["unit"], kinds=want.dtype.kind)
        check_names(db, [nm for nm, _ in models[0][1]])

    def run(self, run, sc):
        import h5py
        from hftools.file_formats import append_hdf5, save_hdf5
        from hftools.dataset import hfarray
        spec = sc["spec"]
        fname = run.path("log.hdf5")
        rng = run.derived("append")
        run.clean()
        out = run.execute(lambda: save_hdf5(gen.build(record(spec, 0)), fname, expandable=True, expanddim=self.expanddim(sc)))
        if out.exc is not None:
            raise Violation("save-raises", exc_text(out.exc))
        if sc["index"]:
            run.stats.probe("custom_index")
        recs = [0]
        self.look(run, sc, fname, recs, None, "after creating the file")
        for n, st in enumerate(sc["stages"]):
            base = list(recs)
            nxt = 1000 * (n + 1)

            # which records are refused under a fault can not be told from the disk failing
            def fn(ops=["append" if op == "alt" and st["fault"] else op for op in st["ops"]], crash=st["end"] == "crash"):
                """One process: opens the file, works, closes or dies."""
                ack = []
                bad = []
                k = nxt
                fil = h5py.File(fname, "r+")
                try:
                    for op in ops:
                        k += 1
                        db = gen.build(record(spec, k))
                        if op == "append":
                            append_hdf5(db, fil, expanddim=self.expanddim(sc))
                            ack.append(k)
                            continue
                        if op == "alt":
                            try:
                                append_hdf5(gen.build(record(spec, ALT + k)), fil, expanddim=self.expanddim(sc))
                                ack.append(ALT + k)
                            except EnvironmentError:
                                raise
                            except Exception:
                                ack.append("!" + op)
                            continue
                        if not self.spoil(db, op, spec):
                            continue
                        try:
                            append_hdf5(db, fil, expanddim=self.expanddim(sc))
                            bad.append("a record with %s was accepted" % op)
                        except EnvironmentError:
                            raise
                        except Exception:
                            ack.append("!" + op)
                except Exception:
                    try:
                        fil.close()
                    except Exception:
                        pass
                    raise
                if not crash:
                    fil.close()
                    return ack, bad
                # the process dies without closing: tell the simulator what was acknowledged
                with open(ackname, "w") as f:
                    f.write(repr((ack, bad)))
                os._exit(CRASH_STATUS)
            ackname = run.root + ".ack"
            if st["fault"]:
                snap = run.snapshot()
                probe = run.forked(lambda: fn(crash=False))
                if probe.exc is not None:
                    raise Violation("append-raises", "%s: %s" % (st["ops"], exc_text(probe.exc)))
                run.restore(snap)
                frng = run.derived("fault%d" % st["fo"])
                only = run.only_plan
                if only is not None and only.note == "stage%d" % n:
                    plan = only
                else:
                    cand = hard_faults(probe.log, frng) or [Plan()]
                    plan = frng.choice(cand + [benign_plan(probe.log, frng)])
                    plan.note = "stage%d" % n
                out = run.forked(lambda: fn(crash=False), plan)
                run.stats.probe("fault_append")
                if out.hung:
                    raise Violation("hang", "append does not end", plan)
                if out.exc is None and not out.crashed:
                    # acknowledged in spite of the fault: the data has to be there
                    self.take(run, out.value, recs, plan)
                    self.look(run, sc, fname, recs, plan, "appends acknowledged although the disk failed (%s)" % plan.describe())
                    continue
                run.stats.probe("fault_raised")
                if self.benign(plan):
                    raise Violation("short-write", "append failed under %s: %s" % (plan.describe(), exc_text(out.exc)), plan)
                run.restore(snap)     # what a failed append leaves behind is not promised
                recs = base
                continue
            if os.path.exists(ackname):
                os.unlink(ackname)
            out = run.forked(fn)
            if out.crashed and st["end"] == "crash" and os.path.exists(ackname):
                with open(ackname) as f:
                    val = eval(f.read())
                os.unlink(ackname)
                run.stats.probe("crash_after_ack")
            elif out.exc is not None or out.crashed or out.hung:
                raise Violation("append-raises", "%s: %s" % (st["ops"], exc_text(out.exc)))
            else:
                val = out.value
                run.stats.probe("reopen")
            self.take(run, val, recs, None)
            self.look(run, sc, fname, recs, None, "after %s, ended by %s" % (st["ops"], st["end"]))
        # appending to a file of the old layout is refused and leaves it alone
        if sc["spec"]["vars"][0]["kind"] in ("real", "cplx", "int") and rng.random() < 0.2:
            old = run.path("old.hdf5")
            s1 = dict(spec, vars=[v for v in spec["vars"] if v["kind"] in ("real", "cplx", "int") and "/" not in v["name"]])
            if s1["vars"] and all(v["dims"] for v in s1["vars"]):
                save_hdf5(gen.build(s1), old, version="0.1")
                with open(old, "rb") as f:
                    raw = f.read()

                def refuse():
                    with h5py.File(old, "r+") as fil:
                        append_hdf5(gen.build(s1), fil)
                out = run.forked(refuse)
                if out.exc is None:
                    raise Violation("accepted", "append to a version 0.1 file was accepted")
                from hftools.file_formats import read_hdf5
                if gen.dump(read_hdf5(old)) != self.dump_raw(run, raw):
                    raise Violation("changed", "a refused append changed the version 0.1 file")
                run.stats.probe("reject_version")
        if not run.stats.samples:
            run.stats.samples.append({"spec": spec, "stages": sc["stages"], "records_in_file": len(recs)})

    def dump_raw(self, run, raw):
        from hftools.file_formats import read_hdf5
        p = run.path("copy.hdf5")
        with open(p, "wb") as f:
            f.write(raw)
        d = gen.dump(read_hdf5(p))
        os.unlink(p)
        return d

    def benign(self, plan):
        import errno
        return plan.budget is None and not plan.dead and all(f[1] == 2 or f[2] == errno.EINTR for f in plan.faults)

    def take(self, run, val, recs, plan):
        ack, bad = val
        if bad:
            raise Violation("accepted", bad[0], plan)
        for a in ack:
            if isinstance(a, str):
                run.stats.probe("reject_" + a[1:])
            else:
                recs.append(a)
                run.stats.probe("append_other_type" if a >= ALT else "append")

    def look(self, run, sc, fname, recs, plan, when):
        out = run.execute(lambda: self.verify(sc, fname, recs))
        if out.exc is not None:
            raise Violation("history", "%s (%d records): %s" % (when, len(recs), exc_text(out.exc)), plan)

    def spoil(self, db, op, spec):
        """Make db unfit for appending; False if that is impossible here."""
        from hftools.dataset import hfarray, DimSweep
        v = spec["vars"][-1]
        nm = v["name"]
        if op == "missing":
            del db[nm]
            return True
        if op == "shape":
            if not v["dims"] or v.get("matrix"):
                return False
            old = db[nm]
            n = old.shape[0] + 2
            a = np.zeros((n,) + old.shape[1:], dtype=np.array(old).dtype)
            del db[nm]
            dd = (DimSweep("other", np.arange(n)),) + tuple(old.dims[1:])
            db[nm] = hfarray(a, dims=dd)
            return True
        if op == "type":
            if v["kind"] not in ("real", "int", "bool", "dt") or v.get("matrix"):
                return False
            old = db[nm]
            a = np.zeros(old.shape, dtype=complex)
            del db[nm]
            db[nm] = hfarray(a, dims=old.dims)
            return True
