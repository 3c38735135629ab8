"""Measurement files of the muwave toolbox (MATLAB) read as what they hold, or not at all."""
import datetime
import errno
import hashlib
import io
import random

import numpy as np

import gen
import simenv
from base import BaseCheck
from savecheck import exc_text, sample
from simenv import Plan, Violation, benign_plan, hard_faults

HEADER = b"MATLAB 5.0 MAT-file, Platform: simulated"
UNITS = {"V1": "V", "V2": "V", "V1_SET": "V", "V2_SET": "V", "I1": "A", "I2": "A", "I1_SET": "A", "I2_SET": "A"}
STATES = ["V1", "V2", "V1_SET", "V2_SET", "I1", "I2_SET", "Temp", "Pin"]
TEXTS = ["Operator", "Instrument", "Comment", "Info"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def cell(xs):
    a = np.empty((1, len(xs)), object)
    for i, x in enumerate(xs):
        a[0, i] = x
    return a


def numbers(seed, n):
    r = random.Random(seed)
    odd = [float("nan"), float("inf"), 1e300, 5e-324] if r.random() < 0.2 else []
    return [r.choice([r.uniform(-1, 1), r.uniform(-1, 1) * 10 ** r.randint(-9, 9), float(r.randint(-3, 3))] + odd) for _ in range(n)]


def same(a, b):
    return a.shape == b.shape and a.dtype.kind == b.dtype.kind and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


class Point(object):
    """One measurement: what it holds, and the structure MATLAB keeps it in."""

    def __init__(self, sp, k):
        n, nf = sp["n"], len(sp["freq"])
        v = numbers("%s-%d" % (sp["seed"], k), 4 * n * n * nf)
        c = np.array(v, float).view(complex)
        self.S = c[:n * n * nf].reshape(nf, n, n)
        self.cov = c[n * n * nf:].reshape(nf, n, n)
        if sp.get("real"):
            self.S = self.S.real.copy()
        self.states = dict((s, x) for s, x in zip(sp["states"], numbers("s%s-%d" % (sp["seed"], k), len(sp["states"]))))
        r = random.Random("t%s-%d" % (sp["seed"], k))
        self.texts = dict((t, r.choice([0.0, 1.5, -2e9])) for t in sp.get("numbers", []))
        self.texts.update((t, "" if t == sp.get("empty") or (t == sp.get("some") and r.random() < 0.5) else "".join(r.choice(u"abcXYZ _-\xe5\xb5") for _ in range(r.randint(1, 12))).strip() or "x") for t in sp["texts"])
        self.index = k + 1 if not sp.get("indices") else r.choice(sp["indices"])
        self.date = datetime.datetime(r.randint(1995, 2030), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))

    def matlab(self, sp):
        texts = dict(self.texts)
        names = list(sp["texts"]) + list(sp.get("numbers", []))
        if sp["date"]:
            d = self.date
            names.append("Date")
            texts["Date"] = "%02d-%s-%04d %02d:%02d:%02d" % (d.day, MONTHS[d.month - 1], d.year, d.hour, d.minute, d.second)
        f = np.array(sp["freq"], float).reshape(-1, 1)
        cov = dict(mtrx=self.cov.transpose(1, 2, 0)) if sp["cov"] else np.zeros((0, 0))
        return dict(measstate=dict(props=cell(["Index"] + list(sp["states"])), values=cell([float(self.index)] + [self.states[s] for s in sp["states"]])),
                    measmnt=dict(props=cell(names), values=cell([texts[t] for t in names])),
                    data=dict(type="S", reference=float(sp["z0"]), freq=f, data=dict(mtrx=self.S.transpose(1, 2, 0)), datacov=cov))


def mat_bytes(sp, points, swp="swp"):
    import scipy.io
    f = io.BytesIO()
    scipy.io.savemat(f, {swp: dict(data=cell([p.matlab(sp) for p in points]))}, do_compression=sp["compressed"])
    b = f.getvalue()
    return HEADER.ljust(116) + b[116:]        # without the time it was made


class Check(BaseCheck):
    id = "C22"
    level = "fault_enumeration"
    runs = {"quick": 1600, "thorough": 30000}
    k = {"quick": 5, "thorough": 30}
    probes = ("one_point", "several_points", "several_files", "covariance", "compressed", "via_read_data", "via_reader", "short_reads", "fault_raised",
              "torn_rejected", "not_muwave_rejected", "read_again", "empty_field_dropped", "no_match_raises")
    real = BaseCheck.real + ["scipy.io (MAT-file parser)"]

    def warm(self):
        import scipy.io  # noqa
        import scipy.io.matlab  # noqa

    def scenario(self, r, tier):
        files = r.choice([1, 1, 1, 2, 3, 11])
        n = r.choice([1, 2, 2, 3])
        nf = r.randint(2, 5)
        sp = dict(seed="%08x" % r.getrandbits(32), n=n, freq=sorted(set(float(r.choice([1e9, 1e6, 1.0]) * r.randint(1, 50)) for _ in range(nf))),
                  points=1 if files > 1 else r.choice([1, 2, 3, 7]), files=files, states=r.sample(STATES, r.randint(0, 4)), texts=r.sample(TEXTS, r.randint(0, 3)),
                  date=r.random() < 0.5, cov=r.random() < 0.3, z0=r.choice([50.0, 75.0, 1.0, 49.75]), compressed=r.random() < 0.4, real=r.random() < 0.1)
        if len(sp["freq"]) < 2:
            sp["freq"].append(sp["freq"][-1] * 2)
        if sp["texts"] and r.random() < 0.5:
            sp["empty"] = sp["texts"][0]
        if len(sp["texts"]) > 1 and r.random() < 0.5:
            sp["some"] = sp["texts"][1]
        sp["numbers"] = r.choice([[], [], ["Averages"], ["Averages", "IFBW"]])
        sp["indices"] = r.choice([None, None, [1, 2], [5, 3, 100, 7]])
        sp["ext"] = r.choice([".mat", ".mat", ".mat", "", ".MAT", ".dat", ".mat.bak", ".txt"])
        return dict(spec=sp, via=r.choice(["read_data", "reader"]), drop=r.random() < 0.8, k=self.k[tier])

    def shrink(self, sc):
        sp = sc["spec"]
        if sp.get("some"):
            yield dict(sc, spec=dict(sp, some=None))
        if sp.get("numbers"):
            yield dict(sc, spec=dict(sp, numbers=[]))
        for key in ("states", "texts", "freq"):
            for i in range(len(sp[key])):
                if key != "freq" or len(sp[key]) > 2:
                    yield dict(sc, spec=dict(sp, **{key: sp[key][:i] + sp[key][i + 1:]}))
        for key, val in (("files", 1), ("points", 1), ("n", 1), ("date", False), ("cov", False), ("compressed", False), ("real", False)):
            if sp[key] != val:
                yield dict(sc, spec=dict(sp, **{key: val}))

    def wanted(self, sp, points, drop):
        """name -> (dims, values, unit)"""
        n = len(points)
        w = {}
        many = n > 1

        def scalar(name, vals, unit=None):
            w[name] = (("INDEX1",) if many else (), vals if many else vals[0], unit)
        scalar("Index", [float(p.index) for p in points])
        for s in sp["states"]:
            scalar(s, [p.states[s] for p in points], UNITS.get(s))
        for t in list(sp["texts"]) + list(sp.get("numbers", [])):
            if not (drop and all(p.texts[t] == "" for p in points)):
                scalar(t, [p.texts[t] for p in points])
        if sp["date"]:
            scalar("Date", [p.date for p in points])
        scalar("Z0", [sp["z0"]] * n, "Ohm")
        if sp["files"] > 1:
            scalar("Index2", [float(i) for i in range(n)])

        def matrix(name, arrays):
            a = np.array(arrays)                    # point, freq, i, j
            dims = ["freq"] + (["INDEX1"] if many else [])
            a = a.transpose(1, 0, 2, 3) if many else a[0]
            if sp["n"] == 1:
                a = a[..., 0, 0]                    # merging drops dimensions of length one
            else:
                dims += ["i", "j"]
            w[name] = (tuple(dims), a.tolist(), None)
        matrix("S", [p.S for p in points])
        if sp["cov"]:
            matrix("Scov", [p.cov for p in points])
        return w

    def differs(self, db, w, sp, npoints):
        if sorted(db.vardata.keys()) != sorted(w):
            return "variables %s instead of %s" % (sorted(db.vardata.keys()), sorted(w))
        for name, (dims, vals, unit) in w.items():
            v = db.vardata[name]
            a = np.array(v)
            got = tuple(d.name for d in v.dims)
            if sorted(got) != sorted(dims) or name == "S" and sp["n"] > 1 and got[0] != "freq":
                return "%s lies over %s instead of %s" % (name, got, dims)
            a = a.transpose([got.index(d) for d in dims])
            if a.dtype.kind == "M":
                a = a.astype("M8[s]").astype(object)
            if a.tolist() != vals and not (a.dtype.kind in "fc" and same(a, np.array(vals))):
                return "%s is %.120r instead of %.120r" % (name, a.tolist(), vals)
            if unit is not None and v.unit != unit:
                return "%s has unit %r instead of %r" % (name, v.unit, unit)
        f = db.ivardata["freq"]
        if f.data.tolist() != sp["freq"] or f.unit != "Hz":
            return "frequencies %.100r [%s] instead of %.100r [Hz]" % (f.data.tolist(), f.unit, sp["freq"])
        return ""

    def run(self, run, sc):
        import warnings
        warnings.simplefilter("ignore")
        import hftools.file_formats as ff
        from hftools.file_formats.muwave_mat import read_muwave_matlabdata
        sp = sc["spec"]
        rng = run.derived("c22")
        run.clean()
        points = [Point(sp, k) for k in range(sp["points"] * sp["files"])]
        names = []
        for i in range(sp["files"]):
            ps = points[i * sp["points"]:(i + 1) * sp["points"]]
            names.append(run.path("meas_%d%s" % (i + 1, sp.get("ext", ".mat"))))      # ten comes after nine
            with open(names[-1], "wb") as f:
                f.write(mat_bytes(sp, ps))
        arg = names[0] if sp["files"] == 1 else run.path("meas_*" + sp.get("ext", ".mat"))
        reader = (lambda a: ff.read_data(a, verbose=False, **({} if sc["drop"] else {"drop_empty": False}))) if sc["via"] == "read_data" else \
            (lambda a: read_muwave_matlabdata(a, drop_empty=sc["drop"]))
        run.stats.probe("via_" + sc["via"])
        want = self.wanted(sp, points, sc["drop"])

        def check(out, plan, what):
            bad = self.differs(out.value, want, sp, len(points))
            if bad:
                raise Violation("misread", "%s: %s" % (what, bad), plan)

        def settle(out, plan):
            if out.leaked:
                raise Violation("handle-left-open", "%s: reading left %s open" % (plan.describe() if plan else "no fault", out.leaked_paths), plan)
            if out.hung:
                raise Violation("hang", "reading does not end", plan)
        before = run.snapshot()
        out = run.execute(lambda: reader(arg))
        if out.exc is not None:
            raise Violation("read-raises", "valid files do not read: %s" % exc_text(out.exc))
        settle(out, None)
        check(out, None, "no fault")
        run.stats.note(hashlib.sha256(repr(gen.without_paths(gen.dump(out.value))).encode("utf-8", "replace")).hexdigest())
        p = run.stats.probe
        p("several_files" if sp["files"] > 1 else "several_points" if sp["points"] > 1 else "one_point")
        p("covariance", 1 if sp["cov"] else 0)
        p("compressed", 1 if sp["compressed"] else 0)
        p("empty_field_dropped", 1 if sc["drop"] and sp.get("empty") in sp["texts"] else 0)
        log = out.log
        if not run.stats.samples:
            run.stats.samples.append({"spec": dict((k, sp[k]) for k in ("n", "points", "files", "states", "texts", "compressed")), "operations": simenv.fmt_log(log)[:6]})
        for plan in run.plans("short", [benign_plan(log, rng) for _ in range(2)]):
            o = run.execute(lambda: reader(arg), plan)
            if o.exc is not None:
                raise Violation("short-read-raises", "%s: %s" % (plan.describe(), exc_text(o.exc)), plan)
            settle(o, plan)
            check(o, plan, plan.describe())
            p("short_reads", 1 if o.fired else 0)
        cand = sample(rng, hard_faults(log, rng, only_write=False), sc["k"])
        ops = [x[0] for x in log]
        if ops:
            cand.append(Plan(dead=[rng.choice(ops), errno.EIO]))
        for plan in run.plans("fault", cand):
            o = run.execute(lambda: reader(arg), plan)
            settle(o, plan)
            if o.exc is None:
                check(o, plan, "%s, and the read returns" % plan.describe())
            else:
                p("fault_raised")
        # one of the files was cut short, or holds something else
        victim = rng.randrange(len(names))
        with open(names[victim], "rb") as f:
            whole = f.read()
        cuts = sorted(set([rng.randrange(len(whole)) for _ in range(3)] + [128, len(whole) - rng.randint(1, 9), len(whole) - rng.randint(1, 60)]))
        for cut in cuts:
            with open(names[victim], "wb") as f:
                f.write(whole[:cut])
            o = run.execute(lambda: reader(arg))
            settle(o, None)
            if o.exc is None:
                bad = self.differs(o.value, want, sp, len(points)) if hasattr(o.value, "vardata") else "no dataset"
                if bad:
                    raise Violation("torn-file", "a file cut at byte %d of %d reads, with other data: %s" % (cut, len(whole), bad))
            else:
                p("torn_rejected")
        with open(names[victim], "wb") as f:
            f.write(mat_bytes(sp, points[:1], swp="other"))
        o = run.execute(lambda: reader(arg))
        settle(o, None)
        if o.exc is None:
            raise Violation("not-muwave", "a MAT-file without a sweep is read as a measurement")
        if not isinstance(o.exc, ff.HFToolsIOError):
            raise Violation("not-muwave", "a MAT-file without a sweep gives %s instead of an HFToolsIOError" % exc_text(o.exc))
        p("not_muwave_rejected")
        with open(names[victim], "wb") as f:
            f.write(whole)
        o = run.execute(lambda: reader(arg))
        if o.exc is not None:
            raise Violation("read-again", "the same files do not read any more: %s" % exc_text(o.exc))
        check(o, None, "read again after failures")
        p("read_again")
        if run.snapshot() != before:
            raise Violation("file-changed", "reading changed files")
        o = run.execute(lambda: reader(run.path("nothing_*.mat")))
        if o.exc is None:
            raise Violation("no-match", "a pattern that matches nothing reads as %.100r" % o.value)
        p("no_match_raises")
