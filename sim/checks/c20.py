"""Files of instruments and other programs read as what they say."""
import errno
import hashlib

import numpy as np

import gen
import simenv
from base import BaseCheck
from foreign import FOREIGN, as_date
from savecheck import exc_text, sample
from simenv import Plan, Violation, hard_faults, benign_plan

OWN = ("FILENAME", "FILEINDEX")


def close(a, b):
    """Equal but for the rounding of a unit prefix or a polar form."""
    if a == b or a != a and b != b:
        return True
    return abs(a - b) <= 1e-12 * abs(b)


def compare(db, w):
    """"" or what differs between what was read and what the file says."""
    if isinstance(db, dict) and not hasattr(db, "vardata"):
        if list(db) != [w.blockname]:
            return "blocks %r instead of %r" % (sorted(db), w.blockname)
        db = db[w.blockname]
    elif w.blockname is not None and db.blockname != w.blockname:
        return "block name %r instead of %r" % (db.blockname, w.blockname)
    dims = dict((n, (v, u)) for n, v, u in w.dims)
    for n, (v, u) in dims.items():
        if n not in db.ivardata:
            return "dimension %s is missing" % n
        d = db.ivardata[n]
        if len(d.data) != len(v) or not all(close(a, b) for a, b in zip(d.data.tolist(), v)):
            return "dimension %s is %.80r instead of %.80r" % (n, d.data.tolist(), v)
        if u is not None and d.unit != u:
            return "dimension %s has unit %r instead of %r" % (n, d.unit, u)
    for n, v in w.only_dims.items():
        if n not in db.ivardata or np.array(db.ivardata[n].data).tolist() != v:
            return "%s is %.80r instead of %.80r" % (n, np.array(db.ivardata[n].data).tolist() if n in db.ivardata else None, v)
    for n, x in w.vars.items():
        if x is None:
            continue
        names, shape, flat, unit = x
        if n not in db.vardata:
            return "variable %s is missing" % n
        v = db.vardata[n]
        a = np.array(v)
        if tuple(d.name for d in v.dims) != tuple(names) or a.shape != tuple(shape):
            return "variable %s is over %s %s instead of %s %s" % (n, tuple(d.name for d in v.dims), a.shape, names, shape)
        for d in v.dims:
            if d.name in dims and not (len(d.data) == len(dims[d.name][0]) and all(close(p, q) for p, q in zip(d.data.tolist(), dims[d.name][0]))):
                return "variable %s lies at %s = %.80r instead of %.80r" % (n, d.name, d.data.tolist(), dims[d.name][0])
        got = a.ravel().tolist()
        for i, (p, q) in enumerate(zip(got, flat)):
            if isinstance(q, tuple):
                if a.dtype.kind != "M" or a.ravel().astype("M8[s]").tolist()[i] != as_date(q):
                    return "%s is %r instead of %s" % (n, a.ravel().astype(str).tolist()[i], as_date(q))
            elif isinstance(q, str):
                if a.dtype.kind not in "US" or p != q:
                    return "%s[%d] is %r instead of %r" % (n, i, p, q)
            elif isinstance(q, complex):
                if a.dtype.kind != "c" or abs(p - q) > 1e-12 * abs(q):
                    return "%s[%d] is %r instead of %r" % (n, i, p, q)
            elif isinstance(q, int):
                if a.dtype.kind not in "iuf" or p != q:
                    return "%s[%d] is %r instead of %r" % (n, i, p, q)
            elif a.dtype.kind not in "iuf" or not close(p, q):
                return "%s[%d] is %r instead of %r" % (n, i, p, q)
        if unit is not None and v.unit != unit:
            return "%s has unit %r instead of %r" % (n, v.unit, unit)
    extra = [k for k in db.vardata if k not in w.vars and k not in OWN]
    if extra:
        return "variables %s are not in the file" % extra
    extra = [k for k in db.ivardata if k not in dims and k not in w.only_dims and k not in OWN + ("i", "j", "rep", "INDEX")]
    if extra:
        return "dimensions %s are not in the file" % extra
    com = [c.strip() for c in db.comments.fullcomments] if db.comments is not None else []
    if com != w.comments:
        return "comments %r instead of %r" % (com, w.comments)
    return ""


class Check(BaseCheck):
    id = "C20"
    level = "fault_enumeration"
    runs = {"quick": 8000, "thorough": 100000}
    k = {"quick": 3, "thorough": 12}
    probes = ("touchstone", "citi", "spdata", "mdif", "touchstone_ports_3_or_more", "touchstone_polar", "touchstone_noise", "citi_segments", "citi_several_dims",
              "spdata_complex", "spdata_repeated", "mdif_several_blocks", "short_reads", "fault_raised", "via_read_data", "comments")

    def scenario(self, r, tier):
        fmt = r.choice(["touchstone", "touchstone", "citi", "spdata", "spdata", "mdif"])
        return dict(fmt=fmt, spec=FOREIGN[fmt].gen(r), via=r.choice(["read_data", "reader"]), k=self.k[tier])

    def shrink(self, sc):
        sp = sc["spec"]
        if not sp.get("plain"):
            yield dict(sc, spec=dict(sp, plain=True))
        for key in ("comments", "cols", "data", "dims", "freq", "vars", "attribs", "noise"):
            v = sp.get(key)
            if isinstance(v, list):
                for i in range(len(v)):
                    if len(v) > 1 or key in ("comments", "vars", "attribs"):
                        yield dict(sc, spec=dict(sp, **{key: v[:i] + v[i + 1:]}))
        for key in ("n", "blocks", "split"):
            if sc["fmt"] != "touchstone" and sp.get(key, 1) > 1:
                yield dict(sc, spec=dict(sp, **{key: 1}))
        if sp.get("noise"):
            yield dict(sc, spec=dict(sp, noise=None))

    def run(self, run, sc):
        import hftools.file_formats as ff
        F = FOREIGN[sc["fmt"]]
        sp = sc["spec"]
        rng = run.derived("c20")
        run.clean()
        text, want = F.text(sp)
        fname = run.path(F.fname(sp))
        with open(fname, "wb") as f:
            f.write(text.encode("cp1252"))
        if sc["via"] == "read_data":
            read = lambda: ff.read_data(fname, verbose=False)
            run.stats.probe("via_read_data")
        else:
            read = lambda: getattr(ff, F.reader)(fname, verbose=False)
        before = run.snapshot()
        out = run.execute(read)
        if out.exc is not None:
            raise Violation("read-raises", "a valid %s file does not read: %s" % (F.name, exc_text(out.exc)))
        bad = compare(out.value, want)
        if bad:
            raise Violation("misread", "%s: %s" % (F.name, bad))
        run.stats.probe(F.name)
        self.mark(run, sc["fmt"], sp)
        whole = hashlib.sha256(repr(gen.dump(out.value)).encode("utf-8", "replace")).hexdigest()
        run.stats.note(hashlib.sha256(text.encode("utf-8")).hexdigest())
        run.stats.traces.add("text-" + hashlib.sha256(text.encode("utf-8")).hexdigest()[:16])
        if not run.stats.samples:
            run.stats.samples.append({"format": F.name, "text": text[:400], "operations": simenv.fmt_log(out.log)[:6]})

        for plan in run.plans("benign", [benign_plan(out.log, rng)]):
            o = run.execute(read, plan)
            if o.exc is not None:
                raise Violation("read-raises-on-short-read", "%s: %s" % (plan.describe(), exc_text(o.exc)), plan)
            bad = compare(o.value, want)
            if bad:
                raise Violation("misread", "%s, %s: %s" % (F.name, plan.describe(), bad), plan)
            run.stats.probe("short_reads", 1 if o.fired else 0)
        cand = sample(rng, hard_faults(out.log, rng, only_write=False), sc["k"])
        for plan in run.plans("fault", cand):
            o = run.execute(read, plan)
            if o.exc is None:
                bad = compare(o.value, want)
                if bad:
                    raise Violation("partial-read", "%s: the read succeeds with other data: %s" % (plan.describe(), bad), plan)
            else:
                run.stats.probe("fault_raised")
            o = run.execute(read)
            if o.exc is not None or hashlib.sha256(repr(gen.dump(o.value)).encode("utf-8", "replace")).hexdigest() != whole:
                raise Violation("retry", "%s, then a working disk: %s" % (plan.describe(), exc_text(o.exc) if o.exc is not None else "other data"), plan)
        if run.snapshot() != before:
            raise Violation("file-changed", "reading changed files")

    def mark(self, run, fmt, sp):
        p = run.stats.probe
        if sp["comments"]:
            p("comments")
        if fmt == "touchstone":
            p("touchstone_ports_3_or_more", 1 if sp["n"] > 2 else 0)
            p("touchstone_polar", 1 if sp["kind"] != "RI" else 0)
            p("touchstone_noise", 1 if sp["noise"] else 0)
        elif fmt == "citi":
            p("citi_segments", 1 if any("seg" in d for d in sp["dims"]) else 0)
            p("citi_several_dims", 1 if len(sp["dims"]) > 1 else 0)
        elif fmt == "spdata":
            p("spdata_complex", 1 if any(c["kind"] in ("ReIm", "MagArg", "matrix") for c in sp["cols"]) else 0)
            p("spdata_repeated", 1 if any(c.get("rep", 1) > 1 for c in sp["cols"]) else 0)
        else:
            p("mdif_several_blocks", 1 if sp["blocks"] > 1 else 0)
