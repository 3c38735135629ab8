"""A file cut off by a crash while it was written is rejected, or read as an exact prefix."""
import numpy as np

import gen
import simenv
from base import BaseCheck
from formats import FORMATS, Mismatch, need, flat_index, flatten_sweeps, int_fmt
from gen import same, through_fmt
from savecheck import exc_text
from simenv import Plan, Violation, A_CRASH, A_CRASH_AFTER


def expected_columns(spec, fmt):
    """name -> array (rows, blocks, ...) as a file holds it; x values; sweep values per block"""
    dims, vs = gen.model(spec)
    names, nb, coords = flat_index(dims, spec, vs)
    x = spec["dims"][0]
    cols = {}
    for nm, v in vs:
        if tuple(v["dims"]) != tuple(names):
            continue
        data = through_fmt(v["fmt"] or int_fmt(v), v["data"])
        data = flatten_sweeps(data, len(names), nb)
        if v["matrix"] and tuple(v["matrix"]) == (1, 1) and fmt != "touchstone":
            nm, data = nm + "11", data[..., 0, 0]
        cols[nm] = data
    xs = through_fmt(x.get("fmt") or "%.16e", dims[x["name"]]["data"])
    sweeps = dict((d["name"], through_fmt(d.get("fmt") or "%.16e", coords[d["name"]])) for d in spec["dims"][1:])
    return x["name"], xs, nb, cols, sweeps


def one_layout(spec, fmt):
    """An SP-data file whose variables all share their dimensions (the prefix model knows one table only)."""
    if fmt == "spdata":
        main, others = FORMATS[fmt].layout(spec)
        spec["vars"] = [v for v in spec["vars"] if v["dims"] in ([], main)]
        spec["dims"] = [d for d in spec["dims"] if d["name"] in main]
    return spec


def check_prefix(spec, fmt, db, index, last_exact, later_blocks=True):
    xname, xs, nb, cols, sweeps = expected_columns(spec, fmt)
    need(xname in db.ivardata, "no %r in the data", xname)
    gx = np.array(db.ivardata[xname].data)
    m = len(gx)
    need(m <= len(xs), "more rows than were saved")
    n_ok = m if last_exact else m - 1
    need(same(gx[:n_ok], xs[:n_ok]), "%r is not a prefix of what was saved", xname)
    many = index in db.ivardata
    b = len(np.array(db.ivardata[index].data)) if many else 1
    need(b <= nb, "more blocks than were saved")
    for nm, want in cols.items():
        if nm not in db.vardata:
            need(False, "variable %r missing", nm)
        got = np.array(db.vardata[nm])
        if not many:
            got = got[:, None] if got.ndim else got.reshape((1, 1))
        if got.dtype.kind == "U" and not last_exact:
            continue     # half a number: the column is visibly no numbers any more
        if got.dtype.kind == "O":
            got = got.astype(complex)      # integers too long for int64
        need(got.shape == (m, b) + want.shape[2:], "shape of %r is %r", nm, got.shape)
        need(same(got[:, :b - 1], want[:m, :b - 1]), "earlier blocks of %r differ", nm)
        need(same(got[:n_ok, b - 1], want[:n_ok, b - 1]), "%r is not a prefix of what was saved", nm)
    for nm, want in sweeps.items():
        if nm in db.vardata and many:
            need(same(np.array(db.vardata[nm]), want[:b]), "sweep variable %r differs", nm)
    return m < len(xs) or b < nb


class Check(BaseCheck):
    id = "C09"
    level = "fault_enumeration"
    runs = {"quick": 700, "thorough": 25000}
    k = {"quick": 14, "thorough": 60}
    probes = ("rejected", "complete", "prefix_accepted", "crash_mid_write", "crash_in_last_write")

    def scenario(self, r, tier):
        fmt = r.choice(["touchstone", "citi", "spdata", "mdif", "mdif"])
        return dict(fmt=fmt, spec=one_layout(FORMATS[fmt].gen(r, big=True), fmt), k=self.k[tier])

    def shrink(self, sc):
        for s in FORMATS[sc["fmt"]].shrink(sc["spec"]):
            yield dict(sc, spec=s)

    def run(self, run, sc):
        F = FORMATS[sc["fmt"]]
        spec = sc["spec"]
        fname = run.path(F.fname(spec))
        rng = run.derived("c09")
        run.clean()
        db = gen.build(spec)
        clean = run.execute(lambda: F.save(db, fname, spec))
        if clean.exc is not None:
            raise Violation("save-raises", exc_text(clean.exc))
        with open(fname, "rb") as f:
            full = f.read()
        writes = [r for r in clean.log if r[1] == simenv.WRITE]
        cand = []
        for _ in range(sc["k"]):
            if rng.random() < 0.15:
                r = rng.choice(clean.log)
                cand.append(Plan([[r[0], rng.choice([A_CRASH, A_CRASH_AFTER]), 0]]))
                continue
            r = rng.choice(writes[-1:] if rng.random() < 0.3 else writes)
            n = r[3]
            kind = rng.random()
            if kind < 0.4:
                # cut at a line end (or one byte before or after it)
                off = sum(w[4] for w in writes if w[0] < r[0])
                ends = [i + 1 for i in range(off, off + n) if full[i:i + 1] == b"\n"]
                cut = (rng.choice(ends) - off + rng.choice([-1, 0, 0, 0, 1])) if ends else rng.randint(0, n)
            elif kind < 0.5:
                cut = n
            else:
                cut = rng.randint(0, n)
            cand.append(Plan([[r[0], A_CRASH, max(0, min(n, cut))]]))
        for plan in run.plans("crash", cand):
            run.clean()
            out = run.forked(lambda: F.save(db, fname, spec), plan)
            if not out.crashed:
                continue
            run.stats.probe("crash_in_last_write" if plan.faults and writes and plan.faults[0][0] == writes[-1][0] else "crash_mid_write")
            try:
                with open(fname, "rb") as f:
                    torn = f.read()
            except IOError:
                continue
            if not full.startswith(torn):
                # not sequential: judged on what is read only
                last_exact = False
            else:
                # exact if the cut is at a line end, or takes away only line ends
                last_exact = torn.endswith(b"\n") or full[len(torn):len(torn) + 1] in (b"\n", b"\r", b"")
            if sc["fmt"] == "touchstone" and not last_exact:
                # the format has no way to tell a cut row from a file of another device
                continue
            rd = run.execute(lambda: F.read(fname, spec))
            if rd.exc is not None:
                run.stats.probe("rejected")
                continue
            try:
                F.check(spec, rd.value, fname)
                run.stats.probe("complete")
                continue
            except Mismatch as m:
                why = str(m)
            try:
                if sc["fmt"] == "citi":
                    raise Mismatch(why)
                elif sc["fmt"] == "mdif":
                    need(len(rd.value) == 1, "blocks %s", list(rd.value))
                    d = list(rd.value.values())[0]
                    check_prefix(spec, "mdif", d, "INDEX", True)
                    need(len(np.array(d.ivardata[spec["dims"][0]["name"]].data)) == len(spec["dims"][0]["vals"]), "a block lost rows")
                elif sc["fmt"] == "spdata":
                    check_prefix(spec, "spdata", rd.value, "INDEX1", last_exact)
                else:
                    check_prefix(spec, "touchstone", rd.value, "INDEX1", last_exact)
            except Mismatch as m:
                raise Violation("torn-file-accepted", "%s: file cut to %d of %d bytes is read without error: %s" %
                                (plan.describe(), len(torn), len(full), m), plan)
            run.stats.probe("prefix_accepted")
        if not run.stats.samples:
            run.stats.samples.append({"format": sc["fmt"], "bytes": len(full), "crash_points": [p.describe() for p in cand[:5]]})
