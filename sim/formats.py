"""The five file formats as the simulator sees them: what a user may store in
each one, how to save and read it, and the independent model of what must come
back."""
import numpy as np

from gen import WORDS, model, same, through_fmt

UNITS = ["Hz", "V", "A", "s", "W", "Ohm", "m"]
FMTS_R = ["%.16e", "%.17g", "%.6e", "%.3f", "%12.5e", "%-20.12e", "%g", "%+.9e"]
# numpy types that HDF5 files keep
CT = ["<i1", "<u1", "<i2", "<u2", "<i4", "<u4", "<i8", "<u8", "<f4", "<f8", "<c8", "<M8[D]", "<M8[s]", "<M8[ms]", "<M8[us]"]
FREE = [u"measured by hand", u"second run, bad cable", u"", u"0 dB pad",
        u"f\xf6rs\xf6k nr 2", u"# not an info line", u"BEGIN nothing", u"END",
        u"50 % humidity", u"a, b; c", u"VAR x", u"1 2 3", u"watch out!", u"a ! b",
        u"10 dBm \xb5W", u"tab\there", u"  indented  ", u"trailing ", u"mail a@b.se", u"50 Ohm @ 25 C"]
PROPS = [(u"Operator: Bob", "Operator", u"Bob"), (u"Temp: 23.5", "Temp", 23.5),
         (u"Power=12", "Power", 12.0), (u"Probe station: N/A", "Probe station", u"N/A"),
         (u"DUT: \xc5ke 7", "DUT", u"\xc5ke 7"), (u"Averaging=32", "Averaging", 32.0),
         (u"Bias [V]: 1.5", "Bias", 1.5), (u"Slope: -3e-3", "Slope", -3e-3)]
NAMES = ["P", "Id", "Gain", "x", "yy", "Zin", "eta", "Vbias", "Pout", "T_amb", "k", "temp", "beta_v"]
SCALARS = ["Vg", "Vd", "Tc", "lot", "alpha", "Area", "Temp", "Power"]
DIMN = ["freq", "time", "Pin", "Vgs", "angle", "pos"]


class Mismatch(Exception):
    pass


def need(cond, msg, *a):
    if not cond:
        raise Mismatch(msg % a if a else msg)


def freq_vals(r, n, fmt=None):
    """n strictly increasing sweep values that survive fmt."""
    k = r.random()
    if k < 0.3:
        step = r.choice([1e9, 1e6, 0.5e9, 1.0])
        v = [step * (i + r.choice([0, 1])) if i == 0 else 0 for i in range(n)]
        v = [v[0] + step * i for i in range(n)]
    elif k < 0.6:
        v = sorted(set(round(r.uniform(0, 1e11), 3) for _ in range(n)))
    elif k < 0.75:
        v = sorted(set(r.uniform(0, 10) for _ in range(n)))
    elif k < 0.85:
        # neighbours that differ in the last digits only
        base = r.choice([1e9, 2.4e9, 1.0, 1e-3]) * r.uniform(1, 2)
        step = base * 10.0 ** r.randint(-14, -6)
        v = sorted(set(base + step * i for i in range(n)))
    else:
        v = sorted(set(r.uniform(1, 10) * 10.0 ** r.randint(-25, 25) for _ in range(n)))
    if fmt:
        q = []
        for x in v:
            if not q or float(fmt % x) > float(fmt % q[-1]):
                q.append(x)
        v = q
    return v


def mkdim(r, **kw):
    if r.random() < 0.25:
        kw["aslist"] = True
    return kw


def first_vals(r, n, fmt=None):
    """Values of the first dimension where any order is allowed."""
    v = freq_vals(r, n, fmt)
    k = r.random()
    if k < 0.12:
        v = v[::-1]
    elif k < 0.24:
        r.shuffle(v)
    return v


def sweep_vals(r, n):
    """n distinct sweep values, any order."""
    pool = [-3.0, -2.5, -1.0, -0.5, 0.0, 0.1, 1.0 / 3, 0.5, 1.0, 2.0, 7.0, 1e-3, 1e6, 12.25]
    r.shuffle(pool)
    return pool[:n]


def repeated(r, v):
    """Sometimes a setting is measured twice."""
    if len(v) > 1 and r.random() < 0.12:
        v = list(v)
        i, j = r.sample(range(len(v)), 2)
        v[i] = v[j]
    return v


def pick_n(r, big=False):
    k = r.random()
    if k < 0.15:
        return 1
    if k < 0.75:
        return r.randint(2, 12)
    if k < 0.93 or not big:
        return r.randint(13, 60)
    return r.randint(200, 400)


def gen_comments(r, props=True):
    out = []
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        if props and r.random() < 0.5:
            c = r.choice(PROPS)[0]
        else:
            c = r.choice(FREE)
        if c not in out or r.random() < 0.5:
            out.append(c)
    return out


def expect_props(comments, vs=()):
    """What comments state; a variable of the same name says otherwise."""
    d = {}
    for c in comments:
        for text, k, v in PROPS:
            if text == c and k not in [nm for nm, _ in vs]:
                d[k] = v
    return d


def arr(v):
    return np.array(v)


def check_props(db, props):
    for k, v in props.items():
        need(k in db.vardata, "comment property %r missing", k)
        got = arr(db.vardata[k])
        need(got.shape == (), "property %r has shape %r", k, got.shape)
        if isinstance(v, str):
            need(str(got[()]) == v, "property %r is %r, not %r", k, got[()], v)
        else:
            need(float(got[()]) == v, "property %r is %r, not %r", k, got[()], v)


def check_dim(db, name, data, unit=Ellipsis):
    need(name in db.ivardata, "dimension %r missing (has %r)", name, list(db.ivardata.keys()))
    d = arr(db.ivardata[name].data)
    need(same(d, data), "dimension %r differs: %.200r, saved %.200r", name, d.tolist(), np.asarray(data).tolist())
    if unit is not Ellipsis:
        need(db.ivardata[name].unit == unit, "unit of dimension %r is %r, saved %r", name, db.ivardata[name].unit, unit)


def check_var(db, name, data, dims, unit=Ellipsis, kinds=None):
    need(name in db.vardata, "variable %r missing (has %r)", name, list(db.vardata.keys()))
    v = db.vardata[name]
    got = arr(v)
    names = tuple(d.name for d in v.dims)
    need(names == tuple(dims), "dimensions of %r are %r, saved %r", name, names, tuple(dims))
    need(got.shape == np.shape(data), "shape of %r is %r, saved %r", name, got.shape, np.shape(data))
    if kinds:
        need(got.dtype.kind in kinds, "%r comes back as %r", name, got.dtype)
    if not same(got, data):
        g, w = got.ravel(), np.asarray(data).ravel()
        for i in range(len(w)):
            if not same(g[i], w[i]):
                need(False, "%r element %d of %d is %r, saved %r", name, i, len(w), g[i], w[i])
    if unit is not Ellipsis:
        need(v.unit == unit, "unit of %r is %r, saved %r", name, v.unit, unit)
    for d in v.dims:
        if d.name in db.ivardata and d.name not in ("i", "j"):
            need(same(arr(d.data), arr(db.ivardata[d.name].data)), "dimension %r of %r is not the block's", d.name, name)


def check_names(db, expected, allow=()):
    have = set(db.vardata.keys())
    extra = have - set(expected) - set(allow)
    need(not extra, "variables appeared that were never saved: %r", sorted(extra))


class Format(object):
    name = None
    ext = None
    text = True

    def fname(self, spec):
        return "data" + self.ext

    def save(self, db, fname, spec):
        raise NotImplementedError

    def read(self, fname, spec):
        raise NotImplementedError

    def gen(self, r, big=False):
        raise NotImplementedError

    def check(self, spec, db, fname):
        raise NotImplementedError

    def options(self, r, spec):
        """Choose how the user calls save and read (the checks of saves only)."""
        if r.random() < 0.15:
            spec["path"] = True
        return spec

    def fixup(self, spec):
        return spec

    def shrink(self, spec):
        from gen import shrink_spec
        for s in shrink_spec(spec, keep=("S",) if self.name == "touchstone" else ()):
            yield self.fixup(s)


class Touchstone(Format):
    name = "touchstone"

    def fname(self, spec):
        return "data.s%dp" % spec["vars"][0]["matrix"][0]

    def save(self, db, fname, spec):
        from hftools.file_formats import save_touchstone
        save_touchstone(db, as_path(fname, spec))

    def read(self, fname, spec):
        from hftools.file_formats import read_touchstone
        return read_touchstone(as_path(fname, spec))

    def gen(self, r, big=False):
        fmt = r.choice([None, None] + FMTS_R)
        ffmt = r.choice([None, None, "%.17g", "%.10e", "%g"])
        vals = freq_vals(r, pick_n(r, big), ffmt or "%.16e")
        n = r.choice([1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12])
        if len(vals) > 20:
            n = min(n, 4)
        spec = dict(dims=[dict(name="freq", vals=vals, unit="Hz", fmt=ffmt)],
                    vars=[dict(name="S", dims=["freq"], kind="cplx", matrix=[n, n],
                               seed=r.randrange(10 ** 9), fmt=fmt, nan=r.random() < 0.3)],
                    comments=gen_comments(r), scalars=1)
        if r.random() < 0.15:
            spec["comments"].append(r.choice([u"!out of order", u"!! check"]))
        for nm in r.sample(SCALARS, r.choice([0, 0, 1, 2])):
            spec["vars"].append(dict(name=nm, dims=[], kind=r.choice(["real", "real", "real", "int"]), seed=r.randrange(10 ** 9), nan=r.random() < 0.5,
                                     fmt=None))
            if spec["vars"][-1]["kind"] == "real":
                spec["vars"][-1]["fmt"] = r.choice([None, "%.9e", "%.17g"])
        return spec

    def check(self, spec, db, fname):
        dims, vs = model(spec)
        vd = dict(vs)
        check_dim(db, "freq", through_fmt(dims["freq"]["fmt"] or "%.16e", dims["freq"]["data"]), "Hz")
        S = vd["S"]
        check_var(db, "S", through_fmt(S["fmt"] or "%.16e", S["data"]), ("freq", "i", "j"), kinds="c")
        names = ["S", "Z0", "FILENAME"]
        lines = list(spec["comments"])
        props = expect_props(spec["comments"], vs)
        for nm, v in vs:
            if not v["dims"] and nm != "S":
                check_var(db, nm, through_fmt(v["fmt"] or int_fmt(v), v["data"]), ())
                names.append(nm)
        check_props(db, props)
        check_var(db, "Z0", np.array(50.0), ())
        check_names(db, names, props)
        com = [c for c in db.comments.fullcomments]
        need(com[:len(lines)] == [c.strip() for c in lines], "comments are %r, saved %r", com, lines)
        need(str(arr(db.vardata["FILENAME"])[()]) == fname, "FILENAME is %r", arr(db.vardata["FILENAME"])[()])


class Citi(Format):
    name = "citi"
    ext = ".citi"

    def save(self, db, fname, spec):
        from hftools.file_formats import save_citi
        save_citi(db, as_path(fname, spec))

    def read(self, fname, spec):
        from hftools.file_formats import read_citi
        return read_citi(as_path(fname, spec))

    def gen(self, r, big=False):
        nd = r.choice([1, 1, 1, 1, 2, 2, 3, 4])
        names = r.sample(DIMN, nd)
        dims = []
        for k, nm in enumerate(names):
            fmt = r.choice([None, None, "%.17g", "%.10e"])
            if k == 0:
                n = pick_n(r, big and nd == 1)
                if nd > 1:
                    n = min(n, 12)
                v = first_vals(r, n, fmt)
            else:
                v = repeated(r, sweep_vals(r, r.choice([1, 2, 3, 5] if nd < 4 else [1, 2, 3])))
            dims.append(mkdim(r, name=nm, vals=v, fmt=fmt))
        spec = dict(dims=dims, vars=[], comments=r.choice([None, []]) if r.random() < 0.3 else gen_comments(r),
                    blockname=r.choice(["DATA", "RAW", "cal_set", "X1", "my data set", "a.b", "_raw"]))
        for nm in r.sample(NAMES, r.choice([1, 1, 2, 3])):
            spec["vars"].append(dict(name=nm, dims=list(names), kind=r.choice(["real", "cplx", "int"]),
                                     seed=r.randrange(10 ** 9), fmt=None, nan=r.random() < 0.2))
            if spec["vars"][-1]["kind"] != "int" and r.random() < 0.4:
                spec["vars"][-1]["fmt"] = r.choice(FMTS_R)
        for nm in r.sample(["S", "Y", "a"], r.choice([0, 0, 0, 1, 1, 2, 3])):
            n = r.choice([1, 2, 2, 3, 4]) if r.random() < 0.95 else r.choice([6, 9, 10, 11])
            spec["vars"].append(dict(name=nm, dims=list(names), kind=r.choice(["cplx", "cplx", "real"]),
                                     matrix=[n, n if r.random() < 0.8 else max(1, n - 1)], seed=r.randrange(10 ** 9),
                                     fmt=r.choice([None] + FMTS_R), nan=r.random() < 0.2))
        for nm in r.sample(SCALARS, r.choice([0, 0, 1, 2])):
            spec["vars"].append(dict(name=nm, dims=[], kind=r.choice(["real", "real", "real", "int"]), seed=r.randrange(10 ** 9), nan=r.random() < 0.5,
                                     fmt=None))
            if spec["vars"][-1]["kind"] == "real":
                spec["vars"][-1]["fmt"] = r.choice([None, "%.9e", "%.17g"])
        r.shuffle(spec["vars"])
        return spec

    def check(self, spec, db, fname):
        dims, vs = model(spec)
        need(db.blockname == spec["blockname"], "block name %r, saved %r", db.blockname, spec["blockname"])
        for d in spec["dims"]:
            if len(spec["vars"]):
                check_dim(db, d["name"], through_fmt(d.get("fmt") or "%.16e", dims[d["name"]]["data"]))
        check_common_vars(db, vs, lambda v: v["dims"])
        props = expect_props(spec["comments"] or [], vs)
        check_props(db, props)
        check_names(db, [], set(expected_names(vs)) | set(props) | {"FILENAME"})
        if spec["comments"]:
            com = list(db.comments.fullcomments)
            want = [c.strip() for c in spec["comments"]]
            need(com[:len(want)] == want, "comments are %r, saved %r", com, want)


def int_fmt(v):
    return None if v["data"].dtype.kind == "U" else "%d" if v["data"].dtype.kind == "i" else "%.16e"


def expected_names(vs):
    out = []
    for nm, v in vs:
        if v["matrix"] and tuple(v["matrix"]) == (1, 1):
            out.append(nm + "11")
        else:
            out.append(nm)
    return out


def check_common_vars(db, vs, dimsof, unit=False, scalars=True, stored=lambda v: v["data"]):
    for nm, v in vs:
        data = through_fmt(v["fmt"] or int_fmt(v), v["data"])
        dd = tuple(dimsof(v))
        if not v["dims"]:
            if scalars:
                check_var(db, nm, data, ())
            continue
        u = v["unit"] if unit else Ellipsis
        if v["matrix"]:
            if tuple(v["matrix"]) == (1, 1):
                check_var(db, nm + "11", data[..., 0, 0], dd, u)
            else:
                check_var(db, nm, data, dd + ("i", "j"), u)
        else:
            check_var(db, nm, data, dd, u)


def flat_index(dims, spec, vs):
    """Product order of the sweep dimensions after the first one: how
    multi-dimensional data is laid out in the block formats."""
    names = [d["name"] for d in spec["dims"]]
    shape = [len(dims[n]["data"]) for n in names[1:]]
    coords = {}
    if names[1:]:
        grid = np.meshgrid(*[dims[n]["data"] for n in names[1:]], indexing="ij")
        for n, g in zip(names[1:], grid):
            coords[n] = g.ravel()
    return names, int(np.prod(shape)) if shape else 1, coords


def flatten_sweeps(data, nd, nblocks):
    """(x, s1, s2.., [i, j]) -> (x, nblocks, [i, j])"""
    a = np.asarray(data)
    return a.reshape((a.shape[0], nblocks) + a.shape[nd:])


class Spdata(Format):
    name = "spdata"
    ext = ".txt"

    def save(self, db, fname, spec):
        from hftools.file_formats import save_spdata
        save_spdata(db, as_path(fname, spec), **enc(spec))

    def read(self, fname, spec):
        from hftools.file_formats import read_spdata
        kw = enc(spec)
        if spec.get("hyper"):
            kw["hyper"] = True
        return read_spdata(as_path(fname, spec), **kw)

    def gen(self, r, big=False):
        nd = r.choice([1, 1, 1, 1, 2, 2, 3, 4])
        names = r.sample(DIMN, nd + 1)
        extra = names.pop()
        dims = []
        for k, nm in enumerate(names):
            fmt = r.choice([None, None, "%.17g", "%.10e"])
            if k == 0:
                n = pick_n(r, big and nd == 1)
                if nd > 1:
                    n = min(n, 12)
                v = first_vals(r, n, fmt)
            else:
                v = repeated(r, sweep_vals(r, r.choice([1, 2, 3, 4] if nd < 4 else [1, 2, 3])))
            dims.append(mkdim(r, name=nm, vals=v, fmt=fmt,
                             unit=r.choice([None] + UNITS) if k == 0 else None))
        spec = dict(dims=dims, vars=[], comments=r.choice([None, []]) if r.random() < 0.3 else gen_comments(r))
        mixed = r.random() < 0.3
        pool = r.sample(NAMES, r.choice([1, 1, 2, 3]) + 2 * mixed)
        for k, nm in enumerate(pool):
            dd = list(names)
            if mixed and k == 1 and nd > 1:
                dd = names[:1]
            elif mixed and k == 2:
                fmt = r.choice([None, "%.17g"])
                dims.append(mkdim(r, name=extra, vals=freq_vals(r, r.randint(2, 5), fmt), fmt=fmt, unit=r.choice([None] + UNITS)))
                dd = [extra]
            spec["vars"].append(dict(name=nm, dims=dd, kind=r.choice(["real", "real", "cplx", "cplx", "int", "word"]),
                                     seed=r.randrange(10 ** 9), fmt=None, nan=r.random() < 0.2,
                                     unit=r.choice([None, None] + UNITS)))
            v = spec["vars"][-1]
            if v["kind"] in ("real", "cplx") and r.random() < 0.4:
                v["fmt"] = r.choice(FMTS_R)
            if v["kind"] == "word":
                v["unit"] = None
        for nm in r.sample(["S", "Y", "Q"], r.choice([0, 0, 0, 1, 1, 2, 3])):
            n = r.choice([1, 2, 2, 3, 4]) if r.random() < 0.95 else r.choice([6, 9, 10, 11])
            spec["vars"].append(dict(name=nm, dims=list(names), kind=r.choice(["cplx", "cplx", "real"]),
                                     matrix=[n, n if r.random() < 0.8 else max(1, n - 1)], seed=r.randrange(10 ** 9),
                                     fmt=r.choice([None] + FMTS_R), nan=r.random() < 0.2, unit=r.choice([None, None] + UNITS)))
        for nm in r.sample(SCALARS, r.choice([0, 0, 1, 2])):
            spec["vars"].append(dict(name=nm, dims=[], kind=r.choice(["real", "real", "int"]), seed=r.randrange(10 ** 9),
                                     fmt=None, unit=r.choice([None, None] + UNITS), nan=r.random() < 0.5))
            if spec["vars"][-1]["kind"] == "real":
                spec["vars"][-1]["fmt"] = r.choice([None, "%.9e", "%.17g"])
        r.shuffle(spec["vars"])
        return self.fixup(spec)

    def options(self, r, spec):
        spec = Format.options(self, r, spec)
        if r.random() < 0.15:
            spec["encoding"] = r.choice(["utf-8", "latin-1"])
        once = all(len(set(d["vals"])) == len(d["vals"]) for d in spec["dims"])
        if len(self.layout(spec)[0]) > 1 and r.random() < 0.5 and once:
            spec["hyper"] = True
        return spec

    @staticmethod
    def layout(spec):
        """The dimensions of the swept data, and those of single blocks."""
        main = max((v["dims"] for v in spec["vars"]), key=len)
        return list(main), [d for d in spec["dims"] if d["name"] not in main]

    def fixup(self, spec):
        # merging several blocks drops dimensions of length one (documented)
        main, _ = self.layout(spec)
        for d in spec["dims"]:
            several = any(len(e["vals"]) > 1 for e in spec["dims"] if e["name"] in main[1:])
            blocks = len(set(tuple(v["dims"]) for v in spec["vars"] if v["dims"]))
            if (several or blocks > 1) and d["name"] not in main[1:] and len(d["vals"]) < 2:
                d["vals"] = [1.0, 2.0]
            if several or blocks > 1:
                for v in spec["vars"]:
                    if v.get("matrix") and 1 in v["matrix"] and v["matrix"] != [1, 1]:
                        v["matrix"] = [2, 2]
        return spec

    def check(self, spec, db, fname):
        dims, vs = model(spec)
        main, others = self.layout(spec)
        names, nb, coords = flat_index(dims, dict(dims=[d for n in main for d in spec["dims"] if d["name"] == n]), vs)
        for d in [e for e in spec["dims"] if e["name"] == main[0]] + others:
            check_dim(db, d["name"], through_fmt(d.get("fmt") or "%.16e", dims[d["name"]]["data"]))
            if d.get("unit"):
                need(db.ivardata[d["name"]].unit == d["unit"], "unit of %r is %r, saved %r", d["name"], db.ivardata[d["name"]].unit, d["unit"])
        nd = len(names)
        x = names[0]
        hyper = spec.get("hyper")
        index = None
        blocks = len(set(v["dims"] for _, v in vs if v["dims"]))
        swept = [n for n in names[1:] if len(dims[n]["data"]) > 1]
        for nm, v in vs:
            w = dict(v)
            if not v["dims"]:
                check_common_vars(db, [(nm, w)], lambda v: ())
                if v["unit"]:
                    need(db[nm].unit == v["unit"], "unit of %r is %r, saved %r", nm, db[nm].unit, v["unit"])
                continue
            dd = v["dims"]
            k = nm + "11" if v["matrix"] and tuple(v["matrix"]) == (1, 1) else nm
            if len(dd) > 1:
                need(k in db.vardata, "variable %r missing (has %r)", k, list(db.vardata.keys()))
                if nb == 1:
                    w["data"] = flatten_sweeps(v["data"], nd, nb)[:, 0]
                    dd = (x,)
                elif hyper:
                    shape = tuple(len(dims[n]["data"]) for n in (x,) + tuple(swept))
                    w["data"] = np.asarray(v["data"]).reshape(shape + tuple(v["matrix"] or ()))
                    dd = (x,) + tuple(swept)
                else:
                    w["data"] = flatten_sweeps(v["data"], nd, nb)
                    if index is None:
                        have = [d.name for d in db[k].dims]
                        need(len(have) > 1 and have[1].startswith("INDEX"), "dimensions of %r are %r, saved %r", nm, have, dd)
                        index = have[1]
                    dd = (x, index)
            check_common_vars(db, [(nm, w)], lambda v: dd)
            if v["unit"]:
                need(db[k].unit == v["unit"], "unit of %r is %r, saved %r", nm, db[k].unit, v["unit"])
        for d in spec["dims"]:
            if d["name"] not in names[1:]:
                continue
            want = through_fmt(d.get("fmt") or "%.16e", coords[d["name"]])
            if nb == 1:
                have = arr(db[d["name"]].data if d["name"] in db.ivardata else db[d["name"]]).ravel()
                need(same(have, want), "sweep variable %r is %r, saved %r", d["name"], have, want)
            elif hyper:
                have = arr(db[d["name"]].data if d["name"] in db.ivardata else db[d["name"]]).ravel()
                want = through_fmt(d.get("fmt") or "%.16e", dims[d["name"]]["data"])
                need(same(have, want), "sweep variable %r is %r, saved %r", d["name"], have, want)
            else:
                check_var(db, d["name"], want, (index,) if index else [e.name for e in db[d["name"]].dims])
        props = expect_props(spec["comments"] or [], vs)
        check_props_multi(db, props)
        allow = set(expected_names(vs)) | set(props) | set(names) | {"FILENAME", "FILEINDEX"}
        check_names(db, [], allow)
        if spec["comments"]:
            com = [c.strip() for c in db.comments.fullcomments]
            want = [c.strip().lstrip("!").strip() for c in spec["comments"]]
            need(com[:len(want)] == want, "comments are %r, saved %r", com, want)


def as_path(fname, spec):
    if spec.get("path"):
        from hftools import path
        return path(fname)
    return fname


def enc(spec):
    return {"encoding": spec["encoding"]} if spec.get("encoding") else {}


def check_props_multi(db, props):
    for k, v in props.items():
        need(k in db.vardata, "comment property %r missing", k)
        got = arr(db.vardata[k]).ravel()
        for g in got:
            if isinstance(v, str):
                need(str(g) == v, "property %r is %r, not %r", k, g, v)
            else:
                need(float(g) == v, "property %r is %r, not %r", k, g, v)


class Mdif(Format):
    name = "mdif"
    ext = ".mdif"

    def save(self, db, fname, spec):
        from hftools.file_formats import save_mdif
        save_mdif(db, as_path(fname, spec))

    def read(self, fname, spec):
        from hftools.file_formats import read_mdif
        return read_mdif(as_path(fname, spec), verbose=False)

    def gen(self, r, big=False):
        nd = r.choice([1, 1, 2, 2, 3, 4])
        names = r.sample(DIMN, nd)
        dims = []
        for k, nm in enumerate(names):
            fmt = r.choice([None, None, "%.17g", "%.10e"])
            if k == 0:
                n = pick_n(r, big and nd == 1)
                if nd > 1:
                    n = min(n, 12)
                v = first_vals(r, n, fmt)
            else:
                v = repeated(r, sweep_vals(r, r.choice([1, 2, 3, 4] if nd < 4 else [1, 2, 3])))
            dims.append(mkdim(r, name=nm, vals=v, fmt=fmt))
        spec = dict(dims=dims, vars=[], comments=None, blockname=r.choice([None, "A74", "DATA.SP", "blk_1", "my block 2", "_b", "END2"]))
        for nm in r.sample(NAMES, r.choice([1, 1, 2, 3])):
            spec["vars"].append(dict(name=nm, dims=list(names), kind=r.choice(["real", "cplx", "int"]),
                                     seed=r.randrange(10 ** 9), fmt=None, nan=r.random() < 0.2))
            if spec["vars"][-1]["kind"] != "int" and r.random() < 0.4:
                spec["vars"][-1]["fmt"] = r.choice(FMTS_R)
        for nm in r.sample(["S", "Y", "Q"], r.choice([0, 0, 0, 1, 1, 2, 3])):
            n = r.choice([1, 2, 2, 3, 4]) if r.random() < 0.95 else r.choice([7, 10, 11])
            spec["vars"].append(dict(name=nm, dims=list(names), kind=r.choice(["cplx", "cplx", "real"]),
                                     matrix=[n, n if r.random() < 0.8 else max(1, n - 1)], seed=r.randrange(10 ** 9),
                                     fmt=r.choice([None] + FMTS_R), nan=r.random() < 0.2))
        r.shuffle(spec["vars"])
        if r.random() < 0.5:
            # one number per block: written as an attribute
            for nm in r.sample(SCALARS, r.choice([1, 1, 2])):
                spec["vars"].append(dict(name=nm, dims=list(names[1:]), kind=r.choice(["real", "real", "real", "int"]), seed=r.randrange(10 ** 9),
                                         fmt=None, nan=r.random() < 0.3))
                if spec["vars"][-1]["kind"] == "real":
                    spec["vars"][-1]["fmt"] = r.choice([None, "%.9e"])
        return spec

    def check(self, spec, dbs, fname):
        dims, vs = model(spec)
        names, nb, coords = flat_index(dims, spec, vs)
        bname = spec["blockname"] or "DATABLOCK"
        need(isinstance(dbs, dict) and list(dbs.keys()) == [bname], "blocks %r, saved %r", list(dbs.keys()), bname)
        db = dbs[bname]
        x = spec["dims"][0]
        nd = len(names)
        many = nb > 1
        check_dim(db, x["name"], through_fmt(x.get("fmt") or "%.16e", dims[x["name"]]["data"]))
        cols, attrs = [], []
        for nm, v in vs:
            w = dict(v)
            if tuple(v["dims"]) == tuple(names):
                w["data"] = flatten_sweeps(v["data"], nd, nb)
                if not many:
                    w["data"] = w["data"][:, 0]
                cols.append((nm, w))
            else:
                attrs.append((nm, w))
        check_common_vars(db, cols, lambda v: (x["name"], "INDEX") if many else (x["name"],))
        for nm, v in attrs:
            want = through_fmt(v["fmt"] or int_fmt(v), v["data"])
            if many:
                check_var(db, nm, want.reshape((nb,)), ("INDEX",))
            else:
                check_var(db, nm, want.reshape(()), ())
        for d in spec["dims"][1:]:
            want = through_fmt(d.get("fmt") or "%.16e", coords[d["name"]])
            if many:
                check_var(db, d["name"], want, ("INDEX",))
            else:
                check_dim(db, d["name"], want)
        allow = set(expected_names(vs)) | set(names) | {"FILENAME", "FILEINDEX", "Created"}
        check_names(db, [], allow)


class Hdf5(Format):
    name = "hdf5"
    ext = ".hdf5"
    text = False
    version = "0.2"

    def save(self, db, fname, spec):
        from hftools.file_formats import save_hdf5
        save_hdf5(db, as_path(fname, spec), version=self.version)

    def read(self, fname, spec):
        from hftools.file_formats import read_hdf5
        return read_hdf5(as_path(fname, spec))

    def gen(self, r, big=False):
        nd = r.choice([1, 1, 2, 2, 3, 4])
        names = r.sample(DIMN + (["Vg/Vd", u"l\xe4ngd"] if self.version == "0.2" else []), nd)
        dims = []
        for k, nm in enumerate(names):
            n = min(pick_n(r, big), (60 if nd < 4 else 12) if nd > 1 else 400)
            if k:
                v = sweep_vals(r, r.choice([1, 2, 3, 4]))
            else:
                v = first_vals(r, n)
            if r.random() < 0.15:
                v = list(range(len(v)))
            dims.append(mkdim(r, name=nm, vals=v, cls=r.choice(["DimSweep", "DimSweep", "DimRep", "DimPartial"]),
                              unit=r.choice([None] + UNITS + [u"\xb0C"]), fmt=r.choice([None, "%.3f"])))
            d = dims[-1]
            if r.random() < 0.12:
                d.update(dt=True, fmt=None, vals=sorted(set(r.randint(-2 * 10 ** 15, 4 * 10 ** 15) for _ in v)))
            elif self.version == "0.2" and r.random() < 0.08:
                d.update(fmt=None, vals=["%s%d" % (r.choice(WORDS), k) for k in range(len(v))])
        spec = dict(dims=dims, vars=[], comments=None)
        if self.version == "0.1":
            spec["comments"] = r.choice([None, []]) if r.random() < 0.3 else gen_comments(r, props=False)
            spec["blockname"] = r.choice([None, "blk", "a b", "none_1"])
        pool = NAMES + ([u"a/b", u"\xe5ngstr\xf6m", "Q 1", "Z[1]"] if self.version == "0.2" else ["Q 1", u"\xe5ngstr\xf6m", u"\u03c9"])
        for nm in r.sample(pool, r.choice([1, 2, 3, 4])):
            dd = [d for d in names if r.random() < 0.7]
            kind = r.choice(["real", "cplx", "int", "bool", "str", "dt"] if self.version == "0.2" else ["real", "cplx", "int", "dt"])
            v = dict(name=nm, dims=dd, kind=kind, seed=r.randrange(10 ** 9), nan=r.random() < 0.2,
                     unit=r.choice([None, None] + UNITS), fmt=None)
            if kind in ("real", "int") and r.random() < 0.2:
                v["dtype"] = {"real": "<f4", "int": r.choice(["<i4", "<i2", "<u1"])}[kind]
                if kind == "int":
                    v["kind"] = "bool"
                    v["dtype"] = v["dtype"]
            if self.version == "0.2" and r.random() < 0.3 and kind in ("real", "cplx"):
                v["fmt"] = r.choice(FMTS_R)
            elif r.random() < 0.25:
                v["ct"] = r.choice(CT)
            spec["vars"].append(v)
        n = r.choice([1, 2, 3])
        for nm in r.sample(["S", "Y", "T"], r.choice([0, 0, 0, 1, 1, 2])):
            spec["vars"].append(dict(name=nm, dims=list(names), kind="cplx", matrix=[n, n], seed=r.randrange(10 ** 9),
                                     unit=None, fmt=None))
        used = set(n for v in spec["vars"] for n in v["dims"])
        spare = [d["name"] for d in spec["dims"] if d["name"] not in used]
        if spare and r.random() < 0.5:
            spec["spare"] = spare
        else:
            spec["dims"] = [d for d in spec["dims"] if d["name"] in used]
        return spec

    def check(self, spec, db, fname):
        dims, vs = model(spec)
        for d in spec["dims"]:
            check_dim(db, d["name"], dims[d["name"]]["data"], d.get("unit"))
            if d.get("fmt") and self.version == "0.2":
                need(db.ivardata[d["name"]].outputformat == d["fmt"], "outputformat of dimension %r is %r, saved %r", d["name"], db.ivardata[d["name"]].outputformat, d["fmt"])
            need(type(db.ivardata[d["name"]]).__name__ == d.get("cls", "DimSweep"), "class of dimension %r is %s", d["name"], type(db.ivardata[d["name"]]).__name__)
        for nm, v in vs:
            dd = tuple(v["dims"]) + (("i", "j") if v["matrix"] else ())
            check_var(db, nm, v["data"], dd, v["unit"], kinds=v["data"].dtype.kind)
            if v["data"].dtype.kind != "U":
                need(arr(db[nm]).dtype == v["data"].dtype, "%r comes back as %s, saved as %s", nm, arr(db[nm]).dtype, v["data"].dtype)
            if v["fmt"] and self.version == "0.2":
                need(db[nm].outputformat == v["fmt"], "outputformat of %r is %r, saved %r", nm, db[nm].outputformat, v["fmt"])
        check_names(db, [nm for nm, _ in vs])
        if self.version == "0.1":
            need(db.blockname == spec.get("blockname"), "blockname %r, saved %r", db.blockname, spec.get("blockname"))
            if spec.get("comments"):
                need(list(db.comments.fullcomments) == [c.strip() for c in spec["comments"]], "comments are %r, saved %r", db.comments.fullcomments, spec["comments"])


class Hdf5v1(Hdf5):
    name = "hdf5v1"
    version = "0.1"


FORMATS = dict((c.name, c()) for c in (Touchstone, Citi, Spdata, Mdif, Hdf5, Hdf5v1))
