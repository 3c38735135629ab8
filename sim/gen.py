"""Datasets as JSON specs (so that scenarios replay and shrink), the hftools
DataBlock built from a spec, and an independent plain-numpy model of it."""
import copy
import math

import numpy as np

SPECIAL = [0.0, 1.0, -1.0, 0.5, -0.0, 1e-9, -1e-15, 1e12, 123456.789, 2.0 / 3,
           -math.pi, 1e300, -1e-300, 5e-324, 1.5e308,
           2.2250738585072014e-308, 0.1, 1 + 2 ** -52, 3e8]


ODD = [float("nan"), float("inf"), float("-inf")]
# text a column of a text file may hold: not to be mistaken for a number
WORDS = [u"pass", u"fail", u"N/A", u"die 7", u"f\xf6r h\xf6g", u"x=1, y=2", u"a", u"Low band", u"W12-B", u"two  spaces"]


def rnd_real(r):
    k = r.random()
    if k < 0.25:
        return r.choice(SPECIAL)
    if k < 0.6:
        return r.uniform(-10, 10)
    if k < 0.8:
        return r.gauss(0, 1) * 10.0 ** r.randint(-18, 18)
    return float(r.randint(-100, 100))


def values(seed, n, kind, nan=False, ints=False):
    """n values of the given kind, a pure function of the arguments."""
    import random
    r = random.Random("values-%s-%s" % (seed, kind))
    out = []
    for _ in range(n):
        if kind == "cplx":
            if nan and r.random() < 0.1:
                out.append(complex(r.choice(ODD + [rnd_real(r)]), r.choice(ODD + [rnd_real(r)])))
            else:
                out.append(complex(rnd_real(r), rnd_real(r)))
        elif kind == "real":
            out.append(r.choice(ODD) if nan and r.random() < 0.07 else rnd_real(r))
        elif kind == "word":
            out.append(r.choice(WORDS))
        elif kind == "int":
            out.append(r.choice([0, 1, -1, 7, 2 ** 31, -2 ** 40, r.randint(-10 ** 6, 10 ** 6)]))
        elif kind == "str":
            alpha = u"abcXYZ_-019 \xe5\xe4\xf6.,:=[]"
            out.append(u"".join(r.choice(alpha) for _ in range(r.randint(0, 9))))
        elif kind == "dt":
            out.append(r.randint(0, 4 * 10 ** 9))
        elif kind == "bool":
            out.append(r.random() < 0.5)
    return out


DT = {"cplx": np.complex128, "real": np.float64, "int": np.int64,
      "bool": np.bool_}


def typed(seed, n, ct):
    """n values of numpy type ct with its extremes, a pure function of the arguments."""
    import random
    r = random.Random("typed-%s-%s" % (seed, ct))
    if ct == "U":
        a = np.array(values(seed, n, "str") + [u"x"], dtype=np.unicode_)[:n]
        return a
    dt = np.dtype(ct)
    tame = r.random() < 0.5
    if dt.kind == "b":
        return np.array([r.random() < 0.5 for _ in range(n)])
    if dt.kind in "iu":
        lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
        if tame:
            return np.array([r.randint(0, 100) for _ in range(n)], dtype=dt)
        return np.array([r.choice([lo, hi, 0, 1, 7, r.randint(lo, hi), min(hi, 2 ** 31), min(hi, 2 ** 32 + 5),
                                   min(hi, 70000), max(lo, -1)]) for _ in range(n)], dtype=dt)
    if dt.kind == "M":
        unit = np.datetime_data(dt)[0]
        per = {"D": 1, "s": 86400, "ms": 86400000, "us": 86400000000}[unit]
        out = []
        for _ in range(n):
            days = r.randint(-20000, 30000)
            v = days * per
            if not tame:
                v += r.randrange(per)
                if r.random() < 0.1:
                    v = "NaT"
            out.append(v)
        return np.array([np.datetime64(v, unit) for v in out], dtype=dt)
    if dt.kind == "f":
        with np.errstate(all="ignore"):
            return np.array([float(r.randint(-9, 9)) if tame else rnd_real(r) for _ in range(n)]).astype(dt)
    with np.errstate(all="ignore"):
        return np.array([complex(rnd_real(r), rnd_real(r)) for _ in range(n)]).astype(dt)


def np_array(spec_var, shape):
    n = int(np.prod(shape)) if shape else 1
    if spec_var.get("ct"):
        return typed(spec_var["seed"], n, spec_var["ct"]).reshape(shape)
    vals = values(spec_var["seed"], n, spec_var["kind"], spec_var.get("nan", False))
    if spec_var["kind"] in ("str", "word"):
        a = np.array(vals, dtype=np.unicode_)
        if a.dtype.itemsize == 0:
            a = a.astype("U1")
    elif spec_var["kind"] == "dt":
        a = np.array(vals, dtype="datetime64[s]")
    else:
        a = np.array(vals, dtype=spec_var.get("dtype") or DT[spec_var["kind"]])
    return a.reshape(shape)


def dim_values(d):
    if d.get("dt"):
        return np.array(d["vals"], dtype="datetime64[us]")
    return np.array(d["vals"])


def model(spec):
    """{name: dict(data, dims, unit, fmt)} and {dimname: ...}: no hftools code."""
    dims = {}
    for d in spec["dims"]:
        dims[d["name"]] = dict(data=dim_values(d), unit=d.get("unit"),
                               cls=d.get("cls", "DimSweep"), fmt=d.get("fmt"))
    out = []
    for v in spec["vars"]:
        shape = tuple(len(dims[n]["data"]) for n in v["dims"])
        if v.get("matrix"):
            shape = shape + tuple(v["matrix"])
        out.append((v["name"], dict(data=np_array(v, shape), dims=tuple(v["dims"]),
                                    matrix=v.get("matrix"), unit=v.get("unit"),
                                    fmt=v.get("fmt"))))
    return dims, out


def build(spec):
    """The DataBlock the spec describes."""
    import hftools.dataset as ds
    from hftools.file_formats import Comments
    dimcls = {"DimSweep": ds.DimSweep, "DimRep": ds.DimRep,
              "DimPartial": ds.DimPartial}
    mdims, mvars = model(spec)
    dimobj = {}
    for d in spec["dims"]:
        kw = {}
        if d.get("unit"):
            kw["unit"] = d["unit"]
        if d.get("fmt"):
            kw["outputformat"] = d["fmt"]
        data = mdims[d["name"]]["data"]
        if d.get("aslist") and data.dtype.kind == "f":
            # as a user types it: [1, 2.5]
            data = [int(x) if float(x).is_integer() and abs(x) < 2 ** 31 else x for x in data.tolist()]
        dimobj[d["name"]] = dimcls[d.get("cls", "DimSweep")](
            d["name"], data, **kw)
    db = ds.DataBlock()
    if spec.get("blockname"):
        db.blockname = spec["blockname"]
    if spec.get("comments") is not None:
        db.comments = Comments([c for c in spec["comments"]])
    for name, m in mvars:
        dd = tuple(dimobj[n] for n in m["dims"])
        if m["matrix"]:
            n, k = m["matrix"]
            dd = dd + (ds.DimMatrix_i("i", n), ds.DimMatrix_j("j", k))
        kw = {}
        if m["unit"]:
            kw["unit"] = m["unit"]
        if m["fmt"]:
            kw["outputformat"] = m["fmt"]
        db[name] = ds.hfarray(m["data"].copy(), dims=dd, **kw)
    for name in spec.get("spare", ()):
        db[name] = dimobj[name]
    return db


def dump(db):
    """Full, order-preserving, hashable picture of a DataBlock."""
    if isinstance(db, dict) and not hasattr(db, "vardata"):
        return tuple((k, dump(db[k])) for k in sorted(db))
    if isinstance(db, (list, tuple)):
        return tuple(dump(x) for x in db)
    out = []
    for k in db.ivardata.keys():
        d = db.ivardata[k]
        a = np.array(d.data)
        out.append(("dim", k, type(d).__name__, d.name, a.dtype.str, a.shape,
                    arr_bytes(a), d.unit, d.outputformat))
    for k in db.vardata.keys():
        v = db.vardata[k]
        a = np.array(v)
        out.append(("var", k, tuple((type(x).__name__, x.name,
                                     np.array(x.data).dtype.str,
                                     arr_bytes(np.array(x.data)), x.unit)
                                    for x in v.dims),
                    a.dtype.str, a.shape, arr_bytes(a), v.unit, v.outputformat))
    com = db.comments
    if com is not None:
        out.append(("comments", tuple(com.fullcomments),
                    tuple(sorted((k, repr(v)) for k, v in com.property.items()))))
    out.append(("blockname", db.blockname))
    return tuple(out)


def scribble(db):
    """Overwrite a dataset in place, as a user is free to do with what he was given."""
    if isinstance(db, dict) and not hasattr(db, "vardata"):
        for k in db:
            scribble(db[k])
        return
    if isinstance(db, (list, tuple)):
        for x in db:
            scribble(x)
        return

    def over(a):
        try:
            a = np.asarray(a)
            if a.dtype.kind in "biufc":
                a[...] = 77
            elif a.dtype.kind in "US":
                a[...] = "scribbled"[:max(1, a.dtype.itemsize // 4)]
        except (ValueError, TypeError):
            pass
    for v in list(db.vardata.values()):
        over(v)
        v.unit = "ly"
        v.outputformat = "%.1f"
    if db.comments is not None:
        for v in db.comments.property.values():
            over(v)
            if hasattr(v, "unit"):
                try:
                    v.unit = "ly"
                except Exception:
                    pass
        db.comments.property.clear()
        db.comments.property["Scribbled"] = 1
        db.comments.fullcomments[:] = [u"Scribbled: 1"]
    for v in list(db.vardata):
        del db[v]


def without_paths(d):
    """A dump without file names (the scratch directory has a random name)."""
    return tuple(without_paths(x) if isinstance(x, tuple) else x for x in d
                 if not (isinstance(x, tuple) and len(x) > 1 and (x[0] in ("var", "dim") and x[1] == "FILENAME"
                                                                  or x[0] == "blockname" and "/" in str(x[1]))))


def arr_bytes(a):
    if a.dtype.kind == "O":
        return repr(a.tolist())
    return a.tobytes()


def dump_diff(a, b):
    a, b = list(a), list(b)
    for x, y in zip(a, b):
        if x != y:
            return "%.300r != %.300r" % (x, y)
    if len(a) != len(b):
        return "%d entries != %d entries (%.200r)" % (len(a), len(b), (a if len(a) > len(b) else b)[min(len(a), len(b))])
    return ""


def same(a, b):
    """Exact equality of arrays, nan equals nan, -0.0 equals 0.0."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "US" or b.dtype.kind in "US" or a.dtype.kind in "M" or b.dtype.kind in "M":
        if a.dtype.kind == b.dtype.kind == "M":
            return bool(np.all((a == b) | (np.isnat(a) & np.isnat(b))))
        return a.dtype.kind == b.dtype.kind and bool(np.all(a == b))
    with np.errstate(all="ignore"):
        if a.dtype.kind == "c" or b.dtype.kind == "c":
            return same(np.real(a), np.real(b)) and same(np.imag(a), np.imag(b))
        return bool(np.all((a == b) | ((a != a) & (b != b))))


def through_fmt(fmt, a):
    """What a file written with outputformat fmt holds."""
    a = np.asarray(a)
    if fmt is None or a.dtype.kind == "U":
        return a
    f = lambda x: float(fmt % x)
    flat = a.ravel()
    if a.dtype.kind == "c":
        out = np.array([complex(f(x.real), f(x.imag)) for x in flat], dtype=complex)
    else:
        out = np.array([f(x) for x in flat], dtype=float)
    return out.reshape(a.shape)


def shrink_spec(spec, keep=()):
    """Smaller specs."""
    for i in range(len(spec["vars"])):
        if len(spec["vars"]) > 1 and spec["vars"][i]["name"] not in keep:
            s = copy.deepcopy(spec)
            del s["vars"][i]
            used = set(n for v in s["vars"] for n in v["dims"]) | set(s.get("spare", ()))
            s["dims"] = [d for d in s["dims"] if d["name"] in used]
            if s["dims"]:
                yield s
    for i, d in enumerate(spec["dims"]):
        n = len(d["vals"])
        for m in (1, n // 2, n - 1):
            if 0 < m < n:
                s = copy.deepcopy(spec)
                s["dims"][i]["vals"] = d["vals"][:m]
                yield s
    for i, v in enumerate(spec["vars"]):
        for k in ("fmt", "unit", "nan"):
            if v.get(k):
                s = copy.deepcopy(spec)
                s["vars"][i][k] = None
                yield s
        if v.get("matrix") and v["matrix"][0] > 1:
            s = copy.deepcopy(spec)
            s["vars"][i]["matrix"] = [v["matrix"][0] - 1] * 2
            yield s
    if spec.get("spare"):
        s = copy.deepcopy(spec)
        s["dims"] = [d for d in s["dims"] if d["name"] not in s["spare"]]
        s["spare"] = []
        yield s
    if spec.get("comments"):
        s = copy.deepcopy(spec)
        s["comments"] = []
        yield s
