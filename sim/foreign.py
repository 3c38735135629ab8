"""Measurement files as instruments and other programs write them, and what
they say: written here, without any code of hftools."""
import cmath
import datetime
import math
import random

PREFIX = {"": 1.0, "m": 1e-3, "u": 1e-6, "n": 1e-9, "p": 1e-12, "f": 1e-15, "k": 1e3, "M": 1e6, "G": 1e9, "T": 1e12}
UNITS = ["V", "A", "W", "Hz", "s", "Ohm", "F", "S", "m"]
NUMFMT = ["%r", "%.6f", "%.10e", "%.12g", "%+.4E", "%.3f", "%15.8e", "%.17g"]


class Want(object):
    """What a file says: dimensions, variables, comments."""

    def __init__(self):
        self.dims = []          # name, values, unit or None (not said)
        self.vars = {}          # name -> (dim names, shape, flat values, unit or None)
        self.comments = []
        self.blockname = None
        self.only_dims = {}     # further dimensions: name -> values


def number(r, kind="any"):
    k = r.random()
    if k < 0.1:
        return 0.0
    if k < 0.25:
        return float(r.randint(-20, 20))
    if k < 0.3:
        return r.choice([-1, 1]) * 10.0 ** r.randint(-30, 30)
    return r.uniform(-1, 1) * 10 ** r.randint(-3, 3)


class Style(object):
    """How this program writes: drawn once per file."""

    def __init__(self, seed, plain=False):
        r = self.r = random.Random("style-" + seed)
        self.plain = plain
        self.fmt = "%r" if plain else r.choice(NUMFMT)
        self.eol = "\n" if plain else r.choice(["\n", "\n", "\n", "\r\n", "\r\n", "\r"])
        self.sep = " " if plain else r.choice([" ", "  ", "\t", " \t ", "      "])
        self.blank = 0 if plain else r.choice([0, 0, 0.1, 0.5])
        self.indent = "" if plain else r.choice(["", "", " ", "\t", "    "])
        self.lastnl = plain or r.random() < 0.8
        self.short = not plain and r.random() < 0.1     # .5 and 5. for 0.5 and 5.0
        self.tail = "" if plain else r.choice(["", "", "", " ", "\t"])

    def num(self, x, fmt=None):
        t = ((fmt or self.fmt) % x).strip()
        if self.short and "e" not in t.lower():
            if t.lstrip("+-").startswith("0.") and len(t.lstrip("+-")) > 2:
                t = t.replace("0.", ".", 1)
            elif t.endswith(".0"):
                t = t[:-1]
        return t

    def lines(self, lines):
        out = []
        for l in lines:
            while self.blank and self.r.random() < self.blank * 0.5:
                out.append(self.r.choice(["", " ", "\t"]))
            out.append((self.indent if not l.startswith("CITIFILE") else "") + l + self.tail)
        t = self.eol.join(out)
        return t + (self.eol if self.lastnl else "")


def comment_specs(r, taken=()):
    """Comment lines and the values they state."""
    out = []
    names = [n for n in ["Vgs", "Vds", "Id", "Power1", "Averaging", "Operator", "Temp", "Slope_a", "DUT", "IFBW", "Smoothing", "Ambient temperature"] if n not in taken]
    r.shuffle(names)
    for n in names[:r.choice([0, 0, 1, 2, 3, 5])]:
        k = r.random()
        v = round(r.uniform(-1, 1) * 10 ** r.randint(-2, 3), r.randint(0, 6))
        if k < 0.35:
            out.append(dict(kind="bracket", name=n, value=v, prefix=r.choice(list(PREFIX)), unit=r.choice(UNITS), sep=r.choice([":", "=", " : ", " = ", "= "])))
        elif k < 0.5:
            out.append(dict(kind="after", name=n, value=v, prefix=r.choice(["", "m", "u", "k", "M", "G"]), unit=r.choice(["V", "A", "W", "Hz", "s"]), sep=r.choice([":", "=", ": ", " = "])))
        elif k < 0.75:
            out.append(dict(kind="number", name=n, value=v if r.random() < 0.6 else r.randint(-50, 5000), sep=r.choice([":", "=", ": ", " = "])))
        elif k < 0.82:
            out.append(dict(kind="percent", name=n, value=v, sep=r.choice([":", "="])))
        elif k < 0.9:
            out.append(dict(kind="date", name=n, value="%04d-%02d-%02d" % (r.randint(1999, 2030), r.randint(1, 12), r.randint(1, 28)),
                            time=r.choice([None, "%02d:%02d:%02d" % (r.randrange(24), r.randrange(60), r.randrange(60))]), sep=r.choice([":", "="])))
        else:
            out.append(dict(kind="text", name=n, value=r.choice(["HP8510C raw waves", "N/A", "Type N male load", "OML WR-03 Cal kit", u"m\xe4tning", "x"]), sep=r.choice([":", "=", ": "])))
    if r.random() < 0.4:
        out.append(dict(kind="free", text=r.choice(["measured after lunch", "PNA settings read from the instrument", "---", "do not use", "mail a@b.se", "a ! b"])))
    if r.random() < 0.04:
        out[:0] = [dict(kind="free", text="line %d of the preamble" % i) for i in range(r.choice([20, 60]))]
    if out and r.random() < 0.15:
        out.append(dict(r.choice(out)))         # said twice
    return out


def comment_line(c):
    """The line, and (name, value, unit) or None."""
    k = c["kind"]
    if k == "free":
        return c["text"], None
    n, s = c["name"], c["sep"]
    if k == "bracket":
        return "%s [%s%s]%s%r" % (n, c["prefix"], c["unit"], s, c["value"]), (n, c["value"] * PREFIX[c["prefix"]], c["unit"])
    if k == "after":
        return "%s%s%r %s%s" % (n, s, c["value"], c["prefix"], c["unit"]), (n, c["value"] * PREFIX[c["prefix"]], c["unit"])
    if k == "number":
        return "%s%s%r" % (n, s, c["value"]), (n, c["value"], None)
    if k == "percent":
        return "%s [%%]%s%r" % (n, s, c["value"]), (n, c["value"] * 0.01, None)
    if k == "date":
        return "%s%s%s%s" % (n, s, c["value"], " " + c["time"] if c["time"] else ""), (n, ("date", c["value"], c["time"]), None)
    return "%s%s%s" % (n, s, c["value"]), (n, c["value"].strip(), None)


def say_comments(want, comments):
    for c in comments:
        line, v = comment_line(c)
        want.comments.append(line.strip())
        if v:
            want.vars[v[0]] = ((), (), [v[1]], v[2])


# -- Touchstone ---------------------------------------------------------------
FREQ = {"hz": 1.0, "khz": 1e3, "mhz": 1e6, "ghz": 1e9, "thz": 1e12}


class Touchstone(object):
    name = "touchstone"
    reader = "read_touchstone"

    def gen(self, r):
        n = r.choice([1, 1, 2, 2, 2, 3, 4, 5, 6])
        npts = r.choice([1, 2, 3, 5, 9]) if r.random() < 0.96 else r.choice([40, 150] if n < 5 else [20])
        f = sorted(set(round(r.uniform(0.01, 40), r.randint(1, 4)) for _ in range(npts)))
        letters = "SYZ" + ("GH" if n == 2 else "")
        sp = dict(n=n, freq=f, unit=r.choice(list(FREQ)), case=r.choice(["upper", "lower", "mixed", "usual"]), kind=r.choice(["RI", "MA", "DB"]),
                  par=r.choice("S" if r.random() < 0.6 else letters), z0=r.choice([None, 50, 50, 75, 1, 12.5, 100]), seed="%x" % r.getrandbits(48),
                  comments=comment_specs(r), wrap=r.choice(["one", "spec", "spec", "any"]), trailing=r.random() < 0.2, noise=None,
                  ext=".s%dp" % n if r.random() < 0.7 else r.choice([".S%dP" % n, ".txt", ".dat", ""]))
        if n == 2 and r.random() < 0.35 and sp["z0"]:
            k = r.choice([1, 2, 4, len(f)]) if r.random() < 0.95 else 60
            if k == len(f) and r.random() < 0.3:
                # all but the same
                fn = sorted(x * (1 - r.choice([0, 1e-6, 1e-9, 1e-15])) for x in f)
            elif k == len(f) and r.random() < 0.5:
                fn = list(f)
            else:
                fn = sorted(set(round(r.uniform(0.01, f[-1]), 3) for _ in range(k)))
                if fn[0] > f[-1]:
                    fn = [f[-1]]
            sp["noise"] = fn
        return sp

    def text(self, sp):
        st = Style(sp["seed"], sp.get("plain"))
        r = random.Random("data-" + sp["seed"])
        w = Want()
        n, f = sp["n"], sp["freq"]
        mult = FREQ[sp["unit"]]
        say_comments(w, sp["comments"])
        before = ["!" + r.choice(["", " "]) + comment_line(c)[0] for c in sp["comments"]]
        if sp["par"] in [c.get("name") for c in sp["comments"]]:
            raise AssertionError
        unit = sp["unit"]
        opt = [unit, sp["par"], sp["kind"]] + (["R", "%r" % sp["z0"]] if sp["z0"] else [])
        opt = " ".join(opt) if sp.get("plain") else st.sep.join(opt)
        opt = {"upper": opt.upper(), "lower": opt.lower(), "mixed": opt, "usual": opt.replace("hz", "Hz").replace("k", "K").replace("m", "M").replace("g", "G").replace("t", "T")}[sp["case"]]
        k = r.choice([len(before), len(before), r.randint(0, len(before))])
        later = before[k:]      # remarks may stand anywhere
        out = before[:k] + ["#" + r.choice(["", " "]) + opt]
        values = []
        for x in f:
            while later and r.random() < 0.5:
                out.append(later.pop(0))
            m = {}
            for i in range(n):
                for j in range(n):
                    a, b = number(r), number(r)
                    if sp["kind"] == "DB":
                        a, b = r.uniform(-80, 20), r.uniform(-360, 360)
                    elif sp["kind"] == "MA":
                        a, b = abs(a), r.uniform(-360, 360)
                    ta, tb = st.num(a), st.num(b)
                    m[i, j] = (ta, tb, polar(sp["kind"], float(ta), float(tb)))
            # two-ports column by column, all others row by row
            order = [(i, j) for j in range(n) for i in range(n)] if n == 2 else [(i, j) for i in range(n) for j in range(n)]
            values.extend(m[i, j][2] for i in range(n) for j in range(n))
            rows = self.rows(r, sp, n, [m[k][:2] for k in order])
            for q, row in enumerate(rows):
                l = st.sep.join(([repr(x)] if q == 0 else []) + [t for p in row for t in p])
                if sp["trailing"] and r.random() < 0.3:
                    l += r.choice([" ", "\t"]) + "! point"
                out.append(l)
        dim = "freq"
        w.dims.append((dim, [x * mult for x in f], "Hz"))
        w.vars[sp["par"]] = ((dim, "i", "j"), (len(f), n, n), values, None)
        if sp["z0"]:
            w.vars["Z0"] = ((), (), [float(sp["z0"])], "Ohm")
        else:
            w.vars["Z0"] = None
        out += later
        if sp["noise"]:
            F, G, R = [], [], []
            for x in sp["noise"]:
                a = [st.num(abs(number(r)) % 9), st.num(r.random()), st.num(r.uniform(-180, 180)), st.num(r.random())]
                out.append(st.sep.join([repr(x)] + a))
                a = [float(t) for t in a]
                F.append(10 ** (a[0] / 10))
                G.append(polar("MA", a[1], a[2]))
                R.append(a[3] * sp["z0"])
            nd = dim if sp["noise"] == f else "freqn"
            if nd != dim:
                w.dims.append((nd, [x * mult for x in sp["noise"]], "Hz"))
            for k, v in (("Fmin", F), ("Gopt", G), ("Rn", R)):
                w.vars[k] = ((nd,), (len(v),), v, None)
        return st.lines(out), w

    def rows(self, r, sp, n, pairs):
        if sp["wrap"] == "one" and n <= 4:
            return [pairs]
        if n <= 2:
            return [pairs]
        out = []
        for i in range(n):
            row = pairs[i * n:(i + 1) * n]
            while row:
                k = 4 if sp["wrap"] != "any" else r.randint(2, 5)
                out.append(row[:k])
                row = row[k:]
        return out

    def fname(self, sp):
        return "m" + sp["ext"]


def polar(kind, a, b):
    if kind == "RI":
        return complex(a, b)
    if kind == "DB":
        a = 10 ** (a / 20)
    return cmath.rect(a, math.radians(b))


# -- CITI ---------------------------------------------------------------------
class Citi(object):
    name = "citi"
    reader = "read_citi"

    def gen(self, r):
        dims = []
        for n in r.sample(["FREQ", "POWER", "BIAS", "angle_1"], r.choice([1, 1, 1, 2, 3])):
            k = r.choice([1, 2, 3, 5])
            if r.random() < 0.4:
                a = round(r.uniform(-5, 5), 3)
                dims.append(dict(name=n, seg=[a, a + round(r.uniform(0.5, 20), 3), k]))
            else:
                dims.append(dict(name=n, vals=sorted(set(round(r.uniform(-9, 9) * 10 ** r.randint(0, 9), 4) for _ in range(k)))))
        data = []
        for n in r.sample(["S", "VOLT", "I_dc", "T"], r.choice([1, 1, 2, 3])):
            kind = r.choice(["RI", "MAGANGLE", "MAG"])
            if n in "ST":
                full = r.random() < 0.7
                a, b = r.choice([(1, 2), (2, 2), (2, 2), (3, 3), (2, 1)])
                data.append(dict(name=n, kind=kind, elems=[[i, j] for i in range(1, a + 1) for j in range(1, b + 1)] if full else [[2, 1]],
                                 names=r.choice(["%s[%d,%d]", "%s%d%d"]), order=r.choice(["row", "col"])))
            else:
                data.append(dict(name=n, kind=kind, elems=None))
        return dict(dims=dims, data=data, comments=comment_specs(r), marks=[r.choice(["!", "#", "COMMENT "]) for _ in range(8)], where=[r.randrange(5) for _ in range(8)],
                    time=r.choice([None, None, [r.randint(1999, 2020), r.randint(1, 12), r.randint(1, 28), r.randrange(24), r.randrange(60), r.randrange(60)]]),
                    bname=r.choice(["DATA", "RAW_DATA", "CAL_SET", "b 1"]), version=r.choice(["A.01.00", "A.01.01"]), seed="%x" % r.getrandbits(48), ext=r.choice([".citi", ".cti", ".d1", ".txt"]))

    def text(self, sp):
        st = Style(sp["seed"], sp.get("plain"))
        r = random.Random("data-" + sp["seed"])
        w = Want()
        w.blockname = sp["bname"]
        at = [[] for _ in range(5)]
        for i, c in enumerate(sp["comments"]):
            line, v = comment_line(c)
            k = sp["where"][i % 8]
            at[k].append((sp["marks"][i % 8] + line, line.strip()))
            if v:
                w.vars[v[0]] = ((), (), [v[1]], v[2])
        if sp["time"]:
            t = sp["time"]
            at[4].append(("COMMENT       YEAR MONTH DAY HOUR MINUTE SECONDS", "YEAR MONTH DAY HOUR MINUTE SECONDS"))
            at[4].append(("CONSTANT TIME %d   %02d   %02d  %02d    %02d    %02d.0" % tuple(t), "Measurement time: %d-%02d-%02d %02d:%02d:%02d.0" % tuple(t)))
            w.vars["Measurement time"] = ((), (), [("date", "%04d-%02d-%02d" % tuple(t[:3]), "%02d:%02d:%02d" % tuple(t[3:]))], None)
        out = []

        def put(k):
            for l, c in at[k]:
                out.append(l)
                w.comments.append(c)
        put(0)
        out.append("CITIFILE " + sp["version"])
        put(1)
        out.append("NAME " + sp["bname"])
        put(2)
        lists = []
        n = 1
        for d in sp["dims"]:
            if "seg" in d:
                a, b, k = d["seg"]
                vals = [a + (b - a) * i / (k - 1) if k > 1 else a for i in range(k)]
                lists += ["SEG_LIST_BEGIN", "SEG %r %r %d" % (a, b, k), "SEG_LIST_END"]
            else:
                t = [st.num(x, "%.17g" if not sp.get("plain") and r.random() < 0.5 else "%r") for x in d["vals"]]
                vals = [float(x) for x in t]
                lists += ["VAR_LIST_BEGIN"] + t + ["VAR_LIST_END"]
            out.append("VAR %s MAG %d" % (d["name"], len(vals)))
            w.dims.append((d["name"], vals, None))
            n *= len(vals)
        put(3)
        body = []
        shape = tuple(len(v) for _, v, _ in w.dims)
        names = tuple(x for x, _, _ in w.dims)
        for d in sp["data"]:
            elems = d["elems"] or [None]
            if d["elems"] and d["order"] == "col":
                elems = sorted(elems, key=lambda e: (e[1], e[0]))
            got = {}
            for e in elems:
                name = d["name"] if e is None else d["names"] % (d["name"], e[0], e[1])
                out.append("DATA %s %s" % (name, d["kind"]))
                vals = []
                body.append("BEGIN")
                for _ in range(n):
                    a, b = st.num(number(r)), st.num(r.uniform(-200, 200))
                    if d["kind"] == "MAG":
                        body.append(a)
                        vals.append(float(a))
                    else:
                        body.append("%s,%s%s" % (a, r.choice(["", " "]), b))
                        vals.append(polar("RI" if d["kind"] == "RI" else "MA", float(a), float(b)))
                body.append("END")
                got[tuple(e) if e else None] = vals
            if d["elems"] and len(d["elems"]) > 1:
                I = sorted(set(e[0] for e in d["elems"]))
                J = sorted(set(e[1] for e in d["elems"]))
                flat = [got[i, j][q] for q in range(n) for i in I for j in J]
                w.vars[d["name"]] = (names + ("i", "j"), shape + (len(I), len(J)), flat, None)
            else:
                (e, vals), = got.items()
                w.vars[d["name"] if e is None else d["names"] % (d["name"], e[0], e[1])] = (names, shape, vals, None)
        out += lists
        put(4)
        return st.lines(out + body), w

    def fname(self, sp):
        return "m" + sp["ext"]


# -- SP-data ------------------------------------------------------------------
class SPData(object):
    name = "spdata"
    reader = "read_spdata"
    # as written -> as read
    FIRST = [("Freq[Hz]", "freq", 1.0, "Hz"), ("Freq", "freq", 1.0, None), ("Frequency", "freq", 1.0, None), ("freq", "freq", 1.0, None), ("f [GHz]", "f", 1e9, "Hz"),
             ("time [us]", "time", 1e-6, "s"), ("Vg [mV]", "Vg", 1e-3, "V"), ("x", "x", 1.0, None), ("Pin [dBm]", "Pin", 1.0, "dBm")]
    COLS = [("Vd [mV]", "Vd", 1e-3, "V"), ("Id[uA]", "Id", 1e-6, "A"), ("Mean(Ig)", "Ig", 1.0, None), ("Std(Ig)", "s_Ig", 1.0, None), ("b1/a1 raw", "b11", 1.0, None),
            ("temp [C]", "temp", 1.0, "C"), ("count", "count", 1.0, None), ("P_out [kW]", "P_out", 1e3, "W"), ("Mean(Ud)", "Ud", 1.0, None), ("gain [dB]", "gain", 1.0, "dB"), ("pos [mm]", "pos", 1e-3, "m"), ("Cgs [fF]", "Cgs", 1e-15, "F"),
            ("Rd [kOhm]", "Rd", 1e3, "Ohm"), ("gm [mS]", "gm", 1e-3, "S"), ("L [nH]", "L", 1.0, "nH")]
    CPLX = [("V1", "", "V1", 1.0, None), ("V2", " [mV]", "V2", 1e-3, "V"), ("refl", "", "refl", 1.0, None), ("I1", "[uA]", "I1", 1e-6, "A")]

    def gen(self, r):
        first = r.choice(self.FIRST)
        k = r.choice([1, 2, 3, 6]) if r.random() < 0.97 else r.choice([80, 200])
        taken = set([first[1]])
        cols = []
        for c in r.sample(self.COLS, r.randint(0, 4)):
            if c[1] not in taken:
                taken.add(c[1])
                cols.append(dict(kind="real", col=list(c), rep=r.choice([1, 1, 1, 1, 2, 3]), ints=r.random() < 0.3))
        for c in r.sample(self.CPLX, r.randint(0, 2)):
            cols.append(dict(kind=r.choice(["ReIm", "MagArg"]), cplx=list(c)))
        if r.random() < 0.4:
            cols.append(dict(kind="matrix", how=r.choice(["ReIm", "MagArg", "real"]), name=r.choice(["S", "Y", "Cov"]), size=r.choice([[2, 2], [1, 2], [3, 3]])))
        if r.random() < 0.25:
            cols.append(dict(kind="text"))
        if not cols:
            cols.append(dict(kind="real", col=["y", "y", 1.0, None], rep=1, ints=False))
        r.shuffle(cols)
        if cols[0]["kind"] == "text":
            cols = cols[1:] + cols[:1]
        return dict(first=list(first), n=k, cols=cols, comments=comment_specs(r, taken=("Id",)), seed="%x" % r.getrandbits(48), ext=r.choice([".txt", ".dat", "", ".sp"]), pad=r.random() < 0.3)

    def text(self, sp):
        st = Style(sp["seed"], sp.get("plain"))
        r = random.Random("data-" + sp["seed"])
        w = Want()
        say_comments(w, sp["comments"])
        n = sp["n"]
        name, dim, mul, unit = sp["first"]
        x = sorted(set(round(r.uniform(-9, 90), r.randint(1, 5)) for _ in range(n)))
        n = len(x)
        head, columns = [name], [[repr(v) for v in x]]
        w.dims.append((dim, [v * mul for v in x], unit))

        def column(title, lo=None):
            t = [st.num(number(r) if lo is None else r.uniform(*lo)) for _ in range(n)]
            head.append(title)
            columns.append(t)
            return [float(a) for a in t]
        for c in sp["cols"]:
            if c["kind"] == "real":
                title, nm, mul, unit = c["col"]
                if c["ints"]:
                    reps = []
                    for _ in range(c["rep"]):
                        v = [r.randint(-999, 99999) if r.random() < 0.9 else r.randint(-2 ** 60, 2 ** 60) for _ in range(n)]
                        head.append(title)
                        columns.append(["%d" % a for a in v])
                        reps.append(v)
                else:
                    reps = [column(title) for _ in range(c["rep"])]
                if c["rep"] == 1:
                    w.vars[nm] = ((dim,), (n,), [v * mul if mul != 1 else v for v in reps[0]], unit)
                else:
                    w.vars[nm] = ((dim, "rep"), (n, c["rep"]), [reps[q][i] * mul if mul != 1 else reps[q][i] for i in range(n) for q in range(c["rep"])], unit)
            elif c["kind"] in ("ReIm", "MagArg"):
                base, suffix, nm, mul, unit = c["cplx"]
                if c["kind"] == "MagArg":
                    suffix, mul, unit = "", 1.0, None
                w.vars[nm] = ((dim,), (n,), [v * mul for v in self.pair(column, c["kind"], base, suffix)], unit)
            elif c["kind"] == "matrix":
                I, J = c["size"]
                got = {}
                for j in range(1, J + 1):
                    for i in range(1, I + 1):
                        e = "%s%d%d" % (c["name"], i, j)
                        got[i, j] = column(e) if c["how"] == "real" else self.pair(column, c["how"], e, "")
                w.vars[c["name"]] = ((dim, "i", "j"), (n, I, J), [got[i, j][q] for q in range(n) for i in range(1, I + 1) for j in range(1, J + 1)], None)
            else:
                v = [r.choice(["on", "off", "Thru", "open circuit", "a1b", "two  spaces", "OFF"]) for _ in range(n)]
                head.append("state")
                columns.append(v)
                w.vars["state"] = ((dim,), (n,), v, None)
        out = ["!" + r.choice(["", " "]) + comment_line(c)[0] for c in sp["comments"]]
        pad = (lambda t: " %s " % t) if sp["pad"] and not sp.get("plain") else (lambda t: t)
        out.append("\t".join(pad(h) for h in head))
        for i in range(n):
            out.append("\t".join(c[i] if c[i][:1].isalpha() else pad(c[i]) for c in columns))
        return st.lines(out), w

    def pair(self, column, kind, base, suffix):
        if kind == "ReIm":
            a, b = column("Re(%s)%s" % (base, suffix)), column("Im(%s)%s" % (base, suffix))
            return [complex(x, y) for x, y in zip(a, b)]
        a, b = column("Mag(%s)%s" % (base, suffix)), column("Arg(%s)%s" % (base, suffix), (-360, 360))
        return [polar("MA", x, y) for x, y in zip(a, b)]

    def fname(self, sp):
        return "m" + sp["ext"]


# -- MDIF ---------------------------------------------------------------------
class Mdif(object):
    name = "mdif"
    reader = "read_mdif"

    def gen(self, r):
        cols = []
        for n in r.sample(["Rn", "NFmin", "nf", "Sopt", "mode", "cnt"], r.randint(0, 4)):
            cols.append(dict(name=n, kind=dict(mode="string", cnt="integer", Sopt="complex").get(n, "real"), size=None))
        if r.random() < 0.6:
            cols.append(dict(name="S", kind=r.choice(["complex", "complex", "real"]), size=r.choice([[2, 2], [1, 1], [3, 3], [1, 2]]) if r.random() < 0.95 else r.choice([[2, 11], [10, 1], [11, 2]]), mixed=r.random() < 0.3))
        if r.random() < 0.3:
            cols.append(dict(name="PortZ", kind=r.choice(["complex", "real"]), size=[r.choice([2, 3, 3, 2, 11])], mixed=r.random() < 0.3))
        if not cols:
            cols.append(dict(name="y", kind="real", size=None))
        r.shuffle(cols)
        for c in cols:
            if c["size"] and c["size"] != [1, 1] and r.random() < 0.15:
                c["gap"] = True         # the first element is not in the file
        nvars = r.choice([0, 1, 1, 2])
        return dict(sweep=r.choice(["freq", "Vd", "SWEEP.Vd", "x.y"]), n=r.choice([1, 2, 3, 5]) if r.random() < 0.97 else r.choice([60, 150]), cols=cols, blocks=r.choice([1, 1, 2, 3, 3, 12]) if nvars else 1,
                    vars=r.sample(["Vg", "SWEEP.Pin", "temp"], nvars), attribs=r.sample(["Z0", "Tamb"], r.choice([0, 0, 1, 2])), split=r.choice([1, 1, 2, 3]),
                    bname=r.choice(["ACDATA", "SP1.SP", "b1"]), comments=[c for c in comment_specs(r, taken=("Vgs",)) if c["kind"] in ("free", "number", "text")],
                    quote=r.random() < 0.3, tail=r.choice([0, 0, 1, 2]), seed="%x" % r.getrandbits(48), ext=r.choice([".mdif", ".mdf", ".txt"]))

    def text(self, sp):
        st = Style(sp["seed"], sp.get("plain"))
        r = random.Random("data-" + sp["seed"])
        w = Want()
        w.blockname = sp["bname"]
        x = sorted(set(round(r.uniform(0, 40), 3) for _ in range(sp["n"])))
        n, B = len(x), sp["blocks"]
        clean = lambda s: s[6:] if s.startswith("SWEEP.") else s
        dim = clean(sp["sweep"])
        w.dims.append((dim, x, None))
        titles = ["%s(real)" % sp["sweep"]]
        elems = []      # (column, index or None)
        for c in sp["cols"]:
            idx = [None] if c["size"] is None else [(i,) for i in range(1, c["size"][0] + 1)] if len(c["size"]) == 1 else \
                [(i, j) for i in range(1, c["size"][0] + 1) for j in range(1, c["size"][1] + 1)]
            if c.get("gap"):
                idx = idx[1:]
            if c.get("mixed"):
                idx = idx[::-1]
            for i in idx:
                elems.append((c, i))
                titles.append("%s%s(%s)" % (c["name"], "" if i is None else "[%s]" % ",".join(map(str, i)), c["kind"]))
        # the columns over several header lines, the rows alike
        cuts = sorted(r.sample(range(1, len(titles)), min(sp["split"] - 1, len(titles) - 1)))
        parts = [range(a, b) for a, b in zip([0] + cuts, cuts + [len(titles)])]
        sep = st.sep
        out = []
        got = {}
        at = {}
        pre = ["!" + comment_line(c)[0] for c in sp["comments"]]
        for b in range(B):
            if b == 0:
                out += pre
            for v in sp["vars"]:
                t = "%r" % round(r.uniform(-5, 5), 3)
                at.setdefault(clean(v), []).append(float(t))
                out.append("VAR %s(real)%s=%s%s" % (v, r.choice(["", " "]), r.choice(["", " "]), t))
            out.append("BEGIN " + sp["bname"])
            for v in sp["attribs"]:
                t = "%r" % round(r.uniform(-5, 5), 3)
                at.setdefault(v, []).append(float(t))
                out.append("# %s(real) = %s" % (v, t))
            for p in parts:
                out.append("%" + r.choice([" ", ""]) + sep.join(titles[i] for i in p))
            for q in range(n):
                cells = [[repr(x[q])]]
                for c, i in elems:
                    if c["kind"] == "complex":
                        t = [st.num(number(r)), st.num(number(r))]
                        v = complex(float(t[0]), float(t[1]))
                    elif c["kind"] == "real":
                        t = [st.num(number(r))]
                        v = float(t[0])
                    elif c["kind"] == "integer":
                        t = ["%d" % (r.randint(-99, 999999) if r.random() < 0.8 else r.randint(-2 ** 60, 2 ** 60))]
                        v = int(t[0])
                    else:
                        v = r.choice(["lin", "sat", "off", "x_1", "Sat", "A", "p=1"])
                        t = ['"%s"' % v]
                    if sp["quote"] and c["kind"] != "string" and not sp.get("plain"):
                        t = ['"%s"' % y for y in t]
                    cells.append(t)
                    got.setdefault((c["name"], i), {})[b, q] = v
                for p in parts:
                    out.append(sep.join(y for i in p for y in cells[i]))
            out.append("END")
        # remarks after the last block: none of the data's business
        out += ["! end of file", "! rem"][:sp.get("tail", 0)]
        for c in sp["comments"]:
            line, v = comment_line(c)
            w.comments.append(line.strip())
            if v:
                w.vars[v[0]] = ((), (), [v[1]], v[2])
        many = B > 1
        for c in sp["cols"]:
            size = [] if c["size"] is None else c["size"]
            idx = [None] if not size else [(i,) for i in range(1, size[0] + 1)] if len(size) == 1 else [(i, j) for i in range(1, size[0] + 1) for j in range(1, size[1] + 1)]
            dims = ["i", "j"][2 - len(size):]
            if c.get("gap"):
                for i in idx[1:]:
                    w.vars["%s[%s]" % (c["name"], ",".join(map(str, i)))] = ((dim, "INDEX") if many else (dim,), (n, B) if many else (n,), [got[c["name"], i][b, q] for q in range(n) for b in range(B)], None)
                continue
            if many:
                w.vars[c["name"]] = ((dim, "INDEX") + tuple(dims), (n, B) + tuple(size), [got[c["name"], i][b, q] for q in range(n) for b in range(B) for i in idx], None)
            else:
                w.vars[c["name"]] = ((dim,) + tuple(dims), (n,) + tuple(size), [got[c["name"], i][0, q] for q in range(n) for i in idx], None)
        for v in sp["vars"]:
            if many:
                w.vars[clean(v)] = (("INDEX",), (B,), at[clean(v)], None)
            else:
                w.only_dims[clean(v)] = at[clean(v)]
        for v in sp["attribs"]:
            w.vars[v] = (("INDEX",), (B,), at[v], None) if many else ((), (), at[v], None)
        return st.lines(out), w

    def fname(self, sp):
        return "m" + sp["ext"]


FOREIGN = dict((f.name, f) for f in (Touchstone(), Citi(), SPData(), Mdif()))


def as_date(v):
    t = datetime.datetime.strptime(v[1] + " " + (v[2] or "00:00:00"), "%Y-%m-%d %H:%M:%S")
    return t
