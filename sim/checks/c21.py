"""Figures on paper: what is saved is every open figure, complete, or an error."""
import errno
import io
import os
import re
import shutil
import tempfile
import zlib

from base import BaseCheck
from savecheck import exc_text, sample
from simenv import Plan, Violation, WRITE, benign_plan, hard_faults, total_written

BAD = "$\\frac{1$"                  # text that cannot be drawn
SIZES = [(1.5, 1.0), (2.0, 1.0), (1.0, 2.0), (2.5, 1.5), (1.25, 1.25), (3.0, 0.75), (2.0, 2.25)]
PROJ = [None, None, "db", "mag", "deg", "cplx", "real", "groupdelay"]


def pdf_pages(data):
    """[(width, height, drawing instructions)] of a PDF file, by its own table
    of objects; complains when the file is not complete."""
    if not data.startswith(b"%PDF-"):
        raise ValueError("no PDF header")
    m = re.search(rb"startxref\s+(\d+)\s+%%EOF\s*$", data)
    if not m:
        raise ValueError("no end-of-file mark")
    pos = int(m.group(1))
    if data[pos:pos + 4] != b"xref":
        raise ValueError("no cross-reference table where the end of the file says")
    lines = data[pos:].split(b"\n")
    first, n = map(int, lines[1].split())
    objs = {}
    for i in range(n):
        off, _, kind = lines[2 + i].split()
        if kind == b"n":
            objs[first + i] = int(off)

    def obj(num):
        head = b"%d 0 obj" % num
        off = objs[num]
        if data[off:off + len(head)] != head:
            raise ValueError("object %d is not where the table says" % num)
        end = data.find(b"endobj", off)
        if end < 0:
            raise ValueError("object %d has no end" % num)
        return data[off + len(head):end]

    def ref(text, key):
        m = re.search(re.escape(key) + rb"\s+(\d+)\s+0\s+R", text)
        if not m:
            raise ValueError("%r missing" % key)
        return int(m.group(1))

    def stream(num):
        b = obj(num)
        i = b.index(b"stream\n") + 7
        m = re.search(rb"/Length\s+(\d+)(\s+0\s+R)?", b[:i])
        length = int(m.group(1))
        if m.group(2):
            length = int(obj(length).split()[0])
        off = objs[num] + len(b"%d 0 obj" % num) + i
        raw = data[off:off + length]
        if len(raw) != length or not data[off + length:].lstrip().startswith(b"endstream"):
            raise ValueError("stream %d is cut off" % num)
        return zlib.decompress(raw) if b"FlateDecode" in b[:i] else raw

    trailer = data[data.index(b"trailer", pos):]
    pages = obj(ref(obj(ref(trailer, b"/Root")), b"/Pages"))
    kids = re.search(rb"/Kids\s*\[(.*?)\]", pages, re.S).group(1)
    out = []
    for k in re.findall(rb"(\d+)\s+0\s+R", kids):
        p = obj(int(k))
        box = [float(x) for x in re.search(rb"/MediaBox\s*\[(.*?)\]", p, re.S).group(1).split()]
        out.append((round(box[2] - box[0], 3), round(box[3] - box[1], 3), stream(ref(p, b"/Contents"))))
    for num in sorted(objs):
        obj(num)
    return out


def png_pixels(data):
    from PIL import Image
    import numpy as np
    im = Image.open(io.BytesIO(data))
    im.load()
    return np.asarray(im)


class Check(BaseCheck):
    id = "C21"
    level = "fault_enumeration"
    runs = {"quick": 160, "thorough": 4000}
    per_kind = {"quick": 6, "thorough": 30}
    probes = ("pdf_clean", "pdf_many_figures", "pdf_over_existing", "png_clean", "png_transparent", "cannot_be_drawn",
              "not_a_pdf_name", "failed_as_it_must", "disk_full", "short_or_interrupted_write", "retry_after_failure")
    real = BaseCheck.real + ["matplotlib 3.8 (Agg and PDF back ends), Pillow"]
    assumptions = BaseCheck.assumptions + ["pages are compared with what matplotlib itself draws for the same figures in memory"]

    def prepare(self):
        self.conf = tempfile.mkdtemp(prefix="hfsim-mpl-")
        src = os.environ.get("MPLCONFIGDIR", "")
        for n in os.listdir(src) if os.path.isdir(src) else ():
            if n.startswith("fontlist"):
                shutil.copy(os.path.join(src, n), self.conf)
        os.environ["MPLCONFIGDIR"] = self.conf

    def finish(self):
        shutil.rmtree(self.conf, ignore_errors=True)

    def warm(self):
        import matplotlib.pyplot as plt
        import hftools.plotting.helper as h
        self.h = h
        from PIL import Image
        Image.init()
        fig = plt.figure(figsize=(2, 2))
        fig.text(0.1, 0.1, "$x^2$")
        plt.subplot(211)
        plt.plot([1, 2, 3])
        plt.subplot(212, projection="db")
        for fmt in ("pdf", "png"):
            fig.savefig(io.BytesIO(), format=fmt)
        plt.close("all")

    def scenario(self, r, tier):
        nums = sorted(r.sample(range(1, 14), r.choice([1, 1, 2, 2, 3, 3, 4])))
        order = list(nums)
        r.shuffle(order)
        what = r.choice(["pdf", "pdf", "pdf", "png"])
        sizes = r.sample(SIZES, len(nums))
        figs = [dict(num=n, size=list(s), proj=r.choice(PROJ), y=[round(r.uniform(-0.7, 0.7), 3) for _ in range(r.randint(2, 6))],
                     alpha=r.choice([None, None, 0.5, 1.0, 0]), label=r.choice(["", "gain", u"f\u00f6rst\u00e4rkning"]))
                for n, s in zip(order, sizes)]
        if r.random() < 0.2:
            f = r.choice(figs)
            f["blank"], f["label"] = True, ""
        elif figs and r.random() < 0.15:
            r.choice(figs)["label"] = BAD
        name = r.choice(["all.pdf", "all.pdf", "All.PDF", "a b.pdf", "x.y.Pdf"]) if what == "pdf" else "fig.png"
        if what == "pdf" and r.random() < 0.06:
            name = r.choice(["all.png", "all", "pdf", "all.pdf.txt"])
        return dict(what=what, figs=figs, name=name, old=r.choice([None, None, 40, 60000]), other=r.random() < 0.5,
                    transparent=r.random() < 0.7, dpi=r.choice([None, None, 55, 72]), k=self.per_kind[tier])

    def shrink(self, sc):
        f = sc["figs"]
        for i in range(len(f)):
            if len(f) > 1:
                yield dict(sc, figs=f[:i] + f[i + 1:])
        for i in range(len(f)):
            for key, v in (("proj", None), ("alpha", None), ("label", ""), ("y", [0.1, 0.2])):
                if f[i][key] != v:
                    yield dict(sc, figs=f[:i] + [dict(f[i], **{key: v})] + f[i + 1:])
        for key, v in (("old", None), ("other", False)):
            if sc[key] != v:
                yield dict(sc, **{key: v})

    # ------------------------------------------------------------------
    def draw(self, sc):
        import matplotlib.pyplot as plt
        import numpy as np
        from hftools.dataset import DimSweep, hfarray
        plt.close("all")
        out = {}
        for f in sc["figs"]:
            fig = plt.figure(f["num"], figsize=f["size"], dpi=40)
            fig.patch.set_alpha(f["alpha"])
            out[f["num"]] = fig
            if f.get("blank"):
                continue
            ax = plt.subplot(111, **({"projection": f["proj"]} if f["proj"] else {}))
            y = np.array(f["y"])
            if f["proj"]:
                dim = DimSweep("freq", np.arange(1, len(y) + 1) * 1e9, unit="Hz")
                y = hfarray(y + 0.3j * y[::-1], dims=(dim,))
            ax.plot(y)
            if f["label"]:
                fig.text(0.1, 0.1, f["label"])
        return out

    def state(self, figs):
        import matplotlib.pyplot as plt
        return (sorted(plt.get_fignums()), plt.gcf().number if figs else None,
                [(n, f.patch.get_alpha(), tuple(f.get_size_inches()), f.get_dpi(), len(f.axes), sum(len(a.lines) for a in f.axes))
                 for n, f in sorted(figs.items())])

    def reference(self, sc, figs):
        from matplotlib.backends.backend_pdf import PdfPages
        buf = io.BytesIO()
        if sc["what"] == "pdf":
            pdf = PdfPages(buf)
            for n in sorted(figs):
                figs[n].savefig(pdf, format="pdf")
            pdf.close()
            return pdf_pages(buf.getvalue())
        fig = figs[sc["figs"][-1]["num"]]
        alpha = fig.patch.get_alpha()
        if sc["transparent"]:
            fig.patch.set_alpha(0)
        fig.savefig(buf, format="png", **self.kw(sc))
        fig.patch.set_alpha(alpha)
        return png_pixels(buf.getvalue())

    def save(self, sc, fname):
        if sc["what"] == "pdf":
            self.h.save_all_figures_to_pdf(fname)
        elif sc["transparent"]:
            self.h.savefig(fname, facetransparent=True, **self.kw(sc))
        else:
            self.h.savefig(fname, **self.kw(sc))

    def kw(self, sc):
        return {"dpi": sc["dpi"]} if sc.get("dpi") else {}

    def verify(self, sc, fname, ref, when, plan=None):
        try:
            with open(fname, "rb") as f:
                data = f.read()
            got = pdf_pages(data) if sc["what"] == "pdf" else png_pixels(data)
        except Exception as e:
            raise Violation("not-complete", "%s the file cannot be read: %s" % (when, exc_text(e)), plan)
        if sc["what"] == "png":
            if got.shape != ref.shape or (got != ref).any():
                raise Violation("wrong-picture", "%s the picture (%r) is not the one drawn (%r)" % (when, got.shape, ref.shape), plan)
            return
        if len(got) != len(ref):
            raise Violation("wrong-pages", "%s %d pages for %d open figures" % (when, len(got), len(ref)), plan)
        for i, (a, b) in enumerate(zip(got, ref)):
            if a[:2] != b[:2]:
                raise Violation("wrong-pages", "%s page %d is %r instead of %r: not the figure that belongs there" % (when, i + 1, a[:2], b[:2]), plan)
            if a[2] != b[2]:
                raise Violation("wrong-picture", "%s page %d does not show its figure" % (when, i + 1), plan)

    def run(self, run, sc):
        rng = run.derived("c21")
        run.clean()
        fname = run.path(sc["name"])
        if sc["old"]:
            with open(fname, "wb") as f:
                f.write(b"old " * sc["old"])
        if sc["other"]:
            with open(run.path("other.pdf"), "wb") as f:
                f.write(b"another file")
        start = run.snapshot()
        figs = self.draw(sc)
        bad = any(f["label"] == BAD for f in (sc["figs"] if sc["what"] == "pdf" else sc["figs"][-1:]))
        wrong = sc["what"] == "pdf" and not sc["name"].lower().endswith(".pdf")
        ref = None
        if not bad:
            # drawing settles the labels of the axes: the first picture is not the reference
            self.reference(sc, figs)
            ref = self.reference(sc, figs)
        before = self.state(figs)

        def same(when, plan=None):
            now = self.state(figs)
            if now != before:
                raise Violation("figure-changed", "%s the open figures are %r, they were %r" % (when, now, before), plan)

        def others(when, plan=None):
            now = run.snapshot()
            for n in set(start) | set(now):
                if n != sc["name"] and start.get(n) != now.get(n):
                    raise Violation("other-file", "%s %r is changed" % (when, n), plan)

        def closed(out, when, plan=None):
            if out.leaked:
                raise Violation("left-open", "%s %r is still open" % (when, out.leaked_paths), plan)

        clean = run.execute(lambda: self.save(sc, fname))
        if wrong:
            if not isinstance(clean.exc, ValueError):
                raise Violation("accepts-name", "a name without .pdf must be refused, got %s" % exc_text(clean.exc))
            if run.snapshot() != start:
                raise Violation("other-file", "a refused name changes files")
            same("after a refused name")
            run.stats.probe("not_a_pdf_name")
            return
        if bad:
            if clean.exc is None:
                raise Violation("silent", "a figure cannot be drawn, yet the save is acknowledged")
            closed(clean, "after a figure that cannot be drawn")
            same("after a figure that cannot be drawn")
            others("after a figure that cannot be drawn")
            run.stats.probe("cannot_be_drawn")
            return
        if clean.exc is not None:
            raise Violation("save-raises", "saving figures failed: %s" % exc_text(clean.exc))
        closed(clean, "after the save")
        self.verify(sc, fname, ref, "after the save")
        same("after the save")
        others("after the save")
        run.stats.probe(sc["what"] + "_clean")
        if sc["what"] == "pdf":
            run.stats.probe("pdf_many_figures", len(figs) > 1)
            run.stats.probe("pdf_over_existing", bool(sc["old"]))
        else:
            run.stats.probe("png_transparent", sc["transparent"])

        cand = sample(rng, hard_faults(clean.log, rng), sc["k"])
        total = total_written(clean.log)
        cand += [Plan(budget=rng.randrange(total)) for _ in range(2)]
        writes = [r for r in clean.log if r[1] == WRITE]
        cand.append(Plan(dead=[rng.choice(writes)[0], errno.EIO]))
        for plan in run.plans("fault", cand):
            run.restore(start)
            out = run.execute(lambda: self.save(sc, fname), plan)
            when = "after %s" % plan.describe()
            if not out.fired:
                continue
            if out.exc is None:
                raise Violation("silent", "%s the save is acknowledged" % when, plan)
            if not isinstance(out.exc, EnvironmentError):
                raise Violation("wrong-error", "%s the error is %s" % (when, exc_text(out.exc)), plan)
            closed(out, when, plan)
            same(when, plan)
            others(when, plan)
            run.stats.probe("failed_as_it_must")
            run.stats.probe("disk_full", plan.budget is not None)
            out = run.execute(lambda: self.save(sc, fname))
            if out.exc is not None:
                raise Violation("no-recovery", "%s a second save failed: %s" % (when, exc_text(out.exc)), plan)
            self.verify(sc, fname, ref, "second save %s" % when, plan)
            run.stats.probe("retry_after_failure")
        for plan in run.plans("benign", [benign_plan(clean.log, rng) for _ in range(2)]):
            run.restore(start)
            out = run.execute(lambda: self.save(sc, fname), plan)
            when = "with %s" % plan.describe()
            if out.exc is not None:
                raise Violation("save-raises", "%s: %s" % (when, exc_text(out.exc)), plan)
            closed(out, when, plan)
            self.verify(sc, fname, ref, when, plan)
            same(when, plan)
            if out.fired:
                run.stats.probe("short_or_interrupted_write")
        if not run.stats.samples:
            run.stats.samples.append({"what": sc["what"], "figures": [f["num"] for f in sc["figs"]], "operations": len(clean.log)})
