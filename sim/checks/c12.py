"""Files and results depend on the data only: not on the hash seed, the locale,
the time zone, the clock or the memory layout of the interpreter."""
import os
import shutil
import tempfile

import gen
import simenv
import zygote
from base import BaseCheck
from formats import FORMATS
from simenv import Plan, Run, Violation

CLOCKS = [0, 86399 * 10 ** 9, simenv.T0, 1330473599 * 10 ** 9, 2147483648 * 10 ** 9, 4102444799 * 10 ** 9, 1414288799 * 10 ** 9]


def brief(d):
    """A dump as short strings that can be compared and shown."""
    return [repr(x) for x in gen.without_paths(d)]


def remote_save(fmt, spec, root, clock):
    F = FORMATS[fmt]
    run = Run(root, "zygote")
    db = gen.build(spec)
    fname = os.path.join(root, F.fname(spec))
    out = run.execute(lambda: F.save(db, fname, spec), Plan(clock=clock))
    if out.exc is not None:
        return "%s: %s" % (type(out.exc).__name__, str(out.exc).replace(root, "ROOT")), None, run.stats_tuple()
    with open(fname, "rb") as f:
        return None, f.read(), run.stats_tuple()


def remote_read(fmt, names, root, via, clock, dirseed, kw):
    import hftools.file_formats as ff
    run = Run(root, "zygote")
    f = {"touchstone": ff.read_touchstone, "citi": ff.read_citi, "spdata": ff.read_spdata, "mdif": ff.read_mdif}.get(fmt, ff.read_hdf5)
    if via == "read_data":
        f = ff.read_data
    arg = names[0] if len(names) == 1 else names
    if via == "pattern":
        arg = os.path.join(os.path.dirname(names[0]), "[fF]*")
    kw = {} if fmt.startswith("hdf5") else dict(kw, verbose=False)
    out = run.execute(lambda: f(arg, **kw), Plan(clock=clock, dirmode=1, dirseed=dirseed))
    if out.exc is not None:
        return "%s: %s" % (type(out.exc).__name__, str(out.exc).replace(root, "ROOT")), None, run.stats_tuple()
    return None, brief(gen.dump(out.value)), run.stats_tuple()


class Check(BaseCheck):
    id = "C12"
    level = "exploration"
    runs = {"quick": 400, "thorough": 15000}
    probes = ("save_compared", "read_compared", "non_ascii_comments", "merged", "clock_stamp")
    stubs = BaseCheck.stubs + ["hash seed, locale, time zone and start of the heap: five interpreters with different settings, address randomisation off"]

    def prepare(self):
        self.dir = tempfile.mkdtemp(prefix="hfzyg-")
        base = int(os.environ.get("VERIF_SEED", "1"))
        ascii_env = {"LC_ALL": "C", "LANG": None, "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
        self.zyg = []
        envs = [("utf8", {"PYTHONHASHSEED": "0"}, 10),
                ("ascii", dict(ascii_env, PYTHONHASHSEED=str(1 + base * 7), TZ="America/New_York"), 1003),
                ("posix", dict(ascii_env, LC_ALL="POSIX", PYTHONHASHSEED=str(2 + base * 11), TZ="Asia/Kolkata"), 30011),
                ("plain", {"PYTHONHASHSEED": str(3 + base * 13), "TZ": "Pacific/Apia", "PYTHONMALLOC": "malloc"}, 4),
                ("latin", {"PYTHONHASHSEED": str(4 + base * 17), "PYTHONIOENCODING": "latin-1", "TZ": "Europe/Stockholm", "PYTHONUTF8": "1"}, 500)]
        for name, env, junk in envs:
            self.zyg.append(zygote.Zygote(name, env, junk, self.dir, "c12"))
        for z in self.zyg:
            z.wait()

    def finish(self):
        for z in self.zyg:
            z.stop()
        shutil.rmtree(self.dir, ignore_errors=True)

    def scenario(self, r, tier):
        fmt = r.choice(["touchstone", "citi", "spdata", "spdata", "mdif", "mdif", "hdf5", "hdf5v1"])
        s0 = FORMATS[fmt].gen(r)
        n = r.choice([1, 2, 3]) if not fmt.startswith("hdf5") else 1
        if any(len(d["vals"]) > 1 for d in s0["dims"][1:]):
            n = 1
        extra = None
        if fmt in ("spdata", "mdif") and r.random() < 0.5:
            # variables over several sets of dimensions: several blocks in one file
            extra = r.sample(["alfa", "bravo", "charlie", "delta", "echo"], r.randint(2, 4))
            if r.random() < 0.4:
                extra = ["-" + x for x in extra]     # dimensions without any variable
        return dict(fmt=fmt, spec=s0, n=n, extra=extra, clocks=[r.choice(CLOCKS) for _ in range(5)],
                    via=r.choice(["read_data", "reader", "pattern"]) if not fmt.startswith("hdf5") else "reader", dirseed=r.randrange(1, 2 ** 40),
                    names=r.choice([["f%d", "f%02d", "f%03d"], ["f%d", "F%d", "f0%d"], ["f%d_", "f%d-", "f%d "], ["f1_%d", "f01_%d", "f1_0%d"]]), kw=r.choice([{}, {}, {"make_matrix": True}]))

    def shrink(self, sc):
        if sc["n"] > 1:
            yield dict(sc, n=sc["n"] - 1)
        if sc["extra"]:
            yield dict(sc, extra=None)
        for s in FORMATS[sc["fmt"]].shrink(sc["spec"]):
            yield dict(sc, spec=s)

    def spec(self, sc):
        """What is saved: with extra, more dimensions of one point each used by variables of their own."""
        if not sc["extra"]:
            return sc["spec"]
        s = dict(sc["spec"], dims=list(sc["spec"]["dims"]), vars=list(sc["spec"]["vars"]))
        for k, nm in enumerate(sc["extra"]):
            if nm[0] == "-":
                s["dims"].append(dict(name=nm[1:], vals=[1.0 + k, 2.0 + k, 5.0], fmt=None))
                s["spare"] = s.get("spare", []) + [nm[1:]]
                continue
            s["dims"].append(dict(name=nm, vals=[1.0 + k, 2.0 + k, 5.0], fmt=None))
            s["vars"].append(dict(name="v_" + nm, dims=[nm], kind="real", seed=k, fmt=None))
        return s

    def run(self, run, sc):
        fmt = sc["fmt"]
        spec = self.spec(sc)
        F = FORMATS[fmt]
        run.clean()
        if any(ord(c) > 127 for t in spec.get("comments") or [] for c in t):
            run.stats.probe("non_ascii_comments")
        # saving
        results = []
        for z, clock in zip(self.zyg, sc["clocks"]):
            d = run.path(z.name)
            os.mkdir(d)
            e, b, st = z.call("remote_save", fmt, spec, d, clock)
            results.append((z.name, e, b))
            run.merge_tuple(st)
            if fmt == "mdif" and b and len(results) > 1 and b != results[0][2]:
                run.stats.probe("clock_stamp")
        n0, e0, b0 = results[0]
        for name, e, b in results[1:]:
            if e != e0:
                raise Violation("save-environment", "saving gives %s in the environment %r but %s in %r" % (e or "no error", name, e0 or "no error", n0))
            if e is None and not fmt.startswith("hdf5"):
                if self.strip(fmt, b) != self.strip(fmt, b0):
                    la, lb = self.strip(fmt, b), self.strip(fmt, b0)
                    i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
                    raise Violation("file-environment", "the saved file differs between the environments %r and %r: line %d is %.200r and %.200r" %
                                    (name, n0, i + 1, (la[i:i + 1] or [b""])[0], (lb[i:i + 1] or [b""])[0]))
        run.stats.probe("save_compared")
        run.stats.note(fmt, b0 if not fmt.startswith("hdf5") else None)
        run.stats.traces.add("save-%s-%s" % (fmt, simenv.hash_int(b0)))
        if e0 is not None:
            if not sc["extra"] or fmt == "spdata":
                raise Violation("save-raises", e0)
            return
        # reading: the same files everywhere
        names = []
        for k in range(sc["n"]):
            # names that are alike but for the case or leading zeros
            fn = run.path("%s_%s" % (sc["names"][k] % 1, F.fname(spec)))
            if k == 0:
                with open(fn, "wb") as f:
                    f.write(b0)
            else:
                s2 = dict(spec, vars=[dict(v, seed="%s-%d" % (v["seed"], k)) for v in spec["vars"]])
                run.must(lambda: F.save(gen.build(s2), fn, s2))
            names.append(fn)
        if sc["n"] > 1:
            run.stats.probe("merged")
        results = []
        for i, (z, clock) in enumerate(zip(self.zyg, sc["clocks"])):
            e, b, st = z.call("remote_read", fmt, names, run.root, sc["via"], clock, sc["dirseed"] + i, sc["kw"])
            results.append((z.name, e, b))
            run.merge_tuple(st)
        n0, e0, d0 = results[0]
        for name, e, d in results[1:]:
            if e != e0:
                raise Violation("read-environment", "reading gives %s in the environment %r but %s in %r" % (e or "no error", name, e0 or "no error", n0))
            if d != d0:
                raise Violation("result-environment", "what is read differs between the environments %r and %r: %s" % (name, n0, gen.dump_diff(d, d0)))
        if e0 is not None and not sc["extra"]:
            raise Violation("read-raises", e0)
        run.stats.probe("read_compared")
        run.stats.note(d0)
        run.stats.traces.add("read-%s-%s" % (fmt, simenv.hash_int(repr(d0))))
        if not run.stats.samples:
            run.stats.samples.append({"format": fmt, "spec": spec, "environments": [z.name for z in self.zyg], "clocks": sc["clocks"]})

    def strip(self, fmt, b):
        """Lines of the file; the creation stamp of MDIF follows the clock."""
        return [x for x in b.split(b"\n") if not (fmt == "mdif" and x.startswith(b"!Created"))]
