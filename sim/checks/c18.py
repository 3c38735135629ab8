"""Walking directory trees: everything once, and failures as the caller asked."""
import errno
import fnmatch
import json
import os
import warnings

import simenv
from base import BaseCheck
from savecheck import exc_text, sample
from simenv import Plan, Violation, random_schedule

NAMES = ["a", "b", "run1", "run10", "run2", "x.txt", "y.txt", "z.s2p", "data", u"m\xe4t", ".hidden", "deep", "n.s2p", "with space", "[odd]", "c.txt", "Run3", "X.TXT", "link", "link.txt", "Y.txt"]


class Check(BaseCheck):
    id = "C18"
    level = "fault_enumeration"
    runs = {"quick": 500, "thorough": 20000}
    per = {"quick": 5, "thorough": 25}
    probes = ("walk", "walkdirs", "walkfiles", "listdir", "files", "dirs", "pattern", "strict_raised", "warned", "ignored", "vanished", "several_failures", "empty_tree", "links", "invalid_policy")

    def tree(self, r, depth=0):
        out = {}
        for n in r.sample(NAMES, r.choice([0, 1, 2, 3, 5] if depth else [0, 2, 3, 5, 7])):
            if n.startswith("link"):
                # a link to a file, to nothing, to a directory elsewhere, and a pipe
                k = r.choice(["file", "nothing", "dir", "pipe"])
                out[n] = dict(self.tree(r, 4), **{"@": "dir"}) if k == "dir" else k
            elif "." not in n[1:] and depth < 4 and r.random() < 0.7:
                out[n] = self.tree(r, depth + 1)
            else:
                out[n] = None
        return out

    def scenario(self, r, tier):
        return dict(tree=self.tree(r), pattern=r.choice([None, None, "*.txt", "run*", "*", "?", "*.s2p", "nothing", "R*", "*.TXT", "[!r]*", "l*", "[[]odd]"]), relative=r.random() < 0.3,
                    vanish=r.random() < 0.35, k=self.per[tier])

    def shrink(self, sc):
        def cut(t):
            for k in sorted(t):
                if k == "@":
                    continue
                yield dict((a, b) for a, b in t.items() if a != k)
                if t[k] and isinstance(t[k], dict):
                    for s in cut(t[k]):
                        yield dict(t, **{k: s})
        for t in cut(sc["tree"]):
            yield dict(sc, tree=t)
        for k, v in (("pattern", None), ("vanish", False), ("relative", False)):
            if sc[k] != v:
                yield dict(sc, **{k: v})

    def make(self, run, tree, at=None):
        if at is None:
            at = run.path("top")
            os.mkdir(run.path("elsewhere"))
        if "@" in tree:
            real = run.path("elsewhere", str(len(os.listdir(run.path("elsewhere")))))
            os.symlink(real, at)
            at = real
        os.mkdir(at)
        for n, t in tree.items():
            p = os.path.join(at, n)
            if n == "@":
                continue
            if t == "file":
                real = run.path("elsewhere", str(len(os.listdir(run.path("elsewhere")))))
                open(real, "w").close()
                os.symlink(real, p)
            elif t == "nothing":
                os.symlink(run.path("not there"), p)
            elif t == "pipe":
                os.mkfifo(p)
            elif t is None:
                with open(p, "w") as f:
                    f.write(n)
            else:
                self.make(run, t, p)

    def entries(self, tree, rel=""):
        """[(relative name, is directory)] of everything below, None for neither file nor directory."""
        out = []
        for n in tree:
            if n == "@":
                continue
            p = os.path.join(rel, n) if rel else n
            out.append((p, None if tree[n] in ("nothing", "pipe") else isinstance(tree[n], dict)))
            if isinstance(tree[n], dict):
                out += self.entries(tree[n], p)
        return out

    def expected(self, tree, method, pattern, lost=()):
        """What the method must give when the directories in lost cannot be listed."""
        out = []
        for p, isdir in self.entries(tree):
            if any(p != d and p.startswith(d + "/") for d in lost) or "" in lost:
                continue
            if method in ("listdir", "files", "dirs") and "/" in p:
                continue
            if method in ("walkdirs", "dirs") and not isdir or method in ("walkfiles", "files") and isdir is not False:
                continue
            if pattern is None or fnmatch.fnmatch(os.path.basename(p), pattern):
                out.append(p)
        return sorted(out)

    def run(self, run, sc):
        from hftools import path
        from hftools._external.path import TreeWalkWarning
        rng = run.derived("c18")
        tree = sc["tree"]
        run.clean()
        self.make(run, tree)
        topname = "top" if sc["relative"] else run.path("top")
        seen = []

        def call(method, errors=None):
            def fn():
                got = []
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    try:
                        args = [] if sc["pattern"] is None else [sc["pattern"]]
                        kw = {} if errors is None else dict(errors=errors)
                        for x in getattr(path(topname), method)(*args, **kw):
                            if not isinstance(x, path):
                                raise Violation("not-a-path", "%s gives %r" % (method, type(x)))
                            got.append(os.path.relpath(x, topname))
                    finally:
                        seen[:] = [x for x in w if issubclass(x.category, TreeWalkWarning)]
                return got
            return fn

        def check(method, got, lost, plan):
            want = self.expected(tree, method, sc["pattern"], lost)
            if sorted(got) != want:
                extra = [x for x in got if x not in want or got.count(x) > 1]
                raise Violation("wrong-entries", "%s(%r): missing %r, unexpected or twice %r" % (method, sc["pattern"], [x for x in want if x not in got][:5], extra[:5]), plan)
            if method == "walk" or method == "walkdirs":
                # a directory comes just before all that is in it
                for i, x in enumerate(got):
                    below = [j for j, y in enumerate(got) if y.startswith(x + "/")]
                    if below != list(range(i + 1, i + 1 + len(below))):
                        raise Violation("wrong-order", "%s: what is in %r does not follow it directly" % (method, x), plan)

        if '"@"' in json.dumps(tree):
            run.stats.probe("links")
        if not tree:
            run.stats.probe("empty_tree")
        logs = {}
        for method in ("walk", "walkdirs", "walkfiles", "listdir", "files", "dirs"):
            for plan in run.plans("order-" + method, [Plan(dirmode=m, dirseed=rng.randrange(1, 2 ** 40)) for m in (0, 1)]):
                out = run.execute(call(method), plan)
                if out.exc is not None:
                    raise Violation("raises", "%s: %s" % (method, exc_text(out.exc)), plan)
                check(method, out.value, (), plan)
                run.stats.note(out.value)
                run.stats.traces.add("order-%s-%s" % (method, simenv.hash_int(out.value)))
                logs.setdefault(method, out.log)
                run.stats.probe(method)
                if sc["pattern"]:
                    run.stats.probe("pattern")
        for method in ("walk", "walkdirs", "walkfiles"):
            bad = rng.choice(["", "Strict", "raise", "skip", "warning", True, 0])
            out = run.execute(call(method, bad))
            if not isinstance(out.exc, ValueError):
                raise Violation("wrong-policy-accepted", "%s(errors=%r): %s" % (method, bad, exc_text(out.exc) if out.exc is not None else "no error"))
            run.stats.probe("invalid_policy")
        if not run.stats.samples:
            run.stats.samples.append({"tree": tree, "pattern": sc["pattern"]})
        # directories that cannot be listed
        for method in ("walk", "walkdirs", "walkfiles"):
            if run.only_plan is None:
                log = [r for r in run.execute(call(method)).log if r[1] == simenv.LIST]
            else:
                log = []
            for errors in (None, "strict", "warn", "ignore"):
                cand = []
                for _ in range(sc["k"]):
                    if log:
                        hit = rng.sample(log, min(len(log), rng.choice([1, 1, 2, 3])))
                        cand.append(Plan([[r[0], simenv.A_ERRNO, rng.choice([errno.EACCES, errno.EIO, errno.ENOENT, errno.EMFILE])] for r in sorted(hit)]))
                for plan in run.plans("fault-%s-%s" % (method, errors), cand):
                    out = run.execute(call(method, errors), plan)
                    if not out.fired:
                        continue
                    if errors in (None, "strict"):
                        if out.exc is None:
                            raise Violation("silent-failure", "%s: %s with errors=%r returned normally" % (plan.describe(), method, errors), plan)
                        if not isinstance(out.exc, EnvironmentError):
                            raise Violation("wrong-error", "%s: %s" % (method, exc_text(out.exc)), plan)
                        run.stats.probe("strict_raised")
                        continue
                    if out.exc is not None:
                        raise Violation("raises", "%s: %s with errors=%r: %s" % (plan.describe(), method, errors, exc_text(out.exc)), plan)
                    lost = [os.path.relpath(r[7].strip("/"), "top").strip("/") for r in out.log if r[1] == simenv.LIST and r[2]]
                    lost = ["" if x == "." else x for x in lost]
                    check(method, out.value, lost, plan)
                    n = len(seen)
                    if n != (len(lost) if errors == "warn" else 0):
                        raise Violation("wrong-warnings", "%s with errors=%r: %d directories cannot be listed, %d warnings" % (method, errors, len(lost), n), plan)
                    run.stats.probe("warned" if errors == "warn" else "ignored")
                    if len(lost) > 1:
                        run.stats.probe("several_failures")
        # somebody removes files while we walk
        if sc["vanish"]:
            files = [p for p, d in self.entries(tree) if d is False]
            if not files:
                return
            gone = sorted(rng.sample(files, min(len(files), rng.choice([1, 2, 3]))))

            def remover():
                for p in gone:
                    os.unlink(run.path("top", p))
            for method in ("walk", "walkfiles"):
                total = 2 * len(self.entries(tree)) + len(gone) + 2
                for plan in run.plans("vanish-" + method, [Plan(sched=random_schedule(rng, 2, total)) for _ in range(2)]):
                    run.clean()
                    self.make(run, tree)
                    outs, trace = run.parallel([call(method), remover], plan)
                    if outs[0].exc is not None:
                        raise Violation("raises", "%s while others remove files: %s" % (method, exc_text(outs[0].exc)), plan)
                    want = self.expected(tree, method, sc["pattern"])
                    got = outs[0].value
                    if len(set(got)) != len(got) or [x for x in want if x not in got and x not in gone] or [x for x in got if x not in want]:
                        raise Violation("wrong-entries", "%s while others remove %r: %r, there were %r" % (method, gone, got, want), plan)
                    run.stats.probe("vanished")
